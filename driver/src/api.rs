//! Replays calls of the public interface (from spec/BuilderGen.tla, or made up here in the same
//! format) and records what they return, for spec/BuilderTrace.tla.
use crate::gen::gen_case;
use crate::geom::*;
use crate::modes::{line_of, pt, size, Out};
use crate::nested::N;
use crate::{guarded, json, Args};
use poly2tri_rs::*;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
struct Tag(String);

type Q = (P, i64);
#[derive(Clone)]
enum Call {
    New(Vec<Q>),
    One(Q),
    Many(Vec<Q>),
    Hole(Vec<Q>),
    Holes(Vec<Vec<Q>>),
}

fn q(n: &N) -> Q {
    ((n.list()[0].int(), n.list()[1].int()), n.list()[2].int())
}
fn qs(n: &N) -> Vec<Q> {
    n.list().iter().map(q).collect()
}

/// points through the library's own conversions
fn source(v: &[Q]) -> (Vec<Point>, Vec<Tag>) {
    let mut ps = vec![];
    let mut ds = vec![];
    for (k, x) in v.iter().enumerate() {
        let p = pt(x.0, 0);
        let t = Tag(x.1.to_string());
        if k % 2 == 0 {
            let a = ([p.x, p.y], t);
            ps.push(a.point());
            ds.push(AsPoint::data(a));
        } else {
            let a = (p, t);
            ps.push(a.point().point());
            ds.push(AsPoint::data(a));
        }
    }
    (ps, ds)
}

macro_rules! indices {
    ($t:expr) => {
        $t.triangle_list_indices().chunks(3).map(|c| c.iter().map(|&i| i as usize).collect::<Vec<_>>()).collect::<Vec<_>>()
    };
}

fn tris(v: &[Vec<usize>]) -> String {
    let s: Vec<String> = v.iter().map(|t| json::ids(&t.iter().map(|&i| json::one_based(i)).collect::<Vec<_>>())).collect();
    json::list(&s)
}

fn fresh(calls: &[Call]) -> Result<Vec<Vec<usize>>, String> {
    guarded(|| {
        let f = |v: &Vec<Q>| v.iter().map(|x| pt(x.0, 0)).collect::<Vec<_>>();
        let mut b: Option<Builder> = None;
        for c in calls {
            b = Some(match c {
                Call::New(v) => Builder::new(f(v)),
                Call::One(x) => b.unwrap().add_steiner_point(pt(x.0, 0), ()),
                Call::Many(v) => b.unwrap().add_steiner_points(f(v)),
                Call::Hole(v) => b.unwrap().add_hole(f(v)),
                Call::Holes(v) => b.unwrap().add_holes(v.iter().map(f).collect::<Vec<_>>()),
            })
        }
        indices!(b.unwrap().build().triangulate())
    })
}

/// made up calls: a generated case, handed over and read in a random way
fn random_calls(args: &Args, idx: u64) -> Option<N> {
    let mut r = Rng::new(args.get("seed", 1u64) ^ (idx << 20));
    let most = args.get("most", 0usize);
    let c = match most {
        0 => gen_case(args.get("seed", 1), idx, &size(args))?,
        _ => crate::big::gen(args.get("seed", 1), idx, most, cfg!(feature = "f32")).case,
    };
    if most == 0 && (c.exp != 0 || c.max_abs() > 1 << 23) {
        return None;
    }
    // how many holes or points one call hands over at most
    let chunk = if most == 0 { 9 } else { 1 + c.len() / r.us(2, 20) };
    let mut tag = 0;
    let mut t = |v: &[P]| -> N {
        N::L(v.iter()
            .map(|p| {
                tag += 1;
                N::L(vec![N::I(p.0), N::I(p.1), N::I(tag * 7 % 1009)])
            })
            .collect())
    };
    let i = |v: &[i64]| v.iter().map(|&x| N::I(x)).collect::<Vec<_>>();
    let mut out = vec![];
    let mut call = |head: &[i64], tail: Vec<N>| {
        let mut v = i(head);
        v.extend(tail);
        out.push(N::L(v));
    };
    call(&[1, 1], vec![t(&c.poly)]);
    let mut holes = c.holes.iter();
    let mut st = &c.st[..];
    let mut clone_at = r.below(6);
    let mut left = c.holes.len();
    while left > 0 || !st.is_empty() {
        if clone_at == 0 {
            call(&[6, 1, 2], vec![]);
        }
        clone_at = clone_at.wrapping_sub(1);
        if left > 0 && (st.is_empty() || r.chance(1, 2)) {
            if r.chance(1, 3) || left > 30 {
                let k = r.us(0, left);
                let hs: Vec<N> = holes.by_ref().take(k).map(|h| t(h)).collect();
                left -= hs.len();
                call(&[5, 1], vec![N::L(hs)]);
            } else {
                left -= 1;
                call(&[4, 1], vec![t(holes.next().unwrap())]);
            }
        } else if !st.is_empty() {
            if r.chance(1, 3) && (most == 0 || r.chance(1, 4)) {
                let n = t(&st[..1]);
                call(&[2, 1], vec![n.list()[0].clone()]);
                st = &st[1..];
            } else {
                let k = r.us(0, st.len().min(chunk));
                call(&[3, 1], vec![t(&st[..k])]);
                st = &st[k..];
            }
        }
    }
    call(&[7, 1, 1], vec![]);
    if r.chance(1, 2) {
        call(&[8, 1, 2], vec![]);
    }
    call(&[9, 1, 1, r.below(2) as i64], vec![]);
    for _ in 0..r.us(0, 6) {
        if r.chance(1, 2) {
            let k = if most == 0 { 5 } else { c.len() as i64 };
            match r.below(5) {
                0 | 1 => call(&[10, 1, r.range(1, k)], vec![]),
                2 => call(&[15, 1, r.range(0, k)], vec![]),
                3 => call(&[16, 1, r.range(0, k)], vec![]),
                _ => call(&[17, 1], vec![]),
            }
        } else {
            call(&[r.range(11, 13), 1], vec![]);
        }
    }
    if r.chance(1, 3) {
        call(&[18, 1, r.range(1, 6)], vec![]);
    }
    Some(N::L(out))
}

fn one(p: Point) -> String {
    json::xy(p.x as f64, p.y as f64)
}
fn triangle(t: &Triangle) -> String {
    json::list(&t.points.iter().map(|p| one(*p)).collect::<Vec<_>>())
}
fn same(pts: &[Q], p: Point, i: usize) -> bool {
    i < pts.len() && p.x as f64 == pts[i].0 .0 as f64 && p.y as f64 == pts[i].0 .1 as f64
}

struct Watch(u64);
impl Observer for Watch {
    fn edge_event(&mut self, _: Edge, s: &Sweeper) {
        self.0 += s.triangles.len() as u64;
    }
}

pub fn run(args: &Args, idx: u64) -> Option<Out> {
    let n = match args.kv.contains_key("cases") {
        true => N::parse(&line_of(args, "cases", idx)?),
        false => random_calls(args, idx)?,
    };
    let mut ev: Vec<String> = vec![];
    let mut bs: HashMap<i64, (Builder<Tag>, Vec<Call>)> = HashMap::new();
    let mut cs: HashMap<i64, (CDT<Tag>, Vec<Call>)> = HashMap::new();
    let mut slots: HashMap<i64, usize> = HashMap::new();
    let mut rs = HashMap::new(); // handle -> (Triangles, slot of its run in ev, result)
    let mut own: HashMap<usize, String> = HashMap::new();
    let put = |ev: &mut Vec<String>, c: &str, o: &str, r: String| {
        ev.push(format!("{{\"c\":{},\"o\":{},{}}}", c, json::quote(o), r));
    };
    let mut todo: Vec<N> = n.list().to_vec();
    let mut closed = false;
    let mut k = 0;
    let mut bad = false;
    loop {
        if k == todo.len() {
            if closed {
                break;
            }
            closed = true;
            let mut hs: Vec<i64> = rs.keys().cloned().collect();
            hs.sort();
            for h in hs {
                for c in [11, 12, 13, 14, 11, 12, 13, 10] {
                    todo.push(N::L(vec![N::I(c), N::I(h), N::I(2)]));
                }
            }
            continue;
        }
        let c = todo[k].list().to_vec();
        k += 1;
        let txt = text(&N::L(c.clone()));
        let (op, h) = (c[0].int(), c[1].int());
        if op == 18 && slots.get(&h).is_some_and(|s| !own.contains_key(s)) {
            // read the indices while it is there
            k -= 1;
            todo.insert(k, N::L(vec![N::I(11), N::I(h)]));
            continue;
        }
        let done = guarded(|| match op {
            1 => {
                let v = qs(&c[2]);
                bs.insert(h, (Builder::new(source(&v)), vec![Call::New(v)]));
            }
            2..=5 => {
                let (b, mut l) = bs.remove(&h).unwrap();
                let b = match op {
                    2 => {
                        let x = q(&c[2]);
                        l.push(Call::One(x));
                        b.add_steiner_point(pt(x.0, 0), Tag(x.1.to_string()))
                    }
                    3 => {
                        let v = qs(&c[2]);
                        l.push(Call::Many(v.clone()));
                        b.add_steiner_points(source(&v))
                    }
                    4 => {
                        let v = qs(&c[2]);
                        l.push(Call::Hole(v.clone()));
                        b.add_hole(source(&v))
                    }
                    _ => {
                        let v: Vec<Vec<Q>> = c[2].list().iter().map(qs).collect();
                        l.push(Call::Holes(v.clone()));
                        b.add_holes(v.iter().map(|v| source(v)).collect::<Vec<_>>())
                    }
                };
                bs.insert(h, (b, l));
            }
            6 => {
                let x = bs[&h].clone();
                bs.insert(c[2].int(), x);
            }
            7 => {
                let (b, l) = bs.remove(&h).unwrap();
                cs.insert(c[2].int(), (b.build(), l));
            }
            8 => {
                let x = cs[&h].clone();
                cs.insert(c[2].int(), x);
            }
            _ => {}
        });
        if let Err(m) = done {
            put(&mut ev, &txt, &m, "\"r\":[]".into());
            bad = true;
            break;
        }
        match op {
            1..=8 => put(&mut ev, &txt, "ok", "\"r\":[]".into()),
            9 => {
                let (d, l) = cs.remove(&h).unwrap();
                let f = fresh(&l);
                let t = guarded(|| {
                    if c[3].int() == 1 {
                        let mut w = Watch(0);
                        d.triangulate_with_observer(&mut w)
                    } else {
                        d.triangulate()
                    }
                });
                let Ok(f) = f else { return None };
                match t {
                    Ok(t) => {
                        let pts: Vec<Q> = l
                            .iter()
                            .flat_map(|c| match c {
                                Call::New(v) | Call::Many(v) | Call::Hole(v) => v.clone(),
                                Call::One(x) => vec![*x],
                                Call::Holes(v) => v.concat(),
                            })
                            .collect();
                        rs.insert(c[2].int(), (t, ev.len(), pts, f.clone(), 0usize));
                        let slot = ev.len();
                        slots.insert(c[2].int(), slot);
                        put(&mut ev, &txt, "ok", format!("\"f\":{},\"r\":@{}@", tris(&f), slot));
                    }
                    Err(m) => {
                        put(&mut ev, &txt, &m, format!("\"f\":{},\"r\":[]", tris(&f)));
                        bad = true;
                        break;
                    }
                }
            }
            18 => {
                let (t, _, pts, f, at) = rs.remove(&h).unwrap();
                let how = c[2].int();
                let rest = f.len() - at.min(f.len());
                let mut v = vec![];
                let r = guarded(|| {
                    match how {
                        1 => return format!("[{}]", t.count()),
                        2 => v.extend(t.last()),
                        3 => v = t.fold(vec![], |mut v, x| { v.push(x); v }),
                        4 => v = t.collect(),
                        5 => v = t.step_by(2).collect(),
                        _ => v = t.skip(1).collect(),
                    }
                    json::list(&v.iter().map(triangle).collect::<Vec<_>>())
                });
                let want: Vec<&Vec<usize>> = match how {
                    1 => vec![],
                    2 => f[f.len() - rest..].last().into_iter().collect(),
                    3 | 4 => f[f.len() - rest..].iter().collect(),
                    5 => f[f.len() - rest..].iter().step_by(2).collect(),
                    _ => f[f.len() - rest..].iter().skip(1).collect(),
                };
                bad |= v.len() != want.len() || v.iter().zip(want).any(|(x, w)| (0..3).any(|k| !same(&pts, x.points[k], w[k])));
                match r {
                    Ok(r) => {
                        bad |= how == 1 && r != format!("[{rest}]");
                        put(&mut ev, &txt, "ok", format!("\"r\":{r}"));
                    }
                    Err(m) => {
                        put(&mut ev, &txt, &m, "\"r\":[]".into());
                        bad = true;
                        break;
                    }
                }
            }
            _ => {
                let (t, slot, pts, f, at) = rs.get_mut(&h).unwrap();
                // only to see which executions are worth TLC's time first
                let same = |p: Point, i: usize| same(pts, p, i);
                let mut odd = false;
                let r = guarded(|| match op {
                    11 => {
                        let i = indices!(t);
                        odd |= i != *f;
                        tris(&i)
                    }
                    12 => {
                        odd |= t.points().len() != pts.len() || (0..pts.len()).any(|i| !same(t.points()[i], i));
                        json::list(&t.points().iter().map(|p| one(*p)).collect::<Vec<_>>())
                    }
                    13 => {
                        odd |= t.data().len() != pts.len() || t.data().iter().zip(pts.iter()).any(|(d, p)| d.0 != p.1.to_string());
                        json::list(&t.data().iter().map(|d| d.0.clone()).collect::<Vec<_>>())
                    }
                    15 => {
                        let n = c[2].int() as usize;
                        let x = t.nth(n);
                        odd |= match (x, f.get(*at + n)) {
                            (Some(x), Some(w)) => (0..3).any(|k| !same(x.points[k], w[k])),
                            (None, None) => false,
                            _ => true,
                        };
                        *at = f.len().min(*at + n + 1);
                        format!("[{}]", x.as_ref().map_or("[]".into(), triangle))
                    }
                    16 => {
                        let n = c[2].int() as usize;
                        let v: Vec<_> = t.by_ref().take(n).collect();
                        let to = f.len().min(*at + n);
                        odd |= v.len() != to - *at || v.iter().zip(&f[*at..to]).any(|(x, w)| (0..3).any(|k| !same(x.points[k], w[k])));
                        *at = to;
                        json::list(&v.iter().map(triangle).collect::<Vec<_>>())
                    }
                    17 => {
                        let (lo, hi) = t.size_hint();
                        let rest = f.len() - *at;
                        odd |= lo > rest || hi.is_some_and(|h| h < rest);
                        // as far as TLC's integers go
                        let cut = |x: usize| x.min(i32::MAX as usize) as i64;
                        format!("[{},{}]", cut(lo), hi.map_or(-1, cut))
                    }
                    _ => {
                        // 14: as many times as there are points and more, that is to the end
                        let n = if op == 10 { c[2].int() as usize } else { 2 * t.points().len() + 60 };
                        let v: Vec<String> = (0..n)
                            .map(|_| match t.next() {
                                Some(x) => {
                                    odd |= *at >= f.len() || (0..3).any(|k| !same(x.points[k], f[*at][k]));
                                    *at += 1;
                                    triangle(&x)
                                }
                                None => {
                                    odd |= *at != f.len();
                                    "[]".into()
                                }
                            })
                            .collect();
                        json::list(&v)
                    }
                });
                bad |= odd;
                match r {
                    Ok(r) => {
                        if op == 11 {
                            own.entry(*slot).or_insert(r.clone());
                        }
                        let mut r = format!("\"r\":{r}");
                        if op == 12 {
                            // which zeros are negative ones, as they may have been when handed over
                            let z = |p: Point| [p.x, p.y].iter().zip([1, 2]).map(|(v, b)| if *v == 0. && v.is_sign_negative() { b } else { 0 }).sum::<usize>();
                            bad |= t.points().iter().zip(pts.iter()).any(|(p, w)| z(*p) != z(pt(w.0, 0)));
                            r += &format!(",\"z\":{}", json::ids(&t.points().iter().map(|p| z(*p)).collect::<Vec<_>>()));
                        }
                        put(&mut ev, &txt, "ok", r);
                    }
                    Err(m) => {
                        put(&mut ev, &txt, &m, "\"r\":[]".into());
                        bad = true;
                        break;
                    }
                }
            }
        }
    }
    for (slot, s) in ev.iter_mut().enumerate() {
        let mark = format!("@{slot}@");
        if s.contains(&mark) {
            let v = own.get(&slot).cloned().unwrap_or("[]".into());
            *s = s.replace(&mark, &v);
        }
    }
    Some(Out { suspicious: bad, json: format!("{{\"id\":{},\"ev\":{}}}", idx, json::list(&ev)) })
}

fn text(n: &N) -> String {
    match n {
        N::I(v) => v.to_string(),
        N::L(v) => json::list(&v.iter().map(text).collect::<Vec<_>>()),
    }
}
