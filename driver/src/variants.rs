//! The same input given in another way, or moved: see spec/Variants.tla.
use crate::gen::{gen_case, Case};
use crate::geom::*;
use crate::modes::{case, pt, size, Out};
use crate::{guarded, json, screen, Args};
use poly2tri_rs::*;
use std::collections::{BTreeSet, HashSet};

type Q = (P, usize); // a place, and the base point it stands for (one based, 0: none)

enum Op {
    Hole(Vec<Q>),
    Holes(Vec<Vec<Q>>),
    Many(Vec<Q>),
    One(Q),
}

struct Var {
    kind: &'static str,
    x: Vec<i64>,
    exp: i32,
    poly: Vec<Q>,
    ops: Vec<Op>,
    mirrored: bool,
}

fn number(c: &Case) -> (Vec<Q>, Vec<Vec<Q>>, Vec<Q>) {
    let mut n = 0;
    let mut g = |v: &Vec<P>| {
        v.iter()
            .map(|&p| {
                n += 1;
                (p, n)
            })
            .collect::<Vec<Q>>()
    };
    let poly = g(&c.poly);
    let holes = c.holes.iter().map(&mut g).collect();
    (poly, holes, g(&c.st))
}

fn shuffle<T>(r: &mut Rng, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        let j = r.below(i as u64 + 1) as usize;
        v.swap(i, j);
    }
}

fn spin(r: &mut Rng, v: &mut Vec<Q>) {
    let n = v.len() as u64;
    v.rotate_left(r.below(n) as usize);
    if r.chance(1, 2) {
        v.reverse()
    }
}

/// holes and Steiner points through a random sequence of builder calls
fn calls(r: &mut Rng, holes: Vec<Vec<Q>>, st: Vec<Q>) -> Vec<Op> {
    let mut ops = vec![];
    let mut hs = holes.into_iter().peekable();
    while hs.peek().is_some() {
        if r.chance(1, 4) {
            let k = r.us(1, 3);
            ops.push(Op::Holes(hs.by_ref().take(k).collect()));
        } else {
            ops.push(Op::Hole(hs.next().unwrap()));
        }
    }
    let mut st = st.into_iter().peekable();
    while st.peek().is_some() {
        let i = r.below(ops.len() as u64 + 1) as usize;
        if r.chance(1, 3) {
            ops.insert(i, Op::One(st.next().unwrap()));
        } else {
            let k = r.us(1, 12);
            ops.insert(i, Op::Many(st.by_ref().take(k).collect()));
        }
    }
    ops
}

fn reorder(r: &mut Rng, c: &Case) -> Var {
    let (mut poly, mut holes, mut st) = number(c);
    spin(r, &mut poly);
    holes.iter_mut().for_each(|h| spin(r, h));
    shuffle(r, &mut holes);
    shuffle(r, &mut st);
    let ops = calls(r, holes, st);
    Var { kind: "order", x: vec![], exp: c.exp, poly, ops, mirrored: false }
}

fn exterior(r: &mut Rng, c: &Case) -> Var {
    let (poly, holes, mut st) = number(c);
    if r.chance(1, 2) {
        st.retain(|q| c.in_region(q.0) || r.chance(1, 3));
    }
    let mut have: HashSet<P> = c.points().into_iter().collect();
    let (mut x0, mut y0, mut x1, mut y1) = (i64::MAX, i64::MAX, i64::MIN, i64::MIN);
    for &(x, y) in &c.poly {
        x0 = x0.min(x);
        x1 = x1.max(x);
        y0 = y0.min(y);
        y1 = y1.max(y);
    }
    let lim = if cfg!(feature = "f32") { 1i64 << 24 } else { 1 << 53 };
    let f = r.pick(&[0, 1, 1, 3]);
    let (w, h) = (((x1 - x0).max(1).min(1 << 58)) * f + 1, ((y1 - y0).max(1).min(1 << 58)) * f + 1);
    for _ in 0..r.us(1, 12) {
        let p = if r.chance(1, 6) {
            // in line with a corner
            let q = c.poly[r.below(c.poly.len() as u64) as usize];
            if r.chance(1, 2) {
                (q.0, r.range(y0 - h, y1 + h))
            } else {
                (r.range(x0 - w, x1 + w), q.1)
            }
        } else {
            (r.range(x0 - w, x1 + w), r.range(y0 - h, y1 + h))
        };
        if p.0.abs() <= lim && p.1.abs() <= lim && !c.in_region(p) && c.off_edges(p) && have.insert(p) {
            let i = r.below(st.len() as u64 + 1) as usize;
            st.insert(i, (p, 0));
        }
    }
    let ops = calls(r, holes, st);
    Var { kind: "ext", x: vec![], exp: c.exp, poly, ops, mirrored: false }
}

fn moved(c: &Case, kind: &'static str, x: Vec<i64>, exp: i32, mirrored: bool, f: impl Fn(P) -> P) -> Var {
    let (mut poly, mut holes, mut st) = number(c);
    for q in poly.iter_mut().chain(holes.iter_mut().flatten()).chain(st.iter_mut()) {
        q.0 = f(q.0)
    }
    let mut ops = vec![];
    if !holes.is_empty() {
        ops.push(Op::Holes(holes));
    }
    if !st.is_empty() {
        ops.push(Op::Many(st));
    }
    Var { kind, x, exp, poly, ops, mirrored }
}

fn build(v: &Var) -> Builder {
    let f = |q: &Vec<Q>| q.iter().map(|p| pt(p.0, v.exp)).collect::<Vec<_>>();
    let mut b = Builder::new(f(&v.poly));
    for o in &v.ops {
        b = match o {
            Op::Hole(h) => b.add_hole(f(h)),
            Op::Holes(h) => b.add_holes(h.iter().map(f).collect::<Vec<_>>()),
            Op::Many(s) => b.add_steiner_points(f(s)),
            Op::One(q) => b.add_steiner_point(pt(q.0, v.exp), ()),
        }
    }
    b
}

/// points in the order they were handed over, and the loops
fn layout(v: &Var) -> (Vec<Q>, Vec<Vec<usize>>) {
    let mut p = v.poly.clone();
    let mut l = vec![(1..=p.len()).collect::<Vec<_>>()];
    for o in &v.ops {
        let mut hole = |h: &Vec<Q>| {
            l.push((p.len() + 1..=p.len() + h.len()).collect());
            p.extend(h.iter());
        };
        match o {
            Op::Hole(h) => hole(h),
            Op::Holes(hs) => hs.iter().for_each(hole),
            Op::Many(s) => p.extend(s.iter()),
            Op::One(q) => p.push(*q),
        }
    }
    (p, l)
}

struct Look {
    n: u64,
}
impl Observer for Look {
    fn legalized(&mut self, _: TriangleId, s: &Sweeper) {
        self.n += s.advancing_front.iter().count() as u64
    }
    fn exit_point_event(&mut self, p: PointId, s: &Sweeper) {
        if let Some(p) = s.points.get_point(p) {
            let n = s.advancing_front.locate_node(p);
            self.n += n.is_some() as u64;
            if let Some(n) = n {
                let id = n.get_node_id();
                self.n += s.advancing_front.locate_next_node(id).is_some() as u64;
                self.n += s.advancing_front.locate_prev_node(id).is_some() as u64;
            }
            self.n += s.advancing_front.get_node(p).is_some() as u64;
        }
    }
}

/// gives up in the middle
struct Stop {
    left: u64,
}
impl Stop {
    fn tick(&mut self) {
        if self.left == 0 {
            panic!("STOP")
        }
        self.left -= 1
    }
}
impl Observer for Stop {
    fn enter_point_event(&mut self, _: PointId, _: &Sweeper) {
        self.tick()
    }
    fn exit_point_event(&mut self, _: PointId, _: &Sweeper) {
        self.tick()
    }
    fn edge_event(&mut self, _: Edge, _: &Sweeper) {
        self.tick()
    }
    fn sweep_done(&mut self, _: &Sweeper) {
        self.tick()
    }
    fn finalized(&mut self, _: &Sweeper) {
        self.tick()
    }
    fn will_legalize(&mut self, _: TriangleId, _: &Sweeper) {
        self.tick()
    }
    fn legalize_step(&mut self, _: TriangleId, _: &Sweeper) {
        self.tick()
    }
    fn triangle_rotated(&mut self, _: TriangleId, _: TriangleId, _: &Sweeper) {
        self.tick()
    }
    fn legalized(&mut self, _: TriangleId, _: &Sweeper) {
        self.tick()
    }
}

macro_rules! indices {
    ($t:expr) => {
        $t.triangle_list_indices()
            .chunks(3)
            .map(|c| [c[0] as usize, c[1] as usize, c[2] as usize])
            .collect::<Vec<[usize; 3]>>()
    };
}

type Res = (String, Vec<[usize; 3]>);
fn outcome(r: Result<Vec<[usize; 3]>, String>) -> Res {
    match r {
        Ok(t) => ("ok".into(), t),
        Err(m) => (format!("panic: {m}"), vec![]),
    }
}

/// all of these with the same frames on the stack
#[inline(never)]
fn early(c: &Case, left: u64) -> Res {
    let mut o = Stop { left };
    outcome(guarded(|| indices!(crate::modes::builder(c).build().triangulate_with_observer(&mut o))))
}

fn canon(t: [usize; 3]) -> [usize; 3] {
    let k = (0..3).min_by_key(|&k| t[k]).unwrap();
    [t[k], t[(k + 1) % 3], t[(k + 2) % 3]]
}

pub fn run(args: &Args, idx: u64) -> Option<Out> {
    let most: usize = args.get("most", 0);
    let big = (most > 0).then(|| crate::big::gen(args.get("seed", 1), idx, most, cfg!(feature = "f32")));
    let c = match &big {
        Some(b) => b.case.clone(),
        None => case(args, idx)?,
    };
    let which: u64 = args.get("which", 11);
    let mut r = Rng::new(args.get("seed", 1u64).wrapping_mul(31).wrapping_add(idx));
    let base = outcome(guarded(|| indices!(crate::modes::builder(&c).build().triangulate())));
    let mut vars: Vec<(Var, Res)> = vec![];
    let go = |v: &Var| outcome(guarded(|| indices!(build(v).build().triangulate())));
    let m = c.max_abs();
    match which {
        11 => {
            let third = if most > 0 { reorder(&mut r, &c) } else { exterior(&mut r, &c) };
            for v in [reorder(&mut r, &c), reorder(&mut r, &c), third] {
                let res = go(&v);
                vars.push((v, res));
            }
        }
        12 => {
            let mut vs = vec![];
            let f32 = size(args).f32;
            let lim = if f32 { 1i64 << 24 } else { 1i64 << 53 };
            let d = r.pick(&[1, 10, 1000, 1_000_000, 1 << 28, 1 << 40, lim]).min((lim - m).max(0));
            let (dx, dy) = (r.range(-d, d), r.range(-d, d));
            vs.push(moved(&c, "move", vec![dx, dy], c.exp, false, |p| (p.0 + dx, p.1 + dy)));
            if r.chance(1, 2) {
                vs.push(moved(&c, "mirror", vec![], c.exp, true, |p| (-p.0, p.1)));
            } else {
                vs.push(moved(&c, "turn", vec![], c.exp, false, |p| (-p.1, p.0)));
            }
            if r.chance(1, 2) {
                vs.push(moved(&c, "swap", vec![], c.exp, true, |p| (p.1, p.0)));
            }
            let e = if f32 { r.pick(&[-20, -7, -1, 1, 5, 20]) } else { r.pick(&[-90, -40, -12, -5, -1, 1, 6, 30, 90]) };
            let lim = if f32 { 40 } else if m > 1 << 54 { 120 } else { 200 };
            let e = (c.exp + e).clamp(-lim, lim) - c.exp;
            vs.push(moved(&c, "scale", vec![e as i64], c.exp + e, false, |p| p));
            for v in vs {
                let res = go(&v);
                vars.push((v, res));
            }
        }
        _ => {
            let mk = |k| moved(&c, k, vec![], c.exp, false, |p| p);
            let b = crate::modes::builder(&c);
            let b2 = b.clone();
            // something else in between, no state may be left behind: another input, then the same points with
            // other constraints, or runs that end early
            if idx % 3 != 1 {
                if let Some(o) = gen_case(args.get("seed", 1u64) ^ 0x55, idx, &size(args)) {
                    let _ = guarded(|| crate::modes::builder(&o).build().triangulate().count());
                }
            }
            if !c.holes.is_empty() && idx % 4 != 3 {
                let mut o = c.clone();
                let k = if o.holes.len() > 1 && idx % 4 == 0 { 1 } else { 0 };
                let mut st: Vec<P> = o.holes.split_off(k).concat();
                st.extend(o.st.iter());
                o.st = st;
                let _ = guarded(|| crate::modes::builder(&o).build().triangulate().count());
            }
            if idx % 3 == 0 {
                let n = 1 + 12 * c.points().len() as u64;
                let mut left: Vec<u64> = (0..r.us(1, 3)).map(|_| r.below(n)).collect();
                left.push(u64::MAX);
                let got: Vec<Res> = left.iter().map(|&l| early(&c, l)).collect();
                vars.push((mk("again"), got.last().unwrap().clone()));
            }
            vars.push((mk("cloneb"), outcome(guarded(|| indices!(b2.build().triangulate())))));
            let d = b.build();
            let d2 = d.clone();
            vars.push((mk("clonec"), outcome(guarded(|| indices!(d2.triangulate())))));
            let mut o = Look { n: 0 };
            vars.push((mk("seen"), outcome(guarded(|| indices!(d.triangulate_with_observer(&mut o))))));
            vars.push((mk("again"), go(&mk("again"))));
            // several at once, of this input and of others, in threads of their own
            if idx % 8 == 0 || most > 0 {
                let v = mk("again");
                let times = if most > 0 { 1 } else { 12 };
                let others: Vec<Case> =
                    (1..3).filter_map(|k| gen_case(args.get("seed", 1u64) ^ (0x77 + k), idx, &size(args))).collect();
                let got: Vec<Vec<Res>> = std::thread::scope(|s| {
                    let same: Vec<_> = (0..2)
                        .map(|_| {
                            s.spawn(|| {
                                let mut seen: Vec<Res> = (0..times).map(|_| go(&v)).collect();
                                seen.dedup();
                                seen
                            })
                        })
                        .collect();
                    for o in &others {
                        s.spawn(move || {
                            for _ in 0..times {
                                let _ = guarded(|| crate::modes::builder(o).build().triangulate().count());
                            }
                        });
                    }
                    same.into_iter().map(|h| h.join().unwrap_or(vec![("died".into(), vec![])])).collect()
                });
                // every different one is recorded
                let mut all: Vec<Res> = got.concat();
                all.dedup();
                for res in all {
                    vars.push((mk("again"), res));
                }
            }
        }
    }
    let unique = base.0 == "ok" && screen::unique(&c, &base.1);
    let mut suspicious = vars.iter().any(|v| v.1 .0 != base.0);
    if which == 15 {
        suspicious |= vars.iter().any(|v| v.1 .1 != base.1);
    } else if unique {
        let want: BTreeSet<[usize; 3]> = base.1.iter().map(|t| canon([t[0] + 1, t[1] + 1, t[2] + 1])).collect();
        for (v, res) in &vars {
            let (p, _) = layout(v);
            let got: BTreeSet<[usize; 3]> = res
                .1
                .iter()
                .map(|t| {
                    let id = |i: usize| p.get(i).map(|q| q.1).unwrap_or(0);
                    let u = [id(t[0]), id(t[1]), id(t[2])];
                    canon(if v.mirrored { [u[0], u[2], u[1]] } else { u })
                })
                .collect();
            suspicious |= got != want;
        }
    } else if most == 0 && !r.chance(1, 8) && !suspicious {
        return None; // nothing to compare
    }
    let vs: Vec<String> = vars
        .iter()
        .map(|(v, res)| {
            let (p, l) = layout(v);
            let ps: Vec<String> = p
                .iter()
                .map(|q| {
                    let (x, y) = json::coord(q.0, v.exp);
                    json::xy(x, y)
                })
                .collect();
            let x: Vec<String> = if v.kind == "move" {
                let (x, y) = json::coord((v.x[0], v.x[1]), v.exp);
                vec![json::num(x), json::num(y)]
            } else {
                v.x.iter().map(|a| a.to_string()).collect()
            };
            format!(
                "{{\"k\":{},\"x\":{},\"p\":{},\"l\":{},\"m\":{},\"o\":{},\"t\":{}}}",
                json::quote(v.kind),
                json::list(&x),
                json::list(&ps),
                json::list(&l.iter().map(|k| json::ids(k)).collect::<Vec<_>>()),
                json::ids(&p.iter().map(|q| q.1).collect::<Vec<_>>()),
                json::quote(&res.0),
                json::tris(&res.1)
            )
        })
        .collect();
    let s = match &big {
        Some(b) => crate::big::record(b, idx, &base.0, &base.1),
        None => crate::modes::result_json(&c, idx, &base.0, &base.1),
    };
    Some(Out { suspicious, json: s.replacen("{", &format!("{{\"v\":{},", json::list(&vs)), 1) })
}
