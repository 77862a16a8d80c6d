//! The store of points as an observer can read it: all its views, at the start and at the end.
use crate::gen::Case;
use crate::modes::{builder, case, Out};
use crate::{guarded, json, Args};
use poly2tri_rs::*;

type Row = (usize, (f64, f64), Vec<usize>);

#[derive(PartialEq, Clone)]
struct Snap {
    n: usize,
    it: Vec<Row>,
    wf: Vec<Row>,
    pp: Vec<(f64, f64)>,
    pf: Vec<(f64, f64)>,
    gp: Vec<Option<(f64, f64)>>,
    y: Vec<usize>,
    by: Vec<(usize, Vec<Row>)>,
    h: usize,
    t: usize,
    e: Vec<[usize; 4]>,
}

struct Look {
    snaps: Vec<Snap>,
    turn: usize,
}

fn c(p: &Point) -> (f64, f64) {
    (p.x as f64, p.y as f64)
}

fn id(p: PointId) -> usize {
    json::one_based(p.as_usize())
}

impl Look {
    fn snap(&mut self, s: &Sweeper) {
        let p = s.points;
        let n = p.len();
        let all: Vec<_> = p.iter().map(|(i, q, _)| (i, *q)).collect();
        let mut e = vec![];
        for j in 0..all.len().min(12) {
            let (a, b) = ((self.turn * 3 + j) % all.len(), (self.turn + 5 * j + 1) % all.len());
            let (a, b) = (&all[a], &all[b]);
            if a.0 != b.0 {
                let g = Edge::new((a.0, &a.1), (b.0, &b.1));
                e.push([id(a.0), id(b.0), id(g.p), id(g.q)]);
            }
        }
        let row = |(i, q, e): (PointId, &Point, _)| (id(i), c(q), rows(e));
        fn rows(e: impl Iterator<Item = PointId>) -> Vec<usize> {
            e.map(id).collect()
        }
        let by = |k: usize| (k, p.iter_point_by_y(k).map(|(i, q, e)| (id(i), c(&q), rows(e))).collect());
        self.snaps.push(Snap {
            n,
            it: p.iter().map(row).collect(),
            wf: p.iter_without_fake().map(|(i, q, e)| (id(i), c(q), rows(e))).collect(),
            pp: p.points().iter().map(c).collect(),
            pf: p.points_without_fake().iter().map(c).collect(),
            gp: all.iter().map(|a| p.get_point(a.0).map(|q| c(&q))).collect(),
            y: (0..n).map(|k| p.get_id_by_y(k).map(id).unwrap_or(0)).collect(),
            by: vec![by(0), by(1), by(n / 2), by(n - 2), by(n)],
            h: id(p.head),
            t: id(p.tail),
            e,
        });
        self.turn += 1;
    }
}

impl Observer for Look {
    fn enter_point_event(&mut self, _: PointId, s: &Sweeper) {
        if self.snaps.is_empty() {
            self.snap(s)
        }
    }
    fn finalized(&mut self, s: &Sweeper) {
        self.snap(s)
    }
}

fn rows(v: &[Row]) -> String {
    let v: Vec<String> =
        v.iter().map(|r| format!("[{},{},{}]", r.0, json::xy(r.1 .0, r.1 .1), json::ids(&r.2))).collect();
    json::list(&v)
}
fn pts(v: &[(f64, f64)]) -> String {
    json::list(&v.iter().map(|q| json::xy(q.0, q.1)).collect::<Vec<_>>())
}

/// what the views should show; decides nothing, see `screen`
fn odd(c: &Case, s: &Snap) -> bool {
    let p: Vec<(f64, f64)> = c.points().iter().map(|&q| json::coord(q, c.exp)).collect();
    let n = p.len();
    if s.n != n + 2 || s.h != n + 1 || s.t != n + 2 || s.it.len() != n + 2 || s.pp.len() != n + 2 {
        return true;
    }
    let mut low = vec![vec![]; n + 2];
    for l in c.loops() {
        for i in 0..l.len() {
            let (a, b) = (l[i], l[(i + 1) % l.len()]);
            let (a, b) = if (p[a].1, p[a].0) < (p[b].1, p[b].0) { (a, b) } else { (b, a) };
            low[b].push(a + 1);
        }
    }
    low.iter_mut().for_each(|v| v.sort());
    let norm = |r: &Row| (r.0, r.1, { let mut v = r.2.clone(); v.sort(); v });
    let it: Vec<Row> = s.it.iter().map(norm).collect();
    if (0..n).any(|i| it[i] != (i + 1, p[i], low[i].clone())) || it[n..].iter().any(|r| !r.2.is_empty()) {
        return true;
    }
    let wf: Vec<Row> = s.wf.iter().map(norm).collect();
    if wf[..] != it[..n] || s.pp[..n] != p[..] || s.pf != p || (0..n + 2).any(|i| s.gp[i] != Some(s.pp[i]) || it[i].1 != s.pp[i]) {
        return true;
    }
    let mut o: Vec<usize> = (0..n).collect();
    o.sort_by(|&a, &b| (p[a].1, p[a].0).partial_cmp(&(p[b].1, p[b].0)).unwrap());
    if (0..n + 2).any(|k| s.y[k] != o.get(k).map(|i| i + 1).unwrap_or(0)) {
        return true;
    }
    for (k, v) in &s.by {
        let v: Vec<Row> = v.iter().map(norm).collect();
        let w: Vec<Row> = o.iter().skip(*k).map(|&i| it[i].clone()).collect();
        if v != w {
            return true;
        }
    }
    s.e.iter().any(|e| {
        let (a, b) = (s.pp[e[0] - 1], s.pp[e[1] - 1]);
        let (x, y) = if (a.1, a.0) < (b.1, b.0) { (e[0], e[1]) } else { (e[1], e[0]) };
        (e[2], e[3]) != (x, y)
    })
}

pub fn run(args: &Args, idx: u64) -> Option<Out> {
    // a large input, whose record has in addition what shows that it is valid
    let big = args.kv.contains_key("most").then(|| crate::big::gen(args.get("seed", 1), idx, args.get("most", 2000), cfg!(feature = "f32")));
    let c = match &big {
        Some(g) => g.case.clone(),
        None => case(args, idx)?,
    };
    let mut look = Look { snaps: vec![], turn: idx as usize % 1000 };
    let r = guarded(|| {
        builder(&c).build().triangulate_with_observer(&mut look);
    });
    let o = r.err().map(|m| format!("panic: {m}")).unwrap_or("ok".into());
    let s = o != "ok" || look.snaps.len() != 2 || look.snaps.iter().any(|s| odd(&c, s));
    let v: Vec<String> = look
        .snaps
        .iter()
        .map(|s| {
            let gp: Vec<String> =
                s.gp.iter().map(|g| g.map(|q| format!("[{}]", json::xy(q.0, q.1))).unwrap_or("[]".into())).collect();
            let by: Vec<String> = s.by.iter().map(|b| format!("[{},{}]", b.0, rows(&b.1))).collect();
            let e: Vec<String> = s.e.iter().map(|e| json::ids(e)).collect();
            format!(
                "{{\"n\":{},\"it\":{},\"wf\":{},\"pp\":{},\"pf\":{},\"gp\":{},\"y\":{},\"by\":{},\"h\":{},\"t\":{},\"e\":{}}}",
                s.n,
                rows(&s.it),
                rows(&s.wf),
                pts(&s.pp),
                pts(&s.pf),
                json::list(&gp),
                json::ids(&s.y),
                json::list(&by),
                s.h,
                s.t,
                json::list(&e)
            )
        })
        .collect();
    if let Some(g) = &big {
        let json = crate::big::record(g, idx, &o, &[]).replacen("{", &format!("{{\"sn\":{},", json::list(&v)), 1);
        return Some(Out { suspicious: s, json });
    }
    Some(Out {
        suspicious: s,
        json: format!(
            "{{\"id\":{},\"k\":{},\"p\":{},\"l\":{},\"o\":{},\"sn\":{}}}",
            idx,
            c.kind,
            json::points(&c),
            json::loops(&c),
            json::quote(&o),
            json::list(&v)
        ),
    })
}
