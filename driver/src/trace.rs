//! Records what the library shows to its observers: one event per callback, with the change of
//! the mesh and of the advancing front since the previous event.
use crate::gen::Case;
use crate::json;
use crate::watch::Watch;
use poly2tri_rs::*;

/// a front node that claims a triangle, but none that exists
pub const NO_TRIANGLE: usize = usize::MAX;

pub struct Recorder {
    pub ev: Vec<String>,
    tri: Vec<[usize; 8]>,
    front: Vec<(usize, usize)>,
    pub points: Vec<(f64, f64)>,
    pub nq: usize,
    pub limit: usize,
    pub result: Vec<usize>,
    pub watch: Watch,
    turn: usize,
    /// what else to record at every event: 19 the built-in check, 20 handles of nodes, 22 triangle queries
    obs: u64,
    #[cfg_attr(not(feature = "ask"), allow(dead_code))]
    handles: Vec<(usize, Handle)>,
    /// how many exits of points pass before anything is recorded; then so many events are
    pub part: Option<(usize, usize)>,
    pub next: Option<[usize; 2]>,
    /// only the final state is recorded
    pub last: bool,
}

/// asks a front about a node that was seen earlier: [its point, found, next, previous]
type Handle = Box<dyn Fn(&Sweeper) -> [usize; 4]>;

impl Recorder {
    pub fn new(c: &Case, limit: usize, obs: u64) -> Self {
        let (nq, watch) = (c.len(), Watch::new(c));
        Recorder { ev: vec![], tri: vec![], front: vec![], points: vec![], nq, limit, result: vec![], watch, turn: 0, obs, handles: vec![], part: None, next: None, last: false }
    }

    /// Only part of a large run is recorded: it starts with an exit of a point and ends with a point or an edge.
    fn skip(&mut self, exit: bool, s: &Sweeper) -> bool {
        let Some((wait, most)) = self.part else { return false };
        if wait > 0 {
            if exit {
                self.part = Some((wait - 1, most));
                #[cfg(feature = "ask")]
                if self.obs == 20 && (wait < 60 || wait % 64 == 0) {
                    if self.points.is_empty() {
                        self.points = s.points.iter().map(|(_, p, _)| (p.x as f64, p.y as f64)).collect();
                    }
                    let now: Vec<usize> = s.advancing_front.iter().map(|n| n.point_id().as_usize() + 1).collect();
                    self.turn += 1;
                    self.keep(&now, s);
                }
            }
            return true;
        }
        if self.ev.is_empty() {
            if !exit {
                return true;
            }
            self.points = s.points.iter().map(|(_, p, _)| (p.x as f64, p.y as f64)).collect();
        }
        self.ev.len() >= most
    }

    /// the segment that is under way when a part ends: the next event about a point or a segment tells
    fn after(&mut self, name: &str, a: usize, b: usize) {
        if self.part.is_some() && !self.ev.is_empty() && self.next.is_none() {
            self.next = Some(if name == "edge" { [a, b] } else { [0, 0] });
        }
    }

    fn snap(&mut self, name: &str, a: usize, b: usize, q: String, s: &Sweeper) {
        if self.ev.len() >= self.limit {
            panic!("EVENTLIMIT");
        }
        if self.points.is_empty() {
            self.points = s.points.iter().map(|(_, p, _)| (p.x as f64, p.y as f64)).collect();
        }
        let id = |t: TriangleId| if t.invalid() { 0 } else { json::one_based(t.as_usize()) };
        let mut ch = vec![];
        for (tid, t) in s.triangles.iter() {
            let mut c = 0;
            let mut d = 0;
            for i in 0..3 {
                if t.is_constrained(i) {
                    c |= 1 << i
                }
                if t.is_delaunay(i) {
                    d |= 1 << i
                }
            }
            if t.interior {
                c |= 8
            }
            let cur = [
                json::one_based(t.points[0].as_usize()),
                json::one_based(t.points[1].as_usize()),
                json::one_based(t.points[2].as_usize()),
                id(t.neighbors[0]),
                id(t.neighbors[1]),
                id(t.neighbors[2]),
                c,
                d,
            ];
            let k = tid.as_usize();
            if k >= self.tri.len() || self.tri[k] != cur {
                let mut v = vec![k + 1];
                v.extend(cur);
                ch.push(json::ids(&v));
                if k >= self.tri.len() {
                    self.tri.push(cur);
                } else {
                    self.tri[k] = cur;
                }
            }
        }
        let f: Vec<(usize, usize)> = s
            .advancing_front
            .iter()
            .map(|n| (json::one_based(n.point_id().as_usize()), n.triangle.map(|t| if t.invalid() { NO_TRIANGLE } else { id(t) }).unwrap_or(0)))
            .collect();
        let fs = if f != self.front {
            self.front = f;
            let v: Vec<String> = self.front.iter().map(|x| format!("[{},{}]", x.0, x.1 as isize)).collect();
            json::list(&v)
        } else {
            "[]".into()
        };
        if self.part.is_none() {
            self.watch.event(name, a, b, &self.tri, &self.front);
        }
        let x: String = match self.obs {
            #[cfg(feature = "ask")]
            19 => self.builtin(s),
            #[cfg(feature = "ask")]
            20 => self.nodes(name, s),
            #[cfg(feature = "query")]
            22 => self.triangles(s),
            _ => "0".into(),
        };
        self.ev.push(format!(
            "{{\"e\":\"{}\",\"a\":{},\"b\":{},\"c\":{},\"f\":{},\"q\":{},\"x\":{}}}",
            name,
            a,
            b,
            json::list(&ch),
            fs,
            if q.is_empty() { "[]" } else { &q },
            x
        ));
    }

    /// Answers of the advancing front's look-ups, for some of the input points and one other position,
    /// others every time: [position, locate_node, next of it, prev of it, get_node]
    fn query(&mut self, s: &Sweeper, some: usize) -> String {
        let some = self.nq.min(some);
        // the front as its iterator shows it, by x then y
        let f: Vec<usize> = s.advancing_front.iter().map(|n| n.point_id().as_usize() + 1).collect();
        // what has just left it is worth asking for
        let mut at: Vec<(f64, f64)> =
            self.front.iter().filter(|n| !f.contains(&n.0) && n.0 <= self.points.len()).map(|n| self.points[n.0 - 1]).take(2).collect();
        for j in 0..some {
            at.push(self.points[(self.turn + j * self.nq / some) % self.nq]);
        }
        let (h, t) = (self.points[self.nq], self.points[self.nq + 1]);
        let w = t.0 - h.0;
        let p = self.points[self.turn % self.nq];
        let r = self.points[(self.turn * 7 + 3) % self.nq];
        let other = match self.turn % 9 {
            0 => h,
            1 => (h.0 - w, p.1),
            2 => t,
            3 => (h.0, h.1 - w),
            4 => (t.0 + w, p.1),
            5 => (t.0, t.1 + w),
            6 => (p.0, r.1),
            7 => (h.0, h.1 + w),
            _ => (p.0 / 2. + r.0 / 2., r.1),
        };
        let other = ((other.0 as Float) as f64, (other.1 as Float) as f64);
        if some > 1 && other.0.is_finite() && other.1.is_finite() {
            at.push(other);
        }
        let mut v = vec![];
        for q in at {
            let p = Point::new(q.0 as Float, q.1 as Float);
            let n = s.advancing_front.locate_node(p);
            let g = s.advancing_front.get_node(p);
            let (mut a, mut b, mut c) = (0, 0, 0);
            if let Some(n) = n {
                a = n.point_id().as_usize() + 1;
                let nid = n.get_node_id();
                b = one(s.advancing_front.locate_next_node(nid).map(|m| m.point_id()));
                c = one(s.advancing_front.locate_prev_node(nid).map(|m| m.point_id()));
            }
            let g = one(g.map(|m| m.point_id()));
            let pos = |id: usize| self.points[id - 1];
            let k = f.iter().rposition(|&id| pos(id) <= q);
            let at = |k: usize| f.get(k).cloned().unwrap_or(0);
            let want = k.map(|k| (f[k], at(k + 1), if k > 0 { f[k - 1] } else { 0 })).unwrap_or((0, 0, 0));
            let here = f.iter().cloned().find(|&id| pos(id) == q).unwrap_or(0);
            if want != (a, b, c) || g != here {
                self.watch.found.get_or_insert("lookup");
            }
            v.push(format!("[{},{},{},{},{}]", json::xy(q.0, q.1), a, b, c, g));
        }
        self.turn += 1;
        json::list(&v)
    }

    /// What the library itself says about its mesh
    #[cfg(feature = "ask")]
    fn builtin(&mut self, s: &Sweeper) -> String {
        let v: Vec<(usize, usize)> =
            s.illegal_triangles().iter().map(|(t, o)| (json::one_based(t.as_usize()), json::one_based(o.as_usize()))).collect();
        let ok = s.verify_triangles();
        if self.watch.builtin(&self.tri, &v, ok) {
            self.watch.found.get_or_insert("builtin");
        }
        let v: Vec<String> = v.iter().map(|p| format!("[{},{}]", p.0, p.1)).collect();
        format!("{{\"v\":{},\"i\":{}}}", ok, json::list(&v))
    }

    /// Handles of nodes taken earlier, and the nodes by number
    #[cfg(feature = "ask")]
    fn nodes(&mut self, name: &str, s: &Sweeper) -> String {
        let f = &s.advancing_front;
        let now: Vec<usize> = f.iter().map(|n| n.point_id().as_usize() + 1).collect();
        let pos = |id: usize| self.points[id - 1];
        let mut hs = vec![];
        let len = self.handles.len();
        let mut odd = false;
        for j in 0..len.min(8) {
            let (p, h) = &self.handles[(self.turn * 5 + j * len / len.min(8)) % len];
            let [i, g, n, b] = h(s);
            let want_n = now.iter().cloned().find(|&id| pos(id) > pos(*p)).unwrap_or(0);
            let want_b = now.iter().cloned().rev().find(|&id| pos(id) < pos(*p)).unwrap_or(0);
            odd |= i != *p || g != if now.contains(p) { *p } else { 0 } || n != want_n || b != want_b;
            hs.push(json::ids(&[*p, i, g, n, b]));
        }
        let mut ns = vec![];
        for k in [self.turn % (now.len() + 2), now.len() - 1, (self.turn * 3 + 1) % now.len()] {
            ns.push(match f.nth(k) {
                None => {
                    odd |= k < now.len();
                    format!("[{},0,0,0,[0,0]]", k + 1)
                }
                Some(m) => {
                    let (i, p) = (m.point_id().as_usize() + 1, m.point());
                    let n = one(m.next().map(|x| x.point_id()));
                    let b = one(m.prev().map(|x| x.point_id()));
                    odd |= now.get(k) != Some(&i)
                        || n != now.get(k + 1).cloned().unwrap_or(0)
                        || b != (if k > 0 { now[k - 1] } else { 0 })
                        || (p.x as f64, p.y as f64) != pos(i);
                    format!("[{},{},{},{},{}]", k + 1, i, n, b, json::xy(p.x as f64, p.y as f64))
                }
            });
        }
        if odd {
            self.watch.found.get_or_insert("handle");
        }
        self.turn += 1;
        if name != "rotate" {
            self.keep(&now, s);
        }
        format!("{{\"h\":{},\"n\":{}}}", json::list(&hs), json::list(&ns))
    }

    /// keep some of the present nodes
    #[cfg(feature = "ask")]
    fn keep(&mut self, now: &[usize], s: &Sweeper) {
        let f = &s.advancing_front;
        let pos = |id: usize| self.points[id - 1];
        for k in [self.turn % now.len(), (self.turn * 7) % now.len()] {
            let m = match self.turn % 3 {
                0 => f.nth(k),
                1 => f.iter().nth(k),
                _ => f.get_node(Point::new(pos(now[k]).0 as Float, pos(now[k]).1 as Float)),
            };
            if let Some(m) = m {
                let id = m.get_node_id();
                let h: Handle = Box::new(move |s| {
                    let f = &s.advancing_front;
                    [
                        one(Some(id.point_id())),
                        one(f.get_node_with_id(id).map(|m| m.point_id())),
                        one(f.locate_next_node(id).map(|m| m.point_id())),
                        one(f.locate_prev_node(id).map(|m| m.point_id())),
                    ]
                });
                if self.handles.len() < 60 {
                    self.handles.push((now[k], h));
                } else {
                    let at = self.turn * 11 % 60;
                    self.handles[at] = (now[k], h);
                }
            }
        }
    }

    /// Queries on single triangles and pairs of them
    #[cfg(feature = "query")]
    fn triangles(&mut self, s: &Sweeper) -> String {
        let n = self.tri.len();
        let all: Vec<_> = s.triangles.iter().collect();
        let nid = |t: TriangleId| if t.invalid() { 0 } else { json::one_based(t.as_usize()) };
        let (mut ts, mut es, mut cs, mut strange) = (vec![], vec![], vec![], false);
        for j in 0..n.min(3) {
            let a = (self.turn * 3 + j * n / n.min(3)) % n;
            let (_, t) = &all[a];
            for k in 0..3 {
                let p = t.points[k];
                let row = self.tri[a];
                let (after, before) = ((k + 1) % 3, (k + 2) % 3);
                let v = [
                    a + 1,
                    p.as_usize() + 1,
                    t.point_index(p).map(|i| i + 1).unwrap_or(0),
                    t.point_ccw(p).as_usize() + 1,
                    t.point_cw(p).as_usize() + 1,
                    nid(t.neighbor_across(p)),
                    nid(t.neighbor_ccw(p)),
                    nid(t.neighbor_cw(p)),
                    t.constrained_edge_cw(p) as usize,
                ];
                let c = row[6] >> after & 1;
                let want = [a + 1, row[k], k + 1, row[after], row[before], row[3 + k], row[3 + before], row[3 + after], c];
                strange |= v != want;
                ts.push(json::ids(&v));
            }
            // any two points: a side, a corner twice, or none
            let away = (0..s.points.len()).map(|k| (k + self.turn) % s.points.len()).find(|k| !self.tri[a][..3].contains(&(k + 1)));
            let mut four: Vec<PointId> = t.points.to_vec();
            four.extend(s.points.iter().map(|(id, ..)| id).find(|id| Some(id.as_usize()) == away));
            for (x, &p) in four.iter().enumerate() {
                for (y, &q) in four.iter().enumerate() {
                    let side = t.edge_index(p, q).map(|i| i + 1).unwrap_or(0);
                    let corner = t.point_index(q).map(|i| i + 1).unwrap_or(0);
                    strange |= side != if x == y || x > 2 || y > 2 { 0 } else { 4 - x - y };
                    strange |= corner != if y > 2 { 0 } else { y + 1 };
                    cs.push(json::ids(&[a + 1, p.as_usize() + 1, q.as_usize() + 1, side, corner]));
                }
            }
            let mut others = vec![(self.turn * 5 + j) % n];
            others.extend(t.neighbors.iter().filter(|b| !b.invalid()).map(|b| b.as_usize()));
            for b in others {
                if b == a || b >= n {
                    continue;
                }
                let (bid, o) = &all[b];
                let (x, y) = t.common_edge_index(o).map(|(x, y)| (x + 1, y + 1)).unwrap_or((0, 0));
                let mut v = vec![a + 1, b + 1, x, y, 0, 0, 0];
                if x > 0 && x < 4 {
                    let p = t.points[x - 1];
                    v[4] = o.opposite_point(t, p).as_usize() + 1;
                    v[5] = t.edge_index(t.point_cw(p), t.point_ccw(p)).map(|i| i + 1).unwrap_or(0);
                    if t.neighbors[x - 1] == *bid {
                        v[6] = t.neighbor_index(*bid) + 1;
                    }
                }
                let side = |r: &[usize; 8], k: usize| (r[(k + 1) % 3], r[(k + 2) % 3]);
                let (ra, rb) = (&self.tri[a], &self.tri[b]);
                let common = (0..9).map(|m| (m / 3, m % 3)).find(|m| {
                    let (x, y) = side(ra, m.0);
                    side(rb, m.1) == (y, x)
                });
                strange |= match common {
                    None => v[2] != 0,
                    Some((x, y)) => {
                        let back = if ra[3 + x] == b + 1 { x + 1 } else { 0 };
                        v[2..] != [x + 1, y + 1, rb[y], x + 1, back]
                    }
                };
                es.push(json::ids(&v));
            }
        }
        self.turn += 1;
        let last = all.len();
        let mut odd = s.triangles.len() != last || s.triangles.get(TriangleId::INVALID).is_some();
        for past in [last, last + 1 + self.turn % 7, last + (1 << 20), usize::MAX - 1] {
            odd |= TriangleId::from_index(past).try_get(s.triangles).is_some();
        }
        for (k, (id, t)) in all.iter().enumerate() {
            odd |= id.as_usize() != k || id.invalid() || id.try_get(s.triangles).map(|x| x.points) != Some(t.points);
        }
        if odd || strange {
            self.watch.found.get_or_insert("query");
        }
        format!("{{\"t\":{},\"e\":{},\"c\":{},\"o\":{}}}", json::list(&ts), json::list(&es), json::list(&cs), odd)
    }
}

fn one(p: Option<PointId>) -> usize {
    p.map(|p| json::one_based(p.as_usize())).unwrap_or(0)
}

impl Observer for Recorder {
    fn enter_point_event(&mut self, p: PointId, s: &Sweeper) {
        if self.skip(false, s) {
            self.after("enter", 0, 0);
            return;
        }
        self.snap("enter", json::one_based(p.as_usize()), 0, String::new(), s);
    }
    fn exit_point_event(&mut self, p: PointId, s: &Sweeper) {
        if self.skip(true, s) {
            return;
        }
        let q = self.query(s, if self.part.is_some() { 40 } else { 5 });
        self.snap("exit", json::one_based(p.as_usize()), 0, q, s);
    }
    fn edge_event(&mut self, e: Edge, s: &Sweeper) {
        if self.skip(false, s) {
            self.after("edge", json::one_based(e.p.as_usize()), json::one_based(e.q.as_usize()));
            return;
        }
        let q = self.query(s, if self.part.is_some() { 40 } else { 5 });
        self.snap("edge", json::one_based(e.p.as_usize()), json::one_based(e.q.as_usize()), q, s);
    }
    fn sweep_done(&mut self, s: &Sweeper) {
        if self.skip(false, s) {
            self.after("done", 0, 0);
            return;
        }
        self.snap("done", 0, 0, String::new(), s);
    }
    fn finalized(&mut self, s: &Sweeper) {
        if self.part.is_some() && !self.last {
            return;
        }
        self.snap("final", 0, 0, String::new(), s);
        self.result = s.result.iter().map(|t| json::one_based(t.as_usize())).collect();
    }
    fn will_legalize(&mut self, t: TriangleId, s: &Sweeper) {
        if self.skip(false, s) {
            return;
        }
        let q = self.query(s, 1);
        self.snap("will", json::one_based(t.as_usize()), 0, q, s);
    }
    fn legalize_step(&mut self, t: TriangleId, s: &Sweeper) {
        if self.skip(false, s) {
            return;
        }
        self.snap("step", json::one_based(t.as_usize()), 0, String::new(), s);
    }
    fn triangle_rotated(&mut self, t: TriangleId, o: TriangleId, s: &Sweeper) {
        if self.skip(false, s) {
            return;
        }
        self.snap("rotate", json::one_based(t.as_usize()), json::one_based(o.as_usize()), String::new(), s);
    }
    fn legalized(&mut self, t: TriangleId, s: &Sweeper) {
        if self.skip(false, s) {
            return;
        }
        let q = self.query(s, 1);
        self.snap("legal", json::one_based(t.as_usize()), 0, q, s);
    }
}
