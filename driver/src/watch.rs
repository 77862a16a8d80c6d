//! A quick look at the sweep while it runs.  Like `screen`, it decides nothing: it marks the
//! executions that TLC has to see first.
use crate::gen::Case;
use crate::geom::*;
use std::collections::{HashMap, HashSet};

pub struct Watch {
    pts: Vec<P>,
    n: usize,
    cons: HashSet<(usize, usize)>,
    expected: HashSet<(usize, usize)>,
    order: Vec<usize>,
    at: usize,
    todo: HashSet<(usize, usize)>,
    legalizing: bool,
    rotated: bool,
    last: String,
    ntri: usize,
    pub found: Option<&'static str>,
}

fn und(a: usize, b: usize) -> (usize, usize) {
    (a.min(b), a.max(b))
}

impl Watch {
    pub fn new(c: &Case) -> Self {
        let pts = c.points();
        let mut cons = HashSet::new();
        for l in c.loops() {
            for i in 0..l.len() {
                cons.insert(und(l[i] + 1, l[(i + 1) % l.len()] + 1));
            }
        }
        let mut order: Vec<usize> = (1..=pts.len()).collect();
        order.sort_by_key(|&i| (pts[i - 1].1, pts[i - 1].0));
        Watch {
            n: pts.len(),
            pts,
            cons,
            expected: HashSet::new(),
            order,
            at: 0,
            todo: HashSet::new(),
            legalizing: false,
            rotated: false,
            last: String::new(),
            ntri: 1,
            found: None,
        }
    }

    fn set(&mut self, x: &'static str) {
        if self.found.is_none() {
            self.found = Some(x)
        }
    }

    fn or(&self, a: usize, b: usize, c: usize) -> Option<i128> {
        if a > self.n || b > self.n || c > self.n {
            None
        } else {
            Some(orient(self.pts[a - 1], self.pts[b - 1], self.pts[c - 1]))
        }
    }

    fn illegal(&self, t: &[usize; 8], d: usize) -> bool {
        if d > self.n || t[0] > self.n || t[1] > self.n || t[2] > self.n {
            return false;
        }
        let p = |i: usize| self.pts[i - 1];
        incircle(p(t[0]), p(t[1]), p(t[2]), p(d)) > 0
    }

    pub fn event(&mut self, e: &str, a: usize, b: usize, tri: &[[usize; 8]], front: &[(usize, usize)]) {
        if self.found.is_some() {
            return;
        }
        // protocol and order
        match e {
            "enter" => {
                if self.at == 0 {
                    self.at = 1;
                }
                if self.legalizing || !self.todo.is_empty() || self.order.get(self.at) != Some(&a) {
                    return self.set("order");
                }
                self.at += 1;
            }
            "exit" => {
                if self.order.get(self.at - 1) != Some(&a) || self.legalizing || self.last == "enter" {
                    return self.set("order");
                }
                let pos: HashSet<usize> = self.order[..self.at].iter().cloned().collect();
                self.todo = self
                    .cons
                    .iter()
                    .cloned()
                    .filter(|c| (c.0 == a && pos.contains(&c.1)) || (c.1 == a && pos.contains(&c.0)))
                    .collect();
            }
            "edge" => {
                if self.legalizing || !self.todo.remove(&und(a, b)) || self.order.get(self.at - 1) != Some(&b) {
                    return self.set("order");
                }
                self.expected.insert(und(a, b));
            }
            "will" => {
                if self.legalizing {
                    return self.set("proto");
                }
                self.legalizing = true
            }
            "rotate" | "step" | "legal" => {
                if !self.legalizing || (self.rotated && e != "step") {
                    return self.set("proto");
                }
                if e == "legal" {
                    self.legalizing = false
                }
            }
            "done" => {
                if self.legalizing || self.at != self.order.len().max(1) || !self.todo.is_empty() {
                    return self.set("order");
                }
            }
            _ => {
                if self.last != "done" {
                    return self.set("proto");
                }
            }
        }
        self.rotated = e == "rotate";
        if e == "rotate" {
            let (t, o) = (tri.get(a.wrapping_sub(1)), tri.get(b.wrapping_sub(1)));
            match (t, o) {
                (Some(t), Some(o)) => {
                    let d: Vec<usize> = o[..3].iter().cloned().filter(|x| !t[..3].contains(x)).collect();
                    if d.len() != 1 || (d[0] <= self.n && t[..3].iter().all(|&x| x <= self.n) && !self.illegal(t, d[0])) {
                        return self.set("rotation");
                    }
                }
                _ => return self.set("rotation"),
            }
        }
        let grown = tri.len() - self.ntri.min(tri.len());
        if grown > 1 || (grown == 1 && e != "will") || tri.len() < self.ntri {
            self.set("growth");
        }
        self.ntri = tri.len();
        self.last = e.to_string();
        if e == "rotate" || e == "step" {
            return;
        }
        // the mesh
        let quiet = e != "will";
        let mut edges: HashMap<(usize, usize), usize> = HashMap::with_capacity(tri.len() * 3);
        for (k, t) in tri.iter().enumerate() {
            if let Some(o) = self.or(t[0], t[1], t[2]) {
                if o < 0 {
                    return self.set("inverted");
                }
            }
            for i in 0..3 {
                if edges.insert((t[(i + 1) % 3], t[(i + 2) % 3]), k).is_some() {
                    return self.set("overlap");
                }
            }
        }
        let mut marks = HashSet::new();
        for (k, t) in tri.iter().enumerate() {
            for i in 0..3 {
                let (x, y) = (t[(i + 1) % 3], t[(i + 2) % 3]);
                let c = t[6] >> i & 1;
                if c == 1 {
                    marks.insert(und(x, y));
                }
                let other = edges.get(&(y, x)).map(|&j| j + 1).unwrap_or(0);
                if t[3 + i] != other && (quiet || t[3 + i] != 0) {
                    return self.set("link");
                }
                if other != 0 && quiet {
                    let o = &tri[other - 1];
                    let m = (0..3).find(|&m| o[(m + 1) % 3] == y && o[(m + 2) % 3] == x).unwrap();
                    if o[6] >> m & 1 != c {
                        return self.set("marks");
                    }
                    let check = t[7] >> i & 1 == 1 || (c == 0 && (e == "exit" || e == "edge"));
                    if check && other > k && self.illegal(t, o[m]) {
                        return self.set("legal");
                    }
                }
            }
        }
        if quiet && e != "legal" && marks != self.expected {
            return self.set("constraints");
        }
        // the front
        if front.len() < 3 || front[0].0 != self.n + 1 || front[front.len() - 1].0 != self.n + 2 {
            return self.set("front");
        }
        for w in 0..front.len() - 1 {
            let (p, q) = (front[w].0, front[w + 1].0);
            if p <= self.n && q <= self.n {
                let (p, q) = (self.pts[p - 1], self.pts[q - 1]);
                if p >= q || (e == "exit" && p.0 == q.0) {
                    return self.set("front");
                }
            }
            let k = front[w].1;
            if k == 0 || k > tri.len() {
                return self.set("front");
            }
            if quiet && edges.get(&(q, p)) != Some(&(k - 1)) {
                return self.set("front");
            }
        }
    }

    #[cfg(feature = "ask")]
    /// the library's own list of illegal pairs is not what it should be
    pub fn builtin(&self, tri: &[[usize; 8]], pairs: &[(usize, usize)], ok: bool) -> bool {
        if ok != pairs.is_empty() {
            return true;
        }
        let given: HashSet<(usize, usize)> = pairs.iter().cloned().collect();
        for (k, t) in tri.iter().enumerate() {
            for i in 0..3 {
                let b = t[3 + i];
                if b == 0 || b > tri.len() {
                    continue;
                }
                let (x, y) = (t[(i + 1) % 3], t[(i + 2) % 3]);
                let o = &tri[b - 1];
                let m = match (0..3).find(|&m| o[(m + 1) % 3] == y && o[(m + 2) % 3] == x) {
                    Some(m) => m,
                    None => continue,
                };
                if t[..3].iter().any(|&p| p > self.n) || o[m] > self.n {
                    continue;
                }
                let want = o[6] >> m & 1 == 0 && self.illegal(t, o[m]);
                if want != given.contains(&(k + 1, b)) {
                    return true;
                }
            }
        }
        false
    }
}
