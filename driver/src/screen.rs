//! A quick look at a result with 128 bit integers.  It only *orders* the executions (suspicious
//! ones are sent to TLC first and always); TLC judges them from the specification.
use crate::gen::Case;
use crate::geom::*;
use std::collections::{HashMap, HashSet};

pub fn look(c: &Case, ts: &[[usize; 3]]) -> Option<&'static str> {
    let pts = c.points();
    let mut e: HashMap<(usize, usize), usize> = HashMap::new();
    let mut used = HashSet::new();
    for t in ts {
        for &i in t {
            if i >= pts.len() {
                return Some("artificial");
            }
            used.insert(i);
        }
        if orient(pts[t[0]], pts[t[1]], pts[t[2]]) <= 0 {
            return Some("orientation");
        }
        for k in 0..3 {
            if e.insert((t[k], t[(k + 1) % 3]), t[(k + 2) % 3]).is_some() {
                return Some("overlap");
            }
        }
    }
    let mut bd: HashSet<(usize, usize)> = HashSet::new();
    let mut off = 0;
    for (k, l) in std::iter::once(&c.poly).chain(c.holes.iter()).enumerate() {
        let n = l.len();
        let fwd = (area2(l) > 0) == (k == 0);
        for i in 0..n {
            let (x, y) = (off + i, off + (i + 1) % n);
            bd.insert(if fwd { (x, y) } else { (y, x) });
        }
        off += n;
    }
    let mut un = 0;
    for k in e.keys() {
        if !e.contains_key(&(k.1, k.0)) {
            un += 1;
            if !bd.contains(k) {
                return Some("boundary");
            }
        }
    }
    if un != bd.len() {
        return Some("boundary");
    }
    for i in off..pts.len() {
        if c.in_region(pts[i]) != used.contains(&i) {
            return Some("vertices");
        }
    }
    for (k, &x) in &e {
        if k.0 < k.1 {
            if let Some(&y) = e.get(&(k.1, k.0)) {
                if incircle(pts[k.0], pts[k.1], pts[x], pts[y]) > 0 {
                    return Some("delaunay");
                }
            }
        }
    }
    None
}

/// no four cocircular points across an edge: the constrained Delaunay triangulation is unique
pub fn unique(c: &Case, ts: &[[usize; 3]]) -> bool {
    let pts = c.points();
    let mut e: HashMap<(usize, usize), usize> = HashMap::new();
    for t in ts {
        for k in 0..3 {
            e.insert((t[k], t[(k + 1) % 3]), t[(k + 2) % 3]);
        }
    }
    e.iter().all(|(k, &x)| match e.get(&(k.1, k.0)) {
        Some(&y) => incircle(pts[k.0], pts[k.1], pts[x], pts[y]) != 0,
        None => true,
    })
}
