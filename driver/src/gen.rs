//! Generators of valid inputs: simple polyline, disjoint simple holes inside of it, no duplicate
//! points, no point in the interior of a constraint edge.  TLC re-checks that (ValidInput).
use crate::geom::*;
use std::collections::HashSet;

#[derive(Debug, Clone, Default)]
pub struct Case {
    pub poly: Vec<P>,
    pub holes: Vec<Vec<P>>,
    pub st: Vec<P>,
    /// coordinates are multiplied by 2^exp before they are handed over
    pub exp: i32,
    pub kind: usize,
}

impl Case {
    pub fn points(&self) -> Vec<P> {
        self.poly
            .iter()
            .chain(self.holes.iter().flatten())
            .chain(self.st.iter())
            .cloned()
            .collect()
    }
    pub fn len(&self) -> usize {
        self.poly.len() + self.holes.iter().map(|h| h.len()).sum::<usize>() + self.st.len()
    }
    pub fn loops(&self) -> Vec<Vec<usize>> {
        let mut off = 0;
        let mut out = vec![];
        for l in std::iter::once(&self.poly).chain(self.holes.iter()) {
            out.push((off..off + l.len()).collect());
            off += l.len();
        }
        out
    }
    pub fn valid(&self) -> bool {
        let mut seen = HashSet::new();
        if !self.points().into_iter().all(|p| seen.insert(p)) {
            return false;
        }
        if !simple(&self.poly) || !self.holes.iter().all(|h| simple(h)) {
            return false;
        }
        for (i, h) in self.holes.iter().enumerate() {
            if !hole_ok(&self.poly, &self.holes[..i], h) {
                return false;
            }
        }
        self.st.iter().all(|&p| self.off_edges(p))
    }
    pub fn off_edges(&self, p: P) -> bool {
        contains(&self.poly, p) != 0 && self.holes.iter().all(|h| contains(h, p) != 0)
    }
    pub fn in_region(&self, p: P) -> bool {
        contains(&self.poly, p) == 1 && self.holes.iter().all(|h| contains(h, p) == -1)
    }
    pub fn map(&self, f: impl Fn(P) -> P) -> Case {
        let g = |v: &Vec<P>| v.iter().map(|&p| f(p)).collect::<Vec<_>>();
        Case {
            poly: g(&self.poly),
            holes: self.holes.iter().map(g).collect(),
            st: g(&self.st),
            exp: self.exp,
            kind: self.kind,
        }
    }
    pub fn max_abs(&self) -> i64 {
        self.points()
            .iter()
            .map(|p| p.0.abs().max(p.1.abs()))
            .max()
            .unwrap_or(0)
    }
}

fn hole_ok(poly: &[P], holes: &[Vec<P>], h: &[P]) -> bool {
    if !h.iter().all(|&p| contains(poly, p) == 1) {
        return false;
    }
    for i in 0..h.len() {
        let (a, b) = (h[i], h[(i + 1) % h.len()]);
        for q in std::iter::once(poly).chain(holes.iter().map(|x| &x[..])) {
            for j in 0..q.len() {
                if touch(a, b, q[j], q[(j + 1) % q.len()]) {
                    return false;
                }
            }
        }
    }
    holes
        .iter()
        .all(|q| contains(q, h[0]) == -1 && contains(h, q[0]) == -1)
}

/// random simple polygon with about n corners in the box
fn rnd_poly(r: &mut Rng, n: usize, x0: i64, y0: i64, x1: i64, y1: i64) -> Option<Vec<P>> {
    let mut v: Vec<P> = vec![];
    for _ in 0..50 {
        v = (0..3).map(|_| (r.range(x0, x1), r.range(y0, y1))).collect();
        if simple(&v) {
            break;
        }
    }
    if !simple(&v) {
        return None;
    }
    let mut tries = 0;
    while v.len() < n && tries < n * 20 {
        tries += 1;
        let p = (r.range(x0, x1), r.range(y0, y1));
        let i = r.below(v.len() as u64) as usize;
        // replacing the edge a b by a p b keeps the polygon simple iff nothing is touched
        let m = v.len();
        let (a, b) = (v[i], v[(i + 1) % m]);
        let mut ok = p != a && p != b && !onseg(a, b, p);
        let mut j = 0;
        while ok && j < m {
            let (c, d) = (v[j], v[(j + 1) % m]);
            if j != i {
                let t1 = if d == a { onseg(a, p, c) || onseg(c, a, p) } else { touch(a, p, c, d) };
                let t2 = if c == b { onseg(p, b, d) || onseg(b, d, p) } else { touch(p, b, c, d) };
                ok = !t1 && !t2;
            }
            j += 1;
        }
        if ok {
            v.insert(i + 1, p);
        }
    }
    Some(v)
}

fn bbox(v: &[P]) -> (i64, i64, i64, i64) {
    (
        v.iter().map(|p| p.0).min().unwrap(),
        v.iter().map(|p| p.1).min().unwrap(),
        v.iter().map(|p| p.0).max().unwrap(),
        v.iter().map(|p| p.1).max().unwrap(),
    )
}

fn add_holes(r: &mut Rng, c: &mut Case, nh: usize, maxk: usize) {
    let (x0, y0, x1, y1) = bbox(&c.poly);
    let w = (x1 - x0).max(y1 - y0);
    for _ in 0..nh {
        for _ in 0..12 {
            let s = (w / (2 + r.below(8) as i64)).max(2);
            let cx = r.range(x0, x1);
            let cy = r.range(y0, y1);
            let k = r.us(3, maxk);
            if let Some(h) = rnd_poly(r, k, cx, cy, cx + s, cy + s) {
                if hole_ok(&c.poly, &c.holes, &h) {
                    c.holes.push(h);
                    break;
                }
            }
        }
    }
}

fn add_steiner(r: &mut Rng, c: &mut Case, ns: usize, exterior: bool) {
    let (x0, y0, x1, y1) = bbox(&c.poly);
    let m = if exterior { ((x1 - x0).max(y1 - y0) / 6).max(1) } else { 0 };
    let mut used: HashSet<P> = c.points().into_iter().collect();
    // several layouts: uniform, on one line, in a cluster, lattice
    let layout = r.below(5);
    let (ax, ay) = (r.range(x0, x1), r.range(y0, y1));
    let (dx, dy) = (r.range(-3, 3), r.range(-3, 3));
    for i in 0..ns {
        for _ in 0..6 {
            let p = match layout {
                2 if i > 0 => (ax + dx * i as i64, ay + dy * i as i64),
                3 => (ax + r.range(-2, 2), ay + r.range(-2, 2)),
                _ => (r.range(x0 - m, x1 + m), r.range(y0 - m, y1 + m)),
            };
            if used.contains(&p) || !c.off_edges(p) || (!exterior && !c.in_region(p)) {
                continue;
            }
            used.insert(p);
            c.st.push(p);
            break;
        }
    }
}

/// teeth on one or both sides
fn comb(r: &mut Rng, k: usize, w: i64) -> Vec<P> {
    let step = r.range(1, 4);
    let both = r.chance(1, 2);
    let h = w;
    let mut v = vec![];
    let slope = r.range(-1, 1);
    // lower chain left to right, upper chain right to left
    for i in 0..=2 * k {
        let x = i as i64 * step;
        let y = if both && i % 2 == 1 { r.range(h / 4, h / 2) } else { r.range(0, h / 4) };
        v.push((x, y + slope * x));
    }
    for i in (0..=2 * k).rev() {
        let x = i as i64 * step;
        let y = if i % 2 == 1 { h + r.range(1, h) } else { h / 2 + 1 + r.range(0, h / 4) };
        v.push((x, y + slope * x));
    }
    v
}

fn star(r: &mut Rng, k: usize, w: i64) -> Vec<P> {
    let mut v: Vec<P> = (0..k)
        .map(|i| {
            let a = (i as f64 + (r.below(900) as f64) / 1000.) / k as f64 * std::f64::consts::TAU;
            let d = if r.chance(1, 2) { w as f64 } else { w as f64 * (0.2 + r.below(80) as f64 / 100.) };
            ((a.cos() * d) as i64, (a.sin() * d) as i64)
        })
        .collect();
    v.dedup();
    v
}

/// histogram: orthogonal polygon with many collinear and equal coordinates
fn histogram(r: &mut Rng, k: usize, w: i64) -> Vec<P> {
    let mut v = vec![(0, 0)];
    let mut x = 0;
    let mut up = vec![];
    let mut last = 0;
    for _ in 0..k {
        let mut h = r.range(1, w);
        if h == last {
            h += 1;
        }
        let nx = x + r.range(1, 3);
        up.push((x, h));
        up.push((nx, h));
        x = nx;
        last = h;
    }
    // optional corners along the straight bottom
    for bx in 1..x {
        if r.chance(1, 4) {
            v.push((bx, 0));
        }
    }
    v.push((x, 0));
    up.reverse();
    v.extend(up);
    v
}

fn spiral(r: &mut Rng, turns: usize, pitch: i64) -> Vec<P> {
    // rectangular spiral corridor with some slanted corners
    let mut outer = vec![];
    let mut inner = vec![];
    let (mut x0, mut y0, mut x1, mut y1) = (0i64, 0i64, 4 * pitch * turns as i64, 4 * pitch * turns as i64);
    let j = |r: &mut Rng| if pitch > 4 { r.range(-(pitch / 5), pitch / 5) } else { 0 };
    outer.push((x0, y0));
    inner.push((x0, y0 + pitch));
    for _ in 0..turns {
        outer.push((x1 + j(r), y0 + j(r)));
        inner.push((x1 - pitch + j(r), y0 + pitch + j(r)));
        outer.push((x1 + j(r), y1 + j(r)));
        inner.push((x1 - pitch + j(r), y1 - pitch + j(r)));
        x0 += if outer.len() > 4 { 2 * pitch } else { 0 };
        outer.push((x0 + j(r), y1 + j(r)));
        inner.push((x0 + pitch + j(r), y1 - pitch + j(r)));
        y0 += 2 * pitch;
        outer.push((x0 + j(r), y0 + j(r)));
        inner.push((x0 + pitch + j(r), y0 + pitch + j(r)));
        x1 -= 2 * pitch;
        y1 -= 2 * pitch;
    }
    inner.reverse();
    outer.extend(inner);
    outer
}

fn convex(r: &mut Rng, k: usize, w: i64) -> Vec<P> {
    // on a parabola, optionally closed by a second one
    let mut v: Vec<P> = vec![];
    let m = k as i64;
    match r.below(3) {
        0 => {
            for i in -m / 2..=m / 2 {
                v.push((i, i * i));
            }
        }
        1 => {
            for i in -m / 2..=m / 2 {
                v.push((i, i * i - m * m));
            }
            for i in (-m / 2 + 1..m / 2).rev() {
                v.push((i, m * m - i * i));
            }
        }
        _ => {
            for i in 0..k {
                let a = i as f64 / k as f64 * std::f64::consts::TAU;
                v.push(((a.cos() * w as f64).round() as i64, (a.sin() * w as f64).round() as i64));
            }
            v.dedup();
        }
    }
    v
}

/// x-monotone mountain: one long edge over (or under) a ragged chain
fn mountain(r: &mut Rng, k: usize, w: i64) -> Vec<P> {
    let mut v: Vec<P> = vec![];
    let mut x = 0;
    let down = r.chance(1, 2);
    let tilt = r.range(-3, 3);
    v.push((0, 0));
    for _ in 0..k {
        x += r.range(1, 3);
        let h = r.range(1, w);
        v.push((x, tilt * x + if down { -h } else { h }));
    }
    x += r.range(1, 3);
    v.push((x, tilt * x));
    v
}

/// closed smooth curve around the origin, as drawn by hand: many short segments
fn curve(r: &mut Rng, n: usize, w: i64) -> Vec<P> {
    let m = r.us(1, 5);
    let waves: Vec<(f64, f64, f64)> = (0..m)
        .map(|_| (r.us(1, 7) as f64, r.range(0, 628) as f64 / 100., r.range(0, 100) as f64 / 100. / m as f64 * 0.9))
        .collect();
    let mut v: Vec<P> = vec![];
    for i in 0..n {
        let t = i as f64 / n as f64 * std::f64::consts::TAU;
        let rad = w as f64 * (1. + waves.iter().map(|(k, p, a)| a * (k * t + p).sin()).sum::<f64>());
        let p = ((rad * t.cos()).round() as i64, (rad * t.sin()).round() as i64);
        if v.last() != Some(&p) && v.first() != Some(&p) {
            v.push(p)
        }
    }
    v
}

/// a part of a drawing, reduced to about n points
fn drawing(r: &mut Rng, n: usize) -> Option<Vec<P>> {
    let text = r.pick(&[include_str!("../data/bird.dat"), include_str!("../data/heron.dat")]);
    let w = r.pick(&[2., 10., 100., 1000.]);
    let all: Vec<P> = text
        .lines()
        .filter_map(|l| {
            let mut t = l.split_whitespace().map(|t| t.parse::<f64>().unwrap());
            Some(((t.next()? * w).round() as i64, (t.next()? * w).round() as i64))
        })
        .collect();
    let m = all.len();
    let len = if r.chance(1, 2) { m } else { r.us(3, m) };
    let step = (len / n).max(1);
    let from = r.us(0, m - 1);
    let mut v: Vec<P> = vec![];
    let mut used = HashSet::new();
    let mut i = 0;
    while i < len {
        let p = all[(from + i) % m];
        if used.insert(p) {
            v.push(p)
        }
        i += if step > 1 { r.us(1, 2 * step - 1) } else { 1 };
    }
    if v.len() >= 3 && simple(&v) {
        Some(v)
    } else {
        None
    }
}

/// coordinates of very different sizes: 0, then about 1, 2, 4, ... (or a slower growth), mirrored or not
fn spread(r: &mut Rng, n: usize, size: &Size) -> Vec<i64> {
    let most = if size.f32 { 1i64 << 18 } else { 1i64 << 40 };
    let (num, den) = r.pick(&[(2, 1), (3, 2), (8, 1), (100, 1)]);
    let mut v = vec![0i64];
    let mut step = 1i64;
    for _ in 0..n {
        let l = *v.last().unwrap();
        if step < most / 4 {
            step = (step * num / den).max(step + 1)
        }
        v.push(l + if r.chance(1, 4) { 1 } else { step });
    }
    let m = v[n];
    if m > most {
        // too far: begin again from the other side
        for x in v.iter_mut().skip(1) {
            *x = (*x / (m / most + 1)).max(1)
        }
        for i in 1..=n {
            v[i] = v[i].max(v[i - 1] + 1)
        }
    }
    if r.chance(1, 2) {
        let m = v[n];
        v = v.iter().rev().map(|x| m - x).collect();
    }
    v
}

pub const KINDS: usize = 20;

pub struct Size {
    /// scale of the number of points, 1 = tiny (TLC traces), 2 = small, 3 = medium, 4 = large
    pub level: usize,
    /// only coordinates that an f32 can represent
    pub f32: bool,
    /// also cases at other scales (coordinates are strings then)
    pub scaled: bool,
}

pub fn gen_case(seed: u64, idx: u64, size: &Size) -> Option<Case> {
    let mut r = Rng::new(seed.wrapping_mul(0x1000_0001_B3).wrapping_add(idx.wrapping_mul(0x9E37_79B9)) ^ (size.level as u64) << 60);
    let kind = r.pick(&[0, 0, 0, 1, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19]);
    for _ in 0..8 {
        if let Some(mut c) = attempt(&mut r, kind, size) {
            c.kind = kind;
            transform(&mut r, &mut c, size);
            if c.valid() {
                return Some(c);
            }
        }
    }
    None
}

fn attempt(r: &mut Rng, kind: usize, size: &Size) -> Option<Case> {
    let lv = size.level;
    let (n, nh, ns) = match lv {
        1 => (r.us(3, 8), r.us(0, 1), r.us(0, 4)),
        2 => (r.us(3, 12), r.us(0, 2), r.us(0, 8)),
        3 => (r.us(3, 30), r.us(0, 3), r.us(0, 25)),
        _ => (r.us(3, 120), r.us(0, 6), r.us(0, 150)),
    };
    let k = match lv {
        1 => r.us(1, 2),
        2 => r.us(1, 4),
        3 => r.us(1, 10),
        _ => r.us(1, 40),
    };
    let ns = if r.chance(1, 3) { 0 } else { ns };
    let nh = if r.chance(1, 2) { 0 } else { nh };
    let ext = r.chance(2, 3);
    let mut c = Case::default();
    match kind {
        0 => {
            let w = r.pick(&[3, 4, 5, 6, 7]) * if lv > 2 { 2 } else { 1 };
            c.poly = rnd_poly(r, n, 0, 0, w, w)?;
        }
        1 => {
            let w = r.range(6, 12) * if lv > 2 { 3 } else { 1 };
            let h = if r.chance(1, 3) { r.range(2, 6) } else { w };
            c.poly = rnd_poly(r, n, 0, 0, w, h)?;
        }
        2 => {
            let w = r.pick(&[20, 50, 100, 1000, 100000, 1000000, if size.f32 { 4000000 } else { 1 << 50 }]);
            let h = if r.chance(1, 3) { (w / 20).max(2) } else { w };
            c.poly = rnd_poly(r, n, 0, 0, w, h)?;
        }
        3 => {
            let w = r.pick(&[8, 20, 200]);
            c.poly = comb(r, k, w)
        }
        4 => {
            let w = r.pick(&[10, 100, 10000]);
            c.poly = star(r, n.max(4), w)
        }
        5 => {
            // lattice of Steiner points in a box: cocircular everywhere
            let w = match lv {
                1 => r.range(2, 3),
                2 => r.range(2, 4),
                3 => r.range(3, 8),
                _ => r.range(4, 16),
            };
            c.poly = vec![(0, 0), (2 * w, 0), (2 * w, 2 * w), (0, 2 * w)];
            if r.chance(1, 2) {
                c.holes.push(vec![(1, 1), (3, 1), (3, 3), (1, 3)]);
            }
            for x in -1..=w {
                for y in -1..=w {
                    let p = (2 * x, 2 * y);
                    if c.off_edges(p) && !c.points().contains(&p) && r.chance(4, 5) {
                        c.st.push(p)
                    }
                }
            }
            return Some(c);
        }
        6 => {
            let w = r.range(3, 9);
            c.poly = histogram(r, k + 1, w)
        }
        7 => {
            let w = r.pick(&[10, 1000]);
            c.poly = convex(r, n.max(4).min(if lv < 4 { 24 } else { 80 }), w)
        }
        8 => {
            // nearly collinear / cocircular: a small case blown up and jittered by one unit
            let w = r.range(3, 8);
            c.poly = rnd_poly(r, n, 0, 0, w, w)?;
            add_holes(r, &mut c, nh, 5);
            add_steiner(r, &mut c, ns, ext);
            let f = r.pick(&[1 << 8, 1 << 12, 1 << 20, 1i64 << 30, 1i64 << 40]);
            let f = if size.f32 { 1 << 12 } else { f };
            let j = r.pick(&[0, 1, 1, 2]);
            let mut q = c.clone();
            for v in std::iter::once(&mut q.poly).chain(q.holes.iter_mut()).chain(std::iter::once(&mut q.st)) {
                for p in v.iter_mut() {
                    *p = (p.0 * f + r.range(-j, j), p.1 * f + r.range(-j, j));
                }
            }
            return Some(q);
        }
        9 => {
            let t = if lv < 3 { 1 } else { r.us(1, 2 + k / 4) };
            let w = r.pick(&[3, 10, 40]);
            c.poly = spiral(r, t, w)
        }
        10 => {
            // exterior heavy: few corners, many points around, some far away
            let w = r.pick(&[6, 20, 1000]);
            let m = r.us(3, 6);
            c.poly = rnd_poly(r, m, 0, 0, w, w)?;
            let mut used: HashSet<P> = c.points().into_iter().collect();
            for _ in 0..ns.max(3) {
                let f = r.pick(&[1, 1, 2, 5]);
                let p = (r.range(-w * f, w + w * f), r.range(-w * f, w + w * f));
                if c.off_edges(p) && used.insert(p) {
                    c.st.push(p)
                }
            }
            return Some(c);
        }
        11 => {
            let w = r.pick(&[3, 10, 60]);
            c.poly = mountain(r, (n - 2).max(2), w)
        }
        13 => {
            let w = r.pick(&[6, 12, 40, 1000]);
            c.poly = curve(r, if lv < 3 { n.max(5) } else { 2 * n + 6 }, w);
            if !simple(&c.poly) {
                return None;
            }
            if r.chance(1, 3) {
                // the same curve as a hole, smaller
                let (f, g) = r.pick(&[(1, 2), (2, 3), (4, 5)]);
                let mut h: Vec<P> = c.poly.iter().map(|p| (p.0 * f / g, p.1 * f / g)).collect();
                h.dedup();
                if h.len() > 3 && h.first() == h.last() {
                    h.pop();
                }
                if h.len() >= 3 && simple(&h) && hole_ok(&c.poly, &[], &h) {
                    c.holes.push(h)
                }
            }
        }
        14 => c.poly = drawing(r, if lv < 3 { n.max(6) } else { 3 * n })?,
        15 => {
            // a box with Steiner points along curves: valleys and hills of the front
            let w = r.pick(&[10, 30, 300]);
            c.poly = vec![(-2 * w, -2 * w), (2 * w, -2 * w), (2 * w, 2 * w), (-2 * w, 2 * w)];
            let mut used: HashSet<P> = c.points().into_iter().collect();
            for _ in 0..r.us(1, 2) {
                let (dx, dy) = (r.range(-w / 3, w / 3), r.range(-w / 3, w / 3));
                for p in curve(r, ns.max(4), w * 2 / 3) {
                    let p = (p.0 + dx, p.1 + dy);
                    if c.off_edges(p) && used.insert(p) {
                        c.st.push(p)
                    }
                }
            }
            return Some(c);
        }
        16 => {
            // many small holes in a box, in rows
            let (p, q) = match lv {
                1 => (r.range(1, 2), 1),
                2 => (r.range(1, 3), r.range(1, 2)),
                3 => (r.range(2, 5), r.range(1, 4)),
                _ => (r.range(3, 12), r.range(3, 12)),
            };
            let w = r.pick(&[3, 4, 6, 20]);
            c.poly = vec![(-1, -1), (p * w + 1, -1), (p * w + 1, q * w + 1), (-1, q * w + 1)];
            for i in 0..p {
                for j in 0..q {
                    let k = r.us(3, if lv < 3 { 4 } else { 7 });
                    let (x, y) = (i * w, j * w);
                    let h = if w == 3 || r.chance(1, 4) {
                        vec![(x + 1, y + 1), (x + w - 1, y + 1), (x + w - 1, y + w - 1), (x + 1, y + w - 1)]
                    } else {
                        match rnd_poly(r, k, x, y, x + w - 1, y + w - 1) {
                            Some(h) => h,
                            None => continue,
                        }
                    };
                    c.holes.push(h);
                }
            }
            for i in (1..c.holes.len()).rev() {
                let j = r.below(i as u64 + 1) as usize;
                c.holes.swap(i, j);
            }
            add_steiner(r, &mut c, ns, ext);
            return Some(c);
        }
        17 => {
            let w = if lv < 3 { r.range(4, 9) } else { r.range(8, 24) };
            c.poly = rnd_poly(r, n.min(16), 0, 0, w, w)?;
            add_holes(r, &mut c, nh, 5);
            add_steiner(r, &mut c, ns, false);
            let (a, b) = (spread(r, w as usize, size), spread(r, w as usize, size));
            let b = if r.chance(1, 4) { (0..=w).collect() } else { b };
            return Some(c.map(|p| (a[p.0 as usize], b[p.1 as usize])));
        }
        18 => {
            // as large as numbers get without losing the unit: differences of coordinates are rounded
            let g = if size.f32 { (1i64 << 24) - 1 } else { (1 << 53) - 1 };
            let slack = r.pick(&[0, 1, 3, 100]);
            let mut near = |x: i64, y: i64| (x * (g - r.range(0, slack)), y * (g - r.range(0, slack)));
            c.poly = vec![near(-1, -1), near(1, 1), near(-1, 1)];
            if r.chance(1, 3) {
                c.poly.insert(1, near2(r, g));
            }
            if !simple(&c.poly) {
                return None;
            }
            let mut used: HashSet<P> = c.points().into_iter().collect();
            let e = r.pick(&[1, 2, 5]);
            for _ in 0..ns.max(3) {
                let i = r.below(c.poly.len() as u64) as usize;
                let (a, b) = (c.poly[i], c.poly[(i + 1) % c.poly.len()]);
                let t = if r.chance(1, 3) { r.range(0, 4) << 28 } else { r.range(0, 1 << 30) } as i128;
                let on = |a: i64, b: i64| (a as i128 + (((b - a) as i128 * t) >> 30)) as i64;
                let p = (on(a.0, b.0) + r.range(-e, e), on(a.1, b.1) + r.range(-e, e));
                if p.0.abs() <= g && p.1.abs() <= g && c.off_edges(p) && used.insert(p) {
                    c.st.push(p)
                }
            }
            return Some(c);
        }
        19 => {
            // coordinates of very different size, many near rays from the origin: sums have more
            // digits than numbers do
            let top = r.pick(&[20, 40, 52, 60]);
            let f32 = size.f32;
            // to a number that can be represented, and its neighbours
            let near = |v: i64, d: i64| {
                let bits = if f32 { 24 } else { 53 };
                let k = (64 - v.unsigned_abs().leading_zeros()).saturating_sub(bits);
                // (the magnitude is rounded down: it has room for one more)
                v.signum() * ((((v.abs() >> k) + d) << k)) + if v == 0 { d } else { 0 }
            };
            let num = |r: &mut Rng| {
                let bits = r.range(1, 9);
                let m = r.range(1, 1 << bits);
                let v = m << r.range(0, top - 10);
                near(if r.chance(1, 2) { v } else { -v }, 0)
            };
            let far = {
                let m = r.range(1 << (top - 2), (1 << (top - 1)) - 1);
                let m = if r.chance(1, 2) { m } else { (m >> (top - 10)) << (top - 10) };
                let d = r.pick(&[0, 1, 3]);
                let e = r.range(-d, d);
                (near(m, e), near(m, 0))
            };
            if r.chance(1, 2) {
                let a = (r.range(-9, 9), r.range(-9, 9));
                c.poly = vec![a, far, (near(-far.0, 1), near(far.1, -1))];
            } else {
                c.poly = (0..r.us(3, 5)).map(|_| (num(r), num(r))).collect();
            }
            if !simple(&c.poly) {
                return None;
            }
            let mut used: HashSet<P> = c.points().into_iter().collect();
            for _ in 0..ns.max(3) {
                let k = r.range(0, top - 2);
                let p = match r.below(4) {
                    0 => (num(r), num(r)),
                    1 => {
                        let i = r.below(c.poly.len() as u64) as usize;
                        let (a, b) = (c.poly[i], c.poly[(i + 1) % c.poly.len()]);
                        (a.0 + ((b.0 - a.0) >> k), a.1 + ((b.1 - a.1) >> k))
                    }
                    _ => {
                        let q = c.poly[r.below(c.poly.len() as u64) as usize];
                        (q.0 >> k, q.1 >> k)
                    }
                };
                let p = (near(p.0, r.range(-1, 1)), near(p.1, r.range(-1, 1)));
                if c.off_edges(p) && used.insert(p) {
                    c.st.push(p)
                }
            }
            return Some(c);
        }
        _ => {
            // points close to a long edge, so that the edge event has to cut through many triangles
            let w = r.pick(&[12, 40, 400]);
            c.poly = vec![(0, 0), (w, r.range(-2, 2)), (w + r.range(0, 3), w / 2), (r.range(-3, 3), w / 2 + r.range(1, 4))];
            if r.chance(1, 2) {
                let p = (r.range(w / 4, w / 2), r.range(w / 8, w / 4));
                c.poly.insert(1, p);
            }
            if !simple(&c.poly) {
                return None;
            }
            let mut used: HashSet<P> = c.points().into_iter().collect();
            for _ in 0..ns.max(3) {
                let i = r.below(c.poly.len() as u64) as usize;
                let (a, b) = (c.poly[i], c.poly[(i + 1) % c.poly.len()]);
                let t = r.range(0, 64);
                let p = (a.0 + (b.0 - a.0) * t / 64 + r.range(-1, 1), a.1 + (b.1 - a.1) * t / 64 + r.range(-2, 2));
                if c.off_edges(p) && used.insert(p) {
                    c.st.push(p)
                }
            }
            return Some(c);
        }
    }
    if !simple(&c.poly) {
        return None;
    }
    add_holes(r, &mut c, nh, if lv < 3 { 5 } else { 9 });
    add_steiner(r, &mut c, ns, ext);
    Some(c)
}

fn near2(r: &mut Rng, g: i64) -> P {
    if r.chance(1, 2) {
        (g - r.range(0, 5), -g + r.range(0, 5))
    } else {
        (r.range(-g, g), r.range(-g, g))
    }
}

/// another look of the same case: affine maps, order and direction
pub fn vary(seed: u64, idx: u64, c: &mut Case, size: &Size) {
    let mut r = Rng::new(seed.wrapping_mul(0x1000_0001_B3).wrapping_add(idx.wrapping_mul(0x9E37_79B9)) ^ 0xA11);
    let (fx, fy) = r.pick(&[(1, 1), (1, 1), (1, 1), (1, 2), (2, 1), (1, 9), (9, 1), (1, 1000)]);
    *c = c.map(|p| (p.0 * fx, p.1 * fy));
    if r.chance(1, 4) {
        let (s, t) = (r.range(-3, 3), r.range(1, 3));
        *c = c.map(|p| (p.0 * t + s * p.1, p.1 * t));
    }
    transform(&mut r, c, size);
}

fn transform(r: &mut Rng, c: &mut Case, size: &Size) {
    if r.chance(1, 2) {
        *c = c.map(|p| (p.1, p.0));
    }
    if r.chance(1, 2) {
        *c = c.map(|p| (-p.0, p.1));
    }
    if r.chance(1, 2) {
        *c = c.map(|p| (p.0, -p.1));
    }
    let far = if size.f32 { 1i64 << 23 } else { 1i64 << 52 };
    let room = c.max_abs() < far / 2;
    if room && r.chance(1, 8) {
        // shear: keeps collinearity, makes slopes
        let s = r.range(-2, 2);
        *c = c.map(|p| (p.0 + s * p.1, p.1));
    }
    if room && r.chance(1, 4) {
        let d = r.pick(&[1, 7, 100, 1000]);
        let (dx, dy) = (r.range(-d, d), r.range(-d, d));
        *c = c.map(|p| (p.0 + dx, p.1 + dy));
    }
    if r.chance(1, 16) && c.max_abs() < far / 2 {
        // far from the origin: the coordinates have no bits left to the right of the point
        let mut d = || r.pick(&[0, far, -far, 2 * far, -2 * far, far / 2]);
        let (dx, dy) = (d(), d());
        let m = c.max_abs();
        let fits = |d: i64| if d.abs() + m <= 2 * far { d } else { d - d.signum() * m };
        let (dx, dy) = (fits(dx), fits(dy));
        *c = c.map(|p| (p.0 + dx, p.1 + dy));
    }
    for v in std::iter::once(&mut c.poly).chain(c.holes.iter_mut()) {
        let n = v.len();
        v.rotate_left(r.below(n as u64) as usize);
        if r.chance(1, 2) {
            v.reverse()
        }
    }
    // shuffle the Steiner points
    for i in (1..c.st.len()).rev() {
        let j = r.below(i as u64 + 1) as usize;
        c.st.swap(i, j);
    }
    if size.scaled && c.kind == 19 && r.chance(1, 5) {
        c.exp = r.pick(&[-40, -20, -1])
    } else if size.scaled && c.kind != 19 && r.chance(1, 5) {
        c.exp = if size.f32 { r.pick(&[-40, -20, -8, -1, 10, 30]) } else { r.pick(&[-200, -80, -60, -30, -10, -1, 20, 60, 200]) };
    }
}
