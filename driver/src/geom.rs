//! Integer geometry used to *generate* valid inputs and to pick the executions that are worth
//! TLC's time.  It decides no property: TLC does, from the definitions in ../spec.
pub type P = (i64, i64);

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn us(&mut self, a: usize, b: usize) -> usize {
        a + self.below((b - a + 1) as u64) as usize
    }
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + self.below((b - a + 1) as u64) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len() as u64) as usize]
    }
}

pub fn orient(a: P, b: P, c: P) -> i128 {
    (b.0 - a.0) as i128 * (c.1 - a.1) as i128 - (b.1 - a.1) as i128 * (c.0 - a.0) as i128
}

/// sign of a * b + c * d + e * f, for factors below 2^125
fn sign_of_products(v: [(i128, i128); 3]) -> i32 {
    let (mut hi, mut lo) = (0i128, 0u128);
    for (a, b) in v {
        let (a1, a0) = (a >> 64, (a as u128) & u64::MAX as u128);
        let (b1, b0) = (b >> 64, (b as u128) & u64::MAX as u128);
        let mid = a1 * b0 as i128 + a0 as i128 * b1;
        let (l, c) = (a0 * b0).overflowing_add((mid as u128) << 64);
        hi += a1 * b1 + (mid >> 64) + c as i128;
        let (l, c) = lo.overflowing_add(l);
        lo = l;
        hi += c as i128;
    }
    if hi == 0 && lo == 0 {
        0
    } else if hi < 0 {
        -1
    } else {
        1
    }
}

/// sign: d is inside (1), on or outside of the circle of a, b, c, which are counter-clockwise
pub fn incircle(a: P, b: P, c: P, d: P) -> i32 {
    let f = |p: P| ((p.0 - d.0) as i128, (p.1 - d.1) as i128);
    let (ax, ay) = f(a);
    let (bx, by) = f(b);
    let (cx, cy) = f(c);
    sign_of_products([
        (ax * ax + ay * ay, bx * cy - by * cx),
        (bx * bx + by * by, cx * ay - cy * ax),
        (cx * cx + cy * cy, ax * by - ay * bx),
    ])
}

pub fn onseg(a: P, b: P, p: P) -> bool {
    p.0 >= a.0.min(b.0)
        && p.0 <= a.0.max(b.0)
        && p.1 >= a.1.min(b.1)
        && p.1 <= a.1.max(b.1)
        && orient(a, b, p) == 0
}

/// closed segments have a common point
pub fn touch(a: P, b: P, c: P, d: P) -> bool {
    if a.0.max(b.0) < c.0.min(d.0)
        || c.0.max(d.0) < a.0.min(b.0)
        || a.1.max(b.1) < c.1.min(d.1)
        || c.1.max(d.1) < a.1.min(b.1)
    {
        return false;
    }
    let o1 = orient(a, b, c).signum();
    let o2 = orient(a, b, d).signum();
    let o3 = orient(c, d, a).signum();
    let o4 = orient(c, d, b).signum();
    (o1 * o2 < 0 && o3 * o4 < 0)
        || (o1 == 0 && onseg(a, b, c))
        || (o2 == 0 && onseg(a, b, d))
        || (o3 == 0 && onseg(c, d, a))
        || (o4 == 0 && onseg(c, d, b))
}

pub fn simple(poly: &[P]) -> bool {
    let n = poly.len();
    if n < 3 {
        return false;
    }
    for i in 0..n {
        let (a, b) = (poly[i], poly[(i + 1) % n]);
        let c = poly[(i + 2) % n];
        if a == b || onseg(a, b, c) || onseg(b, c, a) {
            return false;
        }
        for j in i + 2..n {
            if (j + 1) % n == i {
                continue;
            }
            if touch(a, b, poly[j], poly[(j + 1) % n]) {
                return false;
            }
        }
    }
    true
}

pub fn area2(poly: &[P]) -> i128 {
    let n = poly.len();
    (0..n)
        .map(|i| {
            let (a, b) = (poly[i], poly[(i + 1) % n]);
            a.0 as i128 * b.1 as i128 - a.1 as i128 * b.0 as i128
        })
        .sum()
}

/// 1 inside, 0 on the boundary, -1 outside
pub fn contains(poly: &[P], p: P) -> i32 {
    let n = poly.len();
    let mut c = false;
    for i in 0..n {
        let (a, b) = (poly[i], poly[(i + 1) % n]);
        if onseg(a, b, p) {
            return 0;
        }
        if (a.1 > p.1) != (b.1 > p.1) {
            let o = orient(a, b, p);
            if (b.1 > a.1) == (o > 0) {
                c = !c
            }
        }
    }
    if c {
        1
    } else {
        -1
    }
}
