//! Large inputs whose validity the specification can check in linear time (BigResults.tla): two
//! chains that are monotone in x, one below and one above the x axis, joined at two corners on the
//! axis; rectangular holes around the axis; Steiner points anywhere else, each with the chain edges
//! and the gap between the holes it belongs to as a witness.
use crate::gen::Case;
use crate::geom::*;
use crate::modes::{builder, Out};
use crate::{guarded, json, Args};

pub struct Big {
    pub case: Case,
    /// x and y are swapped before the points are handed over
    pub swap: bool,
    pub lower: Vec<usize>,
    pub upper: Vec<usize>,
    /// for each Steiner point: edge of the lower chain, edge of the upper one, holes to its left
    pub wit: Vec<[usize; 3]>,
}

const SIZES: [usize; 8] = [70_000, 3_000, 20_000, 6_000, 35_000, 1_500, 12_000, 50_000];

fn side(chain: &[P], p: P) -> Option<(usize, i128)> {
    // chain[k].x <= p.x < chain[k+1].x
    if p.0 < chain[0].0 || p.0 >= chain[chain.len() - 1].0 {
        return None;
    }
    let k = chain.partition_point(|q| q.0 <= p.0) - 1;
    Some((k, orient(chain[k], chain[k + 1], p)))
}

pub fn gen(seed: u64, idx: u64, most: usize, single: bool) -> Big {
    let mut r = Rng::new(seed.wrapping_mul(0x51_7C_C1) ^ idx.wrapping_mul(0x9E37_79B9_7F4A));
    let n = SIZES[(idx % 8) as usize].min(most);
    let kind = ((5 * idx + idx / 8 * 9 + 8) % 12) as usize; // each one large at times
    let swap = match kind {
        8 | 9 | 11 => r.chance(1, 8),
        10 => r.chance(7, 8),
        _ => r.chance(1, 2),
    };
    let lim: i64 = if single { 1 << 22 } else { 1 << 29 };
    let w = match r.below(3) {
        0 => 4 * (n as i64),
        1 => (64 * n as i64).min(lim),
        _ => lim,
    };
    let b = 8; // chains stay away from the axis by b
    // the chains without the two corners
    let rough = |r: &mut Rng, m: usize, h: i64| -> Vec<P> {
        let mut xs: Vec<i64> = (0..m).map(|_| r.range(1, w - 1)).collect();
        xs.sort();
        xs.dedup();
        xs.into_iter().map(|x| (x, r.range(b, h.max(b)))).collect()
    };
    let h = match r.below(3) {
        0 => w / 2,
        1 => 20 + w / 100,
        _ => 2 * b,
    };
    let r0 = r.chance(1, 2);
    let (mut lo, mut up, mut st): (Vec<P>, Vec<P>, Vec<P>) = (vec![], vec![], vec![]);
    let mut holes: Vec<Vec<P>> = vec![];
    let mut end_at = 0;
    match kind {
        // points all over
        0 => {
            lo = vec![(1, w / 2), (w - 1, w / 2)];
            up = vec![(2, w / 2), (w - 3, w / 2 + 1)];
            st = (0..n).map(|_| (r.range(2, w - 2), r.range(-w / 2 + 1, w / 2))).collect();
        }
        // many corners
        1 => {
            lo = rough(&mut r, n / 2, h);
            up = rough(&mut r, n / 2, h);
        }
        // two edges that have points close by on both sides
        2 => {
            lo = vec![(w / 3, h.max(b))];
            up = vec![(w / 2, h.max(b))];
            let c = [(0, 0), (w / 3, -h.max(b)), (w, 0), (w / 2, h.max(b)), (0, 0)];
            for _ in 0..n {
                let k = r.below(4) as usize;
                let t = r.below(1 << 20) as i64;
                let (p, q) = (c[k], c[k + 1]);
                let d = w / 1000 + 3;
                st.push((p.0 + ((q.0 - p.0) as i128 * t as i128 >> 20) as i64 + r.range(-d, d), p.1 + ((q.1 - p.1) as i128 * t as i128 >> 20) as i64 + r.range(-d, d)));
            }
        }
        // arcs
        3 => {
            let m = (n as i64).min(if single { 2000 } else { 20_000 });
            let f = |x: i64| x * (m + 1 - x);
            lo = (1..=m).map(|x| (x, b + f(x))).collect();
            up = if r.chance(1, 2) { vec![(1, b), (m, b)] } else { (1..=m).map(|x| (x, b + f(m) + (m * m - f(x)) / 2)).collect() };
        }
        // a lattice
        4 => {
            let k = (n as f64).sqrt() as i64;
            lo = vec![(1, 2 * k + 1), (4 * k + 1, 2 * k + 1)];
            up = lo.clone();
            let odd = r.below(2) as i64;
            for x in 1..=k {
                for y in -k / 2..k / 2 {
                    st.push((4 * x - 1, 4 * y + odd * (x % 2)));
                }
            }
        }
        // rows
        5 => {
            lo = rough(&mut r, 20, h);
            up = rough(&mut r, 20, h);
            let rows: Vec<i64> = (0..r.us(1, 3)).map(|_| r.range(-h, h)).collect();
            st = (0..n).map(|_| (r.range(-w / 8, w + w / 8), r.pick(&rows))).collect();
        }
        // ramps and stairs
        6 => {
            let m = n as i64 / 2;
            lo = (1..=m).map(|x| (2 * x, b + x + r.range(0, 1))).collect();
            up = (1..=m).map(|x| (2 * x + 1, b + (m - x) * 2 + r.range(0, 3))).collect();
        }
        // an edge far above a row of points: they are filled or turned around one after the other
        8 => {
            let m = (n as i64).min(lim / 8);
            let top = lim / 4;
            // a dome, or a slope
            let f = |x: i64| if r0 { x as i128 * (m + 1 - x) as i128 * 4 * (top / 4) as i128 / ((m + 1) as i128 * (m + 1) as i128) } else { x as i128 * x as i128 * (top / 8) as i128 / (m as i128 * m as i128) };
            lo = vec![(m + 1, b)];
            up = vec![(1, top + top / 2)];
            st = (2..=m).map(|x| (x, 1 + f(x) as i64)).collect();
        }
        // a long edge that is crossed by many others
        9 => {
            let m = (n as i64 / 2).min(lim / 20);
            let g = (lim / (m + 4)).min(1000);
            lo = vec![(g * m / 2, b)];
            up = vec![(g * m, 4 * m + 1)];
            st = (1..m).flat_map(|y| [(g * y - 3 * g, 4 * y), (g * y + 3 * g + 1, 4 * y + 1)]).collect();
        }
        // all points on one side of an edge see its upper end
        10 => {
            let m = (n as i64).min(lim / 8);
            let e = m as i128 * m as i128 / (lim as i128 / 2) + 1;
            lo = vec![(4 * m + 1, b)];
            up = vec![(1, lim / 2 + 1), (4 * m, lim / 2 + 2)];
            st = (2..m).map(|y| (4 * y, 1 + if r0 { (y as i128 * y as i128 / e) as i64 } else { y })).collect();
        }
        // half of a bowl: steep on one side, with a single point on the other
        11 => {
            let m = (n as i64).min(((lim / 2) as f64).sqrt() as i64 - 1);
            let c = (lim / 8 / (m * m)).max(1);
            let (mid, step) = (lim / 2, (lim / 8 / m).min(100));
            let f = |k: i64| 20 + k + c * k * k;
            lo = vec![(1, b)];
            up = vec![(mid, lim - 1)];
            end_at = lim;
            st = (0..=m).map(|k| (mid - step * k, f(k))).collect();
            st.push((mid + f(m) / 4, f(m) - m / 2));
        }
        // holes in a row, and points
        _ => {
            let m = n / 8;
            let d = w / (m as i64 + 2);
            lo = vec![(1, w / 4), (w - 1, w / 4)];
            up = vec![(2, w / 4), (w - 2, w / 4)];
            for k in 1..=m as i64 {
                if d >= 4 {
                    let x = k * d;
                    let (e, f) = (r.range(1, b - 1), r.range(1, b - 1));
                    holes.push(vec![(x, -e), (x + d / 2, -e), (x + d / 2, f), (x, f)]);
                }
            }
            st = (0..n / 2).map(|_| (r.range(-w / 9, w + w / 9), r.range(-w / 3, w / 3))).collect();
        }
    }
    let end = 1 + lo.iter().chain(up.iter()).map(|p| p.0).max().unwrap_or(w).max(if matches!(kind, 3 | 4 | 6 | 8 | 9 | 10 | 11) { end_at } else { w - 1 });
    if kind >= 8 && r.chance(1, if kind == 11 { 4 } else { 2 }) {
        let m = |v: &mut Vec<P>| {
            v.iter_mut().for_each(|p| p.0 = end - p.0);
            v.reverse();
        };
        [&mut lo, &mut up, &mut st].into_iter().for_each(m);
    }
    let mut lc: Vec<P> = vec![(0, 0)];
    lc.extend(lo.iter().map(|p| (p.0, -p.1)));
    lc.push((end, 0));
    let mut uc: Vec<P> = vec![(0, 0)];
    uc.extend(up);
    uc.push((end, 0));
    let mut poly = lc.clone();
    poly.extend(uc[1..uc.len() - 1].iter().rev());
    let mut seen: std::collections::HashSet<P> = poly.iter().chain(holes.iter().flatten()).cloned().collect();
    let mut wit = vec![];
    st.retain(|&p| {
        if !seen.insert(p) {
            return false;
        }
        let (k, m) = match (side(&lc, p), side(&uc, p)) {
            (Some((k, a)), Some((m, c))) => {
                if a == 0 || c == 0 {
                    return false;
                }
                (k + 1, m + 1)
            }
            // left or right of everything: may be on no edge
            _ => (0, 0),
        };
        let g = holes.partition_point(|q| q[0].0 <= p.0);
        if g > 0 {
            let q = &holes[g - 1];
            if p.0 <= q[2].0 && p.1 >= q[0].1 && p.1 <= q[2].1 && (p.0 == q[0].0 || p.0 == q[2].0 || p.1 == q[0].1 || p.1 == q[2].1) {
                return false;
            }
        }
        wit.push([k, m, g]);
        true
    });
    let lower: Vec<usize> = (0..lc.len()).collect();
    let mut upper: Vec<usize> = vec![0];
    upper.extend((lc.len()..poly.len()).rev());
    upper.push(lc.len() - 1);
    let mut case = Case { poly, holes, st, exp: 0, kind };
    if swap {
        case = case.map(|p| (p.1, p.0));
    }
    Big { case, swap, lower, upper, wit }
}

pub fn run(args: &Args, idx: u64) -> Option<Out> {
    let g = gen(args.get("seed", 1), idx, args.get("most", 100_000), cfg!(feature = "f32"));
    let c = &g.case;
    // with the stack that a thread has if nobody says otherwise
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(args.get("stack", 2048usize) << 10)
            .spawn_scoped(s, || {
                guarded(|| {
                    builder(c)
                        .build()
                        .triangulate()
                        .triangle_list_indices()
                        .chunks(3)
                        .map(|c| [c[0] as usize, c[1] as usize, c[2] as usize])
                        .collect::<Vec<[usize; 3]>>()
                })
            })
            .unwrap()
            .join()
            .unwrap()
    });
    let (o, t) = match r {
        Ok(t) => ("ok".to_string(), t),
        Err(m) => (format!("panic: {m}"), vec![]),
    };
    Some(Out { suspicious: o != "ok", json: record(&g, idx, &o, &t) })
}

/// A part of the trace of a large run.
#[cfg(feature = "trace")]
pub fn part(args: &Args, idx: u64) -> Option<Out> {
    let g = gen(args.get("seed", 1), idx, args.get("most", 100_000), cfg!(feature = "f32"));
    let c = &g.case;
    let mut rec = crate::trace::Recorder::new(c, usize::MAX, args.get("obs", 0));
    let mut r = Rng::new(args.get("seed", 1u64) ^ idx.wrapping_mul(0x9E37_79B9_7F4A_7C15));
    let n = c.len() as i64;
    let least = if r.chance(2, 3) { n / 3 } else { 0 };
    rec.part = Some((r.range(least, n - 3) as usize, args.get("limit", 12)));
    rec.last = idx % 4 == 3 || args.get("last", 0) == 1;
    if rec.last {
        rec.part = Some((usize::MAX, 0));
    }
    let r = guarded(|| {
        builder(c)
            .build()
            .triangulate_with_observer(&mut rec)
            .triangle_list_indices()
            .chunks(3)
            .map(|c| [c[0] as usize, c[1] as usize, c[2] as usize])
            .collect::<Vec<[usize; 3]>>()
    });
    let (o, t) = match r {
        Ok(t) => ("ok".to_string(), if rec.last { t } else { vec![] }),
        Err(m) => (format!("panic: {m}"), vec![]),
    };
    let pts: Vec<String> = rec.points.iter().map(|p| json::xy(p.0, p.1)).collect();
    Some(Out {
        suspicious: o != "ok" || rec.watch.found.is_some(),
        json: record(&g, idx, &o, &t).replacen(
            "{",
            &format!(
                "{{\"r\":{},\"h\":{},\"ob\":{},\"nx\":{},\"ev\":{},",
                json::ids(&rec.result),
                json::list(&pts[pts.len().saturating_sub(2)..].to_vec()),
                args.get("obs", 0),
                json::ids(&rec.next.unwrap_or([0, 0])),
                json::list(&rec.ev)
            ),
            1,
        ),
    })
}

pub fn record(g: &Big, idx: u64, o: &str, t: &[[usize; 3]]) -> String {
    let wit: Vec<String> = g.wit.iter().map(|w| format!("[{},{},{}]", w[0], w[1], w[2])).collect();
    format!(
        "{{\"id\":{},\"k\":{},\"s\":{},\"lo\":{},\"up\":{},\"wit\":{},\"p\":{},\"l\":{},\"o\":{},\"t\":{}}}",
        idx,
        g.case.kind,
        g.swap as u8,
        json::ids(&g.lower.iter().map(|i| i + 1).collect::<Vec<_>>()),
        json::ids(&g.upper.iter().map(|i| i + 1).collect::<Vec<_>>()),
        json::list(&wit),
        json::points(&g.case),
        json::loops(&g.case),
        json::quote(o),
        json::tris(t)
    )
}
