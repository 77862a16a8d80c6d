//! Writes files, loads them with the library's loader, and records what it made of them, for
//! spec/LoaderTrace.tla.
use crate::gen::gen_case;
use crate::geom::*;
use crate::modes::{size, Out};
use crate::{guarded, json, Args};
use poly2tri_rs::loader::{Loader, LoaderError, PlainFileLoader};
use poly2tri_rs::*;

/// a line: what it is, and the texts of its two columns
#[derive(Clone)]
struct Line(&'static str, String, String);

const BAD: [(&str, &str); 16] = [
    ("1", ""),
    ("abc", ""),
    ("hole", ""),
    ("HOLES", ""),
    ("steiner", ""),
    ("POLYLINE", ""),
    ("x", "y"),
    ("1", "two"),
    ("one", "2"),
    ("1,5", "2"),
    ("--1", "2"),
    ("1", "2..5"),
    ("#", "comment"),
    ("0x10", "1"),
    ("1e", "2"),
    ("1;", "2"),
];

/// ways to write the number n / 2^b
fn write(r: &mut Rng, n: i64, b: u32) -> String {
    let v = n as f64 / (1i64 << b) as f64;
    if n == 0 && r.chance(1, 3) {
        return r.pick(&["-0", "-0.0", "0.0", "0e0", "+0", "000", "0e7"]).into();
    }
    if b == 0 {
        let s = n.to_string();
        match r.below(9) {
            0 => format!("{s}.0"),
            1 => format!("{s}."),
            2 => format!("{s}e0"),
            3 if n >= 0 => format!("+{s}"),
            4 => format!("{s}0e-1"),
            5 => format!("{s}.000"),
            6 if n >= 0 => format!("00{s}"),
            7 if n % 10 == 0 && n != 0 => format!("{}e1", n / 10),
            _ => s,
        }
    } else {
        let s = format!("{v}");
        match r.below(5) {
            0 => format!("{v:e}"),
            1 => format!("{v:E}"),
            2 if s.starts_with("0.") => s[1..].to_string(),
            3 if s.contains('.') => format!("{s}00"),
            _ => s,
        }
    }
}

fn render(r: &mut Rng, lines: &[Line]) -> Vec<u8> {
    let mut s = String::new();
    let crlf = r.chance(1, 4);
    let plain = r.chance(1, 3);
    // rarely, so much of it that the file exceeds any buffer
    let wide = " ".repeat(if r.chance(1, 30) { r.pick(&[r.clone().us(1, 20000), 70_000, 1_100_000, 9_000_000]) } else { 0 });
    let at = r.below(lines.len() as u64 + 1) as usize;
    for (k, l) in lines.iter().enumerate() {
        let blank = |r: &mut Rng| if plain { "" } else { r.pick(&["", "", " ", "\t", "  "]) };
        match l.0 {
            "H" => s.push_str("HOLE"),
            "S" => s.push_str("STEINER"),
            "E" => {
                s.push_str(blank(r));
                if k == at {
                    s.push_str(&wide)
                }
            }
            _ => {
                s.push_str(blank(r));
                if k == at {
                    s.push_str(&wide)
                }
                s.push_str(&l.1);
                if !l.2.is_empty() {
                    s.push_str(if plain { " " } else { r.pick(&[" ", " ", "\t", "   ", " \t "]) });
                    s.push_str(&l.2);
                }
                s.push_str(blank(r));
            }
        }
        if k + 1 < lines.len() || r.chance(3, 4) {
            s.push_str(if crlf { "\r\n" } else { "\n" });
        }
    }
    s.into_bytes()
}

fn point(r: &mut Rng, p: P, b: u32) -> Line {
    Line("P", write(r, p.0, b), write(r, p.1, b))
}

/// the idx-th sequence over point, blank, HOLE, STEINER, malformed
fn enumerated(r: &mut Rng, mut idx: u64) -> Vec<Line> {
    let mut len = 0;
    let mut count = 1;
    while idx >= count {
        idx -= count;
        count *= 5;
        len += 1;
    }
    let spots = [(0, 0), (9, 1), (7, 8), (-3, 6), (2, 3), (5, 4), (1, -6), (20, 5), (6, 2), (-8, -7)];
    let mut n = 0;
    let mut v = vec![];
    for _ in 0..len {
        match idx % 5 {
            0 => {
                let p = spots[n % spots.len()];
                n += 1;
                v.push(point(r, p, 0));
            }
            1 => v.push(Line("E", String::new(), String::new())),
            2 => v.push(Line("H", String::new(), String::new())),
            3 => v.push(Line("S", String::new(), String::new())),
            _ => {
                let b = BAD[r.below(BAD.len() as u64) as usize];
                v.push(Line("B", b.0.into(), b.1.into()));
            }
        }
        idx /= 5;
    }
    v
}

/// a whole case as a file, its sections in some order
fn whole(r: &mut Rng, args: &Args, idx: u64) -> Option<Vec<Line>> {
    let most: usize = args.get("most", 0);
    let c = match most {
        0 => gen_case(args.get("seed", 1), idx, &size(args))?,
        _ => crate::big::gen(args.get("seed", 1), idx, most, cfg!(feature = "f32")).case,
    };
    if c.exp != 0 || (most == 0 && c.max_abs() > 1 << 22) {
        return None;
    }
    let b = r.pick(&[0, 0, 1, 3, 8]);
    let tail = if cfg!(feature = "f32") { 0 } else { r.pick(&[0, 0, 1]) };
    let mut v = vec![];
    let mut put = |r: &mut Rng, v: &mut Vec<Line>, p: P| {
        if r.chance(1, 10) {
            v.push(Line("E", String::new(), String::new()));
        }
        let mut l = point(r, p, b);
        if tail == 1 && b == 0 {
            // no longer dyadic: moves every point by the same hundredth, which rounds
            l.1 = format!("{}.{}", p.0, "07");
        }
        v.push(l);
    };
    for &p in &c.poly {
        put(r, &mut v, p);
    }
    let mut hs = c.holes.iter();
    let mut st = &c.st[..];
    let mut left = c.holes.len();
    while left > 0 || !st.is_empty() {
        if left > 0 && (st.is_empty() || r.chance(2, 3)) {
            left -= 1;
            v.push(Line("H", String::new(), String::new()));
            for &p in hs.next().unwrap() {
                put(r, &mut v, p);
            }
        } else {
            let k = if r.chance(1, 2) { st.len() } else { r.us(0, st.len()) };
            v.push(Line("S", String::new(), String::new()));
            for &p in &st[..k] {
                put(r, &mut v, p);
            }
            st = &st[k..];
        }
    }
    if r.chance(1, 6) {
        let b = BAD[r.below(BAD.len() as u64) as usize];
        let i = r.below(v.len() as u64 + 1) as usize;
        v.insert(i, Line("B", b.0.into(), b.1.into()));
    }
    Some(v)
}

#[derive(Default)]
struct Peek {
    p: Vec<String>,
    e: Vec<String>,
    q: Vec<(f64, f64)>,
}
impl Peek {
    fn look(&mut self, s: &Sweeper) {
        for (_, p, e) in s.points.iter() {
            self.p.push(json::xy(p.x as f64, p.y as f64));
            self.q.push((p.x as f64, p.y as f64));
            self.e.push(json::ids(&e.map(|i| json::one_based(i.as_usize())).collect::<Vec<_>>()));
        }
        panic!("SEEN");
    }
}
impl Observer for Peek {
    fn enter_point_event(&mut self, _: PointId, s: &Sweeper) {
        self.look(s)
    }
    fn sweep_done(&mut self, s: &Sweeper) {
        self.look(s)
    }
}

macro_rules! indices {
    ($t:expr) => {
        $t.triangle_list_indices()
            .chunks(3)
            .map(|c| [c[0] as usize, c[1] as usize, c[2] as usize])
            .collect::<Vec<[usize; 3]>>()
    };
}

pub fn run(args: &Args, idx: u64) -> Option<Out> {
    let mut r = Rng::new(args.get("seed", 1u64) ^ (idx << 8));
    let dir = args.kv.get("dir").expect("--dir");
    let mut loader = PlainFileLoader::default();
    let mut loads = vec![];
    let mut odd = false;
    let all = args.get("all", 0) == 1;
    let turns = if args.get("most", 0) > 0 { 1 } else { r.us(1, 3) };
    for turn in 0..turns {
        let path = format!("{dir}/in{}-{turn}.dat", std::process::id());
        let mut kind = "file";
        let lines = if all && turn == 0 {
            enumerated(&mut r, idx)
        } else if !all && (args.get("most", 0) > 0 || r.chance(5, 6)) {
            whole(&mut r, args, idx * 4 + turn as u64)?
        } else {
            let i = r.below(20000);
            enumerated(&mut r, i)
        };
        let mut bytes = render(&mut r, &lines);
        if !(all && turn == 0) && args.get("most", 0) == 0 && r.chance(1, 8) {
            kind = r.pick(&["missing", "folder", "text"]);
        }
        let mut target = path.clone();
        match kind {
            "missing" => target = format!("{dir}/none/{idx}.dat"),
            "folder" => target = dir.clone(),
            "text" => {
                let i = r.below(bytes.len() as u64 + 1) as usize;
                bytes.splice(i..i, [0x31, 0xff, 0xfe, 0x0a]);
                std::fs::write(&path, &bytes).expect("write");
            }
            _ => std::fs::write(&path, &bytes).expect("write"),
        }
        let got = guarded(|| loader.load(&target));
        let mut peek = Peek::default();
        let (mut o, mut t, mut to) = (String::new(), vec![], "none".to_string());
        let (mut want_p, mut bad, mut loops) = (vec![], false, vec![vec![]]);
        let (mut sec, mut st) = ("P", vec![]);
        for l in &lines {
            match l.0 {
                "H" => {
                    sec = "H";
                    loops.push(vec![]);
                }
                "S" => sec = "S",
                "B" => bad = true,
                "P" => {
                    let f = |s: &str| s.parse::<f64>().unwrap();
                    let p = (f(&l.1), f(&l.2));
                    match sec {
                        "S" => st.push(p),
                        _ => loops.last_mut().unwrap().push(p),
                    }
                }
                _ => {}
            }
        }
        let degenerate = loops.iter().any(|l| l.len() == 1);
        let solid = loops.iter().all(|l| l.len() > 2);
        loops.iter().for_each(|l| want_p.extend(l.iter().cloned()));
        want_p.extend(st);
        match got {
            Err(m) => {
                o = format!("panic: {m}");
                odd |= bad || kind != "file" || !degenerate;
            }
            Ok(Err(LoaderError::Io(_))) => {
                o.push_str("io");
                odd |= kind == "file";
            }
            Ok(Err(_)) => {
                o.push_str("inner");
                odd |= kind != "file" || !bad;
            }
            Ok(Ok(b)) => {
                o.push_str("ok");
                odd |= kind != "file" || bad;
                if !want_p.is_empty() && !odd {
                    let c = b.clone();
                    let _ = guarded(|| c.build().triangulate_with_observer(&mut peek).count());
                    for v in [&mut peek.p, &mut peek.e] {
                        v.truncate(v.len().saturating_sub(2));
                    }
                    peek.q.truncate(peek.p.len());
                    odd |= peek.q != want_p;
                    if solid {
                        match guarded(|| indices!(b.build().triangulate())) {
                            Ok(x) => {
                                t = x;
                                to = "ok".into();
                            }
                            Err(m) => to = format!("panic: {m}"),
                        }
                    }
                }
            }
        }
        let ls: Vec<String> =
            lines.iter().map(|l| format!("[\"{}\",{},{}]", l.0, json::quote(&l.1), json::quote(&l.2))).collect();
        loads.push(format!(
            "{{\"k\":\"{}\",\"n\":{},\"o\":{},\"p\":{},\"e\":{},\"to\":{},\"t\":{}}}",
            kind,
            json::list(&ls),
            json::quote(&o),
            json::list(&peek.p),
            json::list(&peek.e),
            json::quote(&to),
            json::tris(&t)
        ));
        let _ = std::fs::remove_file(&path);
    }
    Some(Out { suspicious: odd, json: format!("{{\"id\":{},\"ld\":{}}}", idx, json::list(&loads)) })
}
