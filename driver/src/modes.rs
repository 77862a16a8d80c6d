use crate::gen::{gen_case, Case, Size};
use crate::nested::N;
#[cfg(feature = "trace")]
use crate::trace;
use crate::{guarded, json, screen, Args};
use poly2tri_rs::*;

pub struct Out {
    pub suspicious: bool,
    pub json: String,
}

thread_local!(static LINES: std::cell::RefCell<std::collections::HashMap<String, Vec<String>>> = Default::default());

/// the idx-th line of the file given with --KEY
pub fn line_of(args: &Args, key: &str, idx: u64) -> Option<String> {
    let f = args.kv.get(key)?;
    LINES.with(|c| {
        c.borrow_mut()
            .entry(f.clone())
            .or_insert_with(|| std::fs::read_to_string(f).expect("cases").lines().map(|l| l.to_string()).collect())
            .get(idx as usize)
            .cloned()
    })
}

/// The case number idx: from a file of [exponent, polyline, holes, steiner points], or generated
pub fn case(args: &Args, idx: u64) -> Option<Case> {
    let idx = match args.kv.contains_key("ids") {
        true => line_of(args, "ids", idx)?.trim().parse().unwrap(),
        false => idx,
    };
    if args.kv.contains_key("cases") {
        let n = N::parse(&line_of(args, "cases", idx)?);
        let l = n.list();
        let mut c = Case {
            exp: l[0].int() as i32,
            poly: l[1].points(),
            holes: l[2].list().iter().map(|h| h.points()).collect(),
            st: l[3].points(),
            kind: 99,
        };
        if args.get("vary", 0) == 1 {
            crate::gen::vary(args.get("seed", 1), idx, &mut c, &size(args));
        }
        return Some(c);
    }
    gen_case(args.get("seed", 1), idx, &size(args))
}

pub fn size(args: &Args) -> Size {
    Size {
        level: args.get("level", 2),
        f32: cfg!(feature = "f32") || args.get("f32", 0) == 1,
        scaled: args.get("scaled", 0) == 1,
    }
}

pub fn pt(p: crate::geom::P, exp: i32) -> Point {
    let (x, y) = json::coord(p, exp);
    // zero has two signs, which mean the same
    let sign = |v: f64, other: i64| if v == 0. && other.rem_euclid(3) == 1 { -0. } else { v };
    Point::new(sign(x, p.1) as Float, sign(y, p.0) as Float)
}

pub fn builder(c: &Case) -> Builder {
    let f = |v: &Vec<crate::geom::P>| v.iter().map(|&p| pt(p, c.exp)).collect::<Vec<_>>();
    let mut b = Builder::new(f(&c.poly));
    if !c.holes.is_empty() {
        b = b.add_holes(c.holes.iter().map(f).collect::<Vec<_>>());
    }
    if !c.st.is_empty() {
        b = b.add_steiner_points(f(&c.st));
    }
    b
}

/// `Triangles` is not exported by the crate, so this cannot be a function
macro_rules! indices {
    ($t:expr) => {
        $t.triangle_list_indices()
            .chunks(3)
            .map(|c| [c[0] as usize, c[1] as usize, c[2] as usize])
            .collect::<Vec<[usize; 3]>>()
    };
}

pub fn run(args: &Args, idx: u64) -> Option<Out> {
    match args.mode.as_str() {
        "result" => {
            let c = case(args, idx)?;
            let r = guarded(|| indices!(builder(&c).build().triangulate()));
            let (o, t) = match r {
                Ok(t) => ("ok".to_string(), t),
                Err(m) => (format!("panic: {m}"), vec![]),
            };
            let s = o != "ok" || screen::look(&c, &t).is_some();
            Some(Out { suspicious: s, json: result_json(&c, idx, &o, &t) })
        }
        #[cfg(feature = "trace")]
        "trace" => {
            let c = case(args, idx)?;
            let mut rec = trace::Recorder::new(&c, args.get("limit", 1500), args.get("obs", 0));
            let r = guarded(|| indices!(builder(&c).build().triangulate_with_observer(&mut rec)));
            let (o, t) = match r {
                Ok(t) => ("ok".to_string(), t),
                Err(m) if m.contains("EVENTLIMIT") && args.get("cut", 1) == 1 => return None,
                Err(m) => (format!("panic: {m}"), vec![]),
            };
            let s = o != "ok" || rec.watch.found.is_some() || screen::look(&c, &t).is_some();
            let pts: Vec<String> = rec.points.iter().map(|p| json::xy(p.0, p.1)).collect();
            Some(Out {
                suspicious: s,
                json: format!(
                    "{{\"id\":{},\"k\":{},\"p\":{},\"h\":{},\"l\":{},\"o\":{},\"t\":{},\"r\":{},\"ob\":{},\"ev\":{}}}",
                    idx,
                    c.kind,
                    json::points(&c),
                    json::list(&pts[pts.len().saturating_sub(2)..].to_vec()),
                    json::loops(&c),
                    json::quote(&o),
                    json::tris(&t),
                    json::ids(&rec.result),
                    args.get("obs", 0),
                    json::list(&rec.ev)
                ),
            })
        }
        "variants" => crate::variants::run(args, idx),
        #[cfg(feature = "store")]
        "store" => crate::store::run(args, idx),
        "big" => crate::big::run(args, idx),
        #[cfg(feature = "trace")]
        "part" => crate::big::part(args, idx),
        "api" => crate::api::run(args, idx),
        "loader" => crate::loading::run(args, idx),
        _ => panic!("unknown mode"),
    }
}

pub fn result_json(c: &Case, idx: u64, o: &str, t: &[[usize; 3]]) -> String {
    format!(
        "{{\"id\":{},\"k\":{},\"p\":{},\"l\":{},\"o\":{},\"t\":{}}}",
        idx,
        c.kind,
        json::points(c),
        json::loops(c),
        json::quote(o),
        json::tris(t)
    )
}

/// the record of a case whose process died or hung
pub fn dead(args: &Args, idx: u64, how: &str) -> String {
    if args.mode == "loader" {
        return format!(
            "{{\"id\":{idx},\"ld\":[{{\"k\":\"file\",\"n\":[],\"o\":{},\"p\":[],\"e\":[],\"to\":\"none\",\"t\":[]}}]}}",
            json::quote(how)
        );
    }
    if args.mode == "api" {
        return format!("{{\"id\":{idx},\"ev\":[{{\"c\":[0],\"o\":{},\"r\":[]}}]}}", json::quote(how));
    }
    if args.mode == "big" || args.mode == "part" || (args.mode == "store" && args.kv.contains_key("most")) {
        let g = crate::big::gen(args.get("seed", 1), idx, args.get("most", 100_000), cfg!(feature = "f32"));
        let s = crate::big::record(&g, idx, how, &[]);
        return match args.mode.as_str() {
            "big" => s,
            "store" => s.replacen("{", "{\"sn\":[],", 1),
            _ => s.replacen("{", "{\"h\":[[0,0],[1,0]],\"ob\":0,\"nx\":[0,0],\"r\":[],\"ev\":[],", 1),
        };
    }
    let s = match case(args, idx) {
        Some(c) => result_json(&c, idx, how, &[]),
        None => format!("{{\"id\":{idx},\"k\":0,\"p\":[],\"l\":[],\"o\":{},\"t\":[]}}", json::quote(how)),
    };
    match args.mode.as_str() {
        "trace" => s.replacen("{", "{\"ev\":[],\"ob\":0,\"h\":[[0,0],[1,0]],\"r\":[],", 1),
        "variants" => s.replacen("{", "{\"v\":[],", 1),
        "store" => s.replacen("{", "{\"sn\":[],", 1),
        _ => s,
    }
}
