//! Minimal JSON writing.
use crate::gen::Case;
use crate::geom::P;

pub fn ids(v: &[usize]) -> String {
    let s: Vec<String> = v.iter().map(|i| i.to_string()).collect();
    format!("[{}]", s.join(","))
}
pub fn list(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}
pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 || (c as u32) > 126 => o.push_str(&format!("\\u{:04x}", (c as u32).min(0xffff))),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
/// A coordinate: an integer when TLC can hold it, else the decimal string of the double
pub fn num(v: f64) -> String {
    if v == v.trunc() && v.abs() <= 1e9 {
        format!("{}", v as i64)
    } else {
        format!("\"{:e}\"", v)
    }
}
pub fn xy(x: f64, y: f64) -> String {
    format!("[{},{}]", num(x), num(y))
}
pub fn coord(p: P, exp: i32) -> (f64, f64) {
    let s = 2f64.powi(exp);
    (p.0 as f64 * s, p.1 as f64 * s)
}
pub fn points(c: &Case) -> String {
    let v: Vec<String> = c
        .points()
        .into_iter()
        .map(|p| {
            let (x, y) = coord(p, c.exp);
            xy(x, y)
        })
        .collect();
    list(&v)
}
pub fn loops(c: &Case) -> String {
    let v: Vec<String> = c.loops().iter().map(|l| ids(&l.iter().map(|i| i + 1).collect::<Vec<_>>())).collect();
    list(&v)
}
/// 0 stands for an id that is out of any reasonable range
pub fn one_based(i: usize) -> usize {
    if i < 1 << 28 {
        i + 1
    } else {
        0
    }
}
pub fn tris(ts: &[[usize; 3]]) -> String {
    let v: Vec<String> =
        ts.iter().map(|t| format!("[{},{},{}]", one_based(t[0]), one_based(t[1]), one_based(t[2]))).collect();
    list(&v)
}
