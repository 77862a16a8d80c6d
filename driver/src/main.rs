//! Drives the real library and records what it does, for TLC to judge.
//!
//!   drv MODE --seed S --from A --to B --level L --sample K --out FILE [--scaled] [--timeout MS]
//!
//! Every case runs in a child process: a panic, an abort, a hang or a run-away allocation of the
//! code under test is an outcome of that case, not the end of the run.
mod api;
mod big;
mod gen;
mod geom;
mod json;
mod loading;
mod modes;
mod nested;
mod screen;
#[cfg(feature = "store")]
mod store;
#[cfg(feature = "trace")]
mod trace;
mod variants;
#[cfg(feature = "trace")]
mod watch;

use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::sync::mpsc;
use std::time::Duration;

pub struct Args {
    pub mode: String,
    pub kv: HashMap<String, String>,
}

impl Args {
    pub fn get<T: std::str::FromStr>(&self, k: &str, d: T) -> T {
        self.kv.get(k).and_then(|v| v.parse().ok()).unwrap_or(d)
    }
}

fn parse() -> Args {
    let mut it = std::env::args().skip(1);
    let mode = it.next().expect("mode");
    let mut kv = HashMap::new();
    while let Some(k) = it.next() {
        let k = k.trim_start_matches("--").to_string();
        let v = it.next().unwrap_or_default();
        kv.insert(k, v);
    }
    Args { mode, kv }
}

fn main() {
    let args = parse();
    if std::env::var("DRV_CHILD").is_ok() {
        child(&args);
    } else {
        parent(&args);
    }
}

thread_local!(static LAST: std::cell::RefCell<String> = Default::default());

/// Runs f; a panic becomes Err(message with location)
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| LAST.with(|l| l.borrow().clone()))
}

fn child(args: &Args) {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or(i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let msg: String = msg.chars().take(120).collect();
        LAST.with(|l| *l.borrow_mut() = format!("{} {}", loc, msg));
    }));
    let from: u64 = std::env::var("DRV_START").unwrap().parse().unwrap();
    let to: u64 = args.get("to", 0);
    let so = std::io::stdout();
    let mut so = std::io::BufWriter::with_capacity(1 << 16, so.lock());
    let mut last_flush = std::time::Instant::now();
    for i in from..to {
        // B: begin (flushed often enough for the parent to see where we are)
        writeln!(so, "B {}", i).unwrap();
        so.flush().unwrap();
        if let Some(r) = modes::run(args, i) {
            writeln!(so, "{} {}", if r.suspicious { "S" } else { "R" }, r.json).unwrap();
            if last_flush.elapsed() > Duration::from_millis(100) {
                so.flush().unwrap();
                last_flush = std::time::Instant::now();
            }
        }
    }
    writeln!(so, "E").unwrap();
    so.flush().unwrap();
}

fn parent(args: &Args) {
    let from: u64 = args.get("from", 0);
    let to: u64 = args.get("to", 0);
    let sample: usize = args.get("sample", 1000);
    let maxsus: usize = args.get("maxsus", 200);
    let timeout = Duration::from_millis(args.get("timeout", 10_000));
    let budget = Duration::from_millis(args.get("budget", 3_600_000));
    let begun = std::time::Instant::now();
    let out = args.kv.get("out").expect("--out");
    let exe = std::env::current_exe().unwrap();
    let mut start = from;
    let mut sus: Vec<String> = vec![];
    let mut norm: Vec<String> = vec![];
    let (mut executed, mut nsus, mut bad, mut hangs) = (0u64, 0u64, 0u64, 0u64);
    let mut rng = geom::Rng::new(args.get("seed", 1u64) ^ from);
    let mut seen_norm = 0u64;
    'outer: while start < to {
        // limit the address space: run-away allocation of the code under test must not take the machine
        let mut cmd = std::process::Command::new("/bin/sh");
        cmd.arg("-c").arg("ulimit -v 3000000; exec \"$@\"").arg("sh").arg(&exe).args(std::env::args().skip(1));
        cmd.env("DRV_CHILD", "1").env("DRV_START", start.to_string());
        cmd.stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).stdin(std::process::Stdio::null());
        let mut ch = cmd.spawn().expect("spawn");
        let so = ch.stdout.take().unwrap();
        let (tx, rx) = mpsc::sync_channel::<String>(10_000);
        std::thread::spawn(move || {
            for l in std::io::BufReader::with_capacity(1 << 16, so).lines() {
                match l {
                    Ok(l) => {
                        if tx.send(l).is_err() {
                            break;
                        }
                    }
                    Err(_) => break,
                }
            }
        });
        let mut cur = start;
        let mut ended = false;
        let mut how = "crash";
        loop {
            match rx.recv_timeout(timeout) {
                Ok(l) => {
                    if let Some(x) = l.strip_prefix("B ") {
                        cur = x.parse().unwrap();
                        executed += 1;
                        if begun.elapsed() > budget {
                            ch.kill().ok();
                            ch.wait().ok();
                            break 'outer;
                        }
                    } else if let Some(x) = l.strip_prefix("S ") {
                        nsus += 1;
                        if sus.len() < maxsus {
                            sus.push(x.to_string());
                        }
                    } else if let Some(x) = l.strip_prefix("R ") {
                        // reservoir sample of the rest
                        seen_norm += 1;
                        if norm.len() < sample {
                            norm.push(x.to_string());
                        } else {
                            let j = rng.below(seen_norm) as usize;
                            if j < sample {
                                norm[j] = x.to_string();
                            }
                        }
                    } else if l == "E" {
                        ended = true;
                    }
                }
                Err(mpsc::RecvTimeoutError::Timeout) => {
                    how = "hang";
                    break;
                }
                Err(_) => break,
            }
        }
        ch.kill().ok();
        ch.wait().ok();
        if ended {
            break;
        }
        bad += 1;
        hangs += (how == "hang") as u64;
        sus.push(modes::dead(args, cur, how));
        start = cur + 1;
        if bad > 25 || hangs > 2 {
            break;
        }
    }
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).expect("create"));
    for l in sus.iter().chain(norm.iter()) {
        writeln!(f, "{}", l).unwrap();
    }
    println!(
        "{{\"executed\":{},\"suspicious\":{},\"dead\":{},\"recorded\":{}}}",
        executed,
        nsus,
        bad,
        sus.len() + norm.len()
    );
}
