//! vharness SCRIPT OUT PROGRESS [START]
//!
//! SCRIPT has one session per line: a JSON array of commands. Each is executed
//! on the real library and what it did is appended to OUT as one event per
//! line. PROGRESS holds the position reached, for the caller to find the
//! command that ended the process. START skips that many sessions.
//!
//! Commands with a field `th` are of several threads: those with the same `g`
//! are made at the same time, and each thread's events are a session of its own.
//!
//! An object {"repeat": times, "ms": m, "sessions": [..]} has each session executed so many times, for at
//! most m milliseconds; the different answers make up the trace.
//! An object {"hammer": ms, "threads": n, "sessions": [..]} has n threads execute
//! the sessions again and again, for that long. Every trace that a session left
//! is written once. The process then ends with 5, for the caller to start anew.
mod exec;
mod flow;
mod rpc;
mod structs;
mod value;

use std::collections::BTreeSet;
use std::io::{BufRead, Write};
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Mutex};
use std::time::{Duration, Instant};

use serde_json::Value;

const STACK: usize = 8 << 20;       // of an ordinary main thread

/// Executes one command and gives its event as a line.
fn step(st: &mut exec::State, c: &Value, n: usize, head: &mut u8) -> Option<String> {
    // a panic that no call is blamed for: the library gave what no caller can use
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| st.exec(c)));
    let Ok(r) = r else { std::process::exit(4) };
    r.map(|mut e| {
        e["h"] = (*head).into();
        e["n"] = (n as u64).into();
        *head = 0;
        let mut s = serde_json::to_string(&e).unwrap();
        s.push('\n');
        s
    })
}

/// Executes the groups of a session of several threads.
fn together(cmds: &[Value], n: usize, tick: &Arc<AtomicU64>) -> String {
    let num = |c: &Value, k: &str| c[k].as_u64().expect("number");
    let threads: BTreeSet<u64> = cmds.iter().map(|c| num(c, "th")).collect();
    let groups = cmds.iter().map(|c| num(c, "g")).max().unwrap_or(0);
    let gate = Barrier::new(threads.len());
    std::thread::scope(|s| {
        let ts: Vec<_> = threads
            .iter()
            .map(|&me| {
                let gate = &gate;
                std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, move || {
                    let (mut st, mut head, mut out) = (exec::State::default(), 1, String::new());
                    for g in 1..=groups {
                        gate.wait();
                        for c in cmds.iter().filter(|c| num(c, "th") == me && num(c, "g") == g) {
                            out.extend(step(&mut st, c, n, &mut head));
                        }
                        tick.fetch_add(1, Ordering::SeqCst);
                    }
                    out
                })
            })
            .collect();
        ts.into_iter().map(|t| t.expect("thread").join().expect("thread")).collect()
    })
}

/// Executes the sessions again and again in several threads.
fn hammer(h: &Value, n: usize, tick: &Arc<AtomicU64>) -> String {
    let sessions = h["sessions"].as_array().expect("sessions");
    let threads = h["threads"].as_u64().expect("threads") as usize;
    let end = Duration::from_millis(h["hammer"].as_u64().expect("ms"));
    let seen: Vec<Mutex<BTreeSet<String>>> = sessions.iter().map(|_| Mutex::default()).collect();
    let gate = Barrier::new(threads);
    std::thread::scope(|s| {
        for me in 0..threads {
            let (seen, gate) = (&seen, &gate);
            let run = move || {
                gate.wait();
                let t0 = Instant::now();
                for round in 0.. {
                    // the first rounds all begin with the same session, the later ones with different ones
                    let shift = if round < 2 { 0 } else { me * (round + 1) };
                    for i in 0..sessions.len() {
                        let k = (i + shift) % sessions.len();
                        let k = if round % 4 == 3 { sessions.len() - 1 - k } else { k };
                        let (mut st, mut head, mut out) = (exec::State::default(), 1, String::new());
                        for c in sessions[k].as_array().expect("session") {
                            out.extend(step(&mut st, c, n, &mut head));
                            tick.fetch_add(1, Ordering::SeqCst);
                        }
                        let mut seen = seen[k].lock().unwrap();
                        if seen.len() < 20 {
                            seen.insert(out);
                        }
                        if round >= 2 && t0.elapsed() > end {
                            return;
                        }
                    }
                }
            };
            std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, run).expect("thread");
        }
    });
    seen.into_iter().flat_map(|s| s.into_inner().unwrap()).collect()
}

/// Executes each of the sessions again and again, as often as is asked for or until its time is over.
fn repeat(h: &Value, n: usize, tick: &Arc<AtomicU64>) -> String {
    let sessions = h["sessions"].as_array().expect("sessions");
    let times = h["repeat"].as_u64().expect("times");
    let end = Duration::from_millis(h["ms"].as_u64().expect("ms"));
    let seen: Vec<Mutex<BTreeSet<String>>> = sessions.iter().map(|_| Mutex::default()).collect();
    let next = AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..8 {
            let (seen, next) = (&seen, &next);
            let run = move || loop {
                let k = next.fetch_add(1, Ordering::SeqCst) as usize;
                let Some(session) = sessions.get(k) else { return };
                let t0 = Instant::now();
                for _ in 0..times {
                    let (mut st, mut head, mut out) = (exec::State::default(), 1, String::new());
                    for c in session.as_array().expect("session") {
                        out.extend(step(&mut st, c, n, &mut head));
                        tick.fetch_add(1, Ordering::SeqCst);
                    }
                    let mut seen = seen[k].lock().unwrap();
                    if seen.len() < 5 && !seen.contains(&out) {
                        seen.insert(out);
                    }
                    if t0.elapsed() > end {
                        break;
                    }
                }
            };
            std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, run).expect("thread");
        }
    });
    seen.into_iter().flat_map(|s| s.into_inner().unwrap()).collect()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let start: u64 = a.get(4).map_or(0, |s| s.parse().unwrap());
    let (script, outp, prog) = (a[1].clone(), a[2].clone(), a[3].clone());
    std::panic::set_hook(Box::new(|i| {
        if std::thread::current().name() == Some("driver") && std::env::var("VH_TRACE").is_ok() {
            eprintln!("{i}");
        }
    }));
    let tick = Arc::new(AtomicU64::new(0));
    let t2 = tick.clone();
    let limit: u64 = std::env::var("VH_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(40);
    let t = std::thread::Builder::new().name("driver".into()).stack_size(STACK).spawn(move || {
        let inp = std::io::BufReader::new(std::fs::File::open(script).expect("script"));
        let mut out = std::fs::OpenOptions::new().append(true).create(true).open(outp).expect("out");
        let prog = std::fs::OpenOptions::new().write(true).create(true).truncate(false).open(prog).expect("progress");
        let at = |n: usize, i: usize, head: u8| {
            let mut pos = (n as u64).to_le_bytes().to_vec();
            pos.extend((i as u64).to_le_bytes());
            pos.push(head);
            prog.write_at(&pos, 0).expect("progress");
        };
        for (n, line) in inp.lines().enumerate() {
            if (n as u64) < start {
                continue;
            }
            let line = line.expect("line");
            let mut de = serde_json::Deserializer::from_str(&line);
            de.disable_recursion_limit();
            let session: Value = serde::Deserialize::deserialize(&mut de).expect("json");
            if session.is_object() {
                at(n, 0, 1);
                let run = if session.get("repeat").is_some() { repeat } else { hammer };
                out.write_all(run(&session, n, &t2).as_bytes()).expect("write");
                std::process::exit(5);
            }
            let cmds = session.as_array().expect("session");
            if cmds.iter().any(|c| c.get("th").is_some()) {
                at(n, 0, 1);
                out.write_all(together(cmds, n, &t2).as_bytes()).expect("write");
                continue;
            }
            let mut st = exec::State::default();
            let mut head = 1;
            for (i, c) in cmds.iter().enumerate() {
                at(n, i, head);
                t2.fetch_add(1, Ordering::SeqCst);
                if let Some(s) = step(&mut st, c, n, &mut head) {
                    out.write_all(s.as_bytes()).expect("write");
                }
            }
        }
    });
    let t = t.expect("thread");
    let mut last = (0, 0);
    while !t.is_finished() {
        std::thread::sleep(Duration::from_millis(50));
        let now = tick.load(Ordering::SeqCst);
        last = if now == last.0 { (now, last.1 + 1) } else { (now, 0) };
        if last.1 * 50 > limit * 1000 {
            std::process::exit(3);
        }
    }
    if t.join().is_err() {
        std::process::exit(2);
    }
}
