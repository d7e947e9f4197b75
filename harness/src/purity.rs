//! Runs the library along schedules of calls: several threads, overlapping
//! calls, histories with failures; every call has to give its text's answer.
use crate::proj::Kind;
use crate::replay::judge;
use crate::val::decode;
use serde_json::{json, Value};
use std::io::{BufRead, BufReader, Read, Write};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::mpsc::channel;
use std::sync::{Arc, Barrier, Mutex};

#[derive(Clone)]
pub struct Call {
    kind: Kind,
    text: String,
    want: Value,
}
type Schedule = Vec<(usize, usize)>;

fn objects(f: impl Read) -> Result<Vec<Value>, String> {
    let mut out = vec![];
    for l in BufReader::new(f).lines() {
        let l = l.map_err(|e| e.to_string())?;
        if l.starts_with("\"{") {
            let inner: String = serde_json::from_str(&l).map_err(|e| e.to_string())?;
            out.push(serde_json::from_str(&inner).map_err(|e| e.to_string())?);
        }
    }
    Ok(out)
}

fn understand(vs: &[Value]) -> (Vec<Call>, Vec<Schedule>) {
    let mut calls = vec![];
    let mut runs = vec![];
    for v in vs {
        if let Some(i) = v.get("call").and_then(Value::as_u64) {
            let text = v["ls"].as_array().unwrap().iter().map(|x| decode(x.as_str().unwrap())).collect();
            let kind = if v["kind"] == "obj" { Kind::Obj } else { Kind::Mtl };
            calls.push((i, Call { kind, text, want: v["e"].clone() }));
        } else if let Some(ev) = v.get("ev").and_then(Value::as_array) {
            let n = |x: &Value| x.as_u64().unwrap() as usize;
            runs.push(ev.iter().map(|e| (n(&e[0]), n(&e[1]))).collect());
        }
    }
    calls.sort_by_key(|(i, _)| *i);
    (calls.into_iter().map(|(_, c)| c).collect(), runs)
}

fn ask(c: &Call, buffer: &mut String) -> Option<String> {
    // The same memory for every call of a thread: an answer must not be
    // remembered by where its text lies.
    buffer.clear();
    buffer.push_str(&c.text);
    judge(c.kind, buffer, &c.want, false)
}

/// Runs one schedule on threads of its own; what is wrong, if anything.
fn follow(calls: &[Call], run: &Schedule) -> Option<String> {
    let threads = run.iter().map(|e| e.0).max().unwrap_or(0);
    std::thread::scope(|s| {
        let mut to = vec![];
        let mut back = vec![];
        for _ in 0..threads {
            let (tx, rx) = channel::<usize>();
            let (btx, brx) = channel();
            s.spawn(move || {
                let mut buffer = String::new();
                for x in rx {
                    let _ = btx.send(ask(&calls[x - 1], &mut buffer));
                }
            });
            to.push(tx);
            back.push(brx);
        }
        let mut wrong = None;
        for (i, (t, x)) in run.iter().enumerate() {
            if *x > 0 {
                to[t - 1].send(*x).expect("thread");
            } else if let Some(e) = back[t - 1].recv().expect("thread") {
                wrong.get_or_insert(format!("event {i} of {run:?}: {e}"));
            }
        }
        wrong
    })
}

fn tell(prop: &str, dir: &str, n: usize, calls: &[Call], run: &Value, what: &str) {
    let path = format!("{dir}/{prop}-purity-{n}.json");
    let texts: Vec<Value> =
        calls.iter().map(|c| json!({"kind": format!("{:?}", c.kind), "text": c.text, "expected": c.want})).collect();
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&json!({"property": prop, "calls": texts, "run": run, "difference": what})).unwrap());
    println!("VIOLATION property={prop} replay={path}");
    println!("  {}", what.chars().take(400).collect::<String>());
}

/// A child process: one schedule from standard input.
pub fn one() -> Result<i32, String> {
    std::panic::set_hook(Box::new(|_| {}));
    let (calls, runs) = understand(&objects(std::io::stdin())?);
    for r in runs {
        if let Some(e) = follow(&calls, &r) {
            println!("{e}");
            return Ok(1);
        }
    }
    Ok(0)
}

/// All schedules in this process, `fresh` of them also in processes of their
/// own, and `rounds` rounds of every text on many threads at once.
pub fn run(prop: &str, dir: &str, fresh: usize, rounds: usize, files: &[String]) -> Result<i32, String> {
    std::panic::set_hook(Box::new(|_| {}));
    let (mut total, mut n_calls, mut processes, mut stormed, mut bad) = (0, 0, 0, 0, 0);
    let mut samples = vec![];
    for f in files {
        let vs = objects(std::fs::File::open(f).map_err(|e| format!("{f}: {e}"))?)?;
        let (calls, runs) = understand(&vs);
        if calls.is_empty() || runs.is_empty() {
            return Err(format!("{f}: no schedules"));
        }
        samples.push(json!({"schedule": runs[runs.len() / 2], "first text": calls[0].text.chars().take(120).collect::<String>()}));
        for r in &runs {
            total += 1;
            n_calls += r.len() / 2;
            if let Some(e) = follow(&calls, r) {
                tell(prop, dir, bad, &calls, &json!(r), &e);
                bad += 1;
                if bad >= 3 {
                    break;
                }
            }
        }
        // In processes of their own.
        let table: String = vs
            .iter()
            .filter(|v| v.get("call").is_some())
            .map(|v| serde_json::to_string(&v.to_string()).unwrap() + "\n")
            .collect();
        let picked: Vec<&Schedule> = runs.iter().step_by((runs.len() / fresh.max(1)).max(1)).take(fresh).collect();
        let next = AtomicUsize::new(0);
        let found: Mutex<Vec<(usize, String)>> = Mutex::new(vec![]);
        let exe = std::env::current_exe().map_err(|e| e.to_string())?;
        std::thread::scope(|s| {
            for _ in 0..8 {
                s.spawn(|| loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= picked.len() {
                        break;
                    }
                    let ev = serde_json::to_string(&json!({"ev": picked[i]}).to_string()).unwrap();
                    let mut child = std::process::Command::new(&exe)
                        .arg("purity-one")
                        .stdin(std::process::Stdio::piped())
                        .stdout(std::process::Stdio::piped())
                        .spawn()
                        .expect("child");
                    let _ = child.stdin.take().unwrap().write_all((table.clone() + &ev + "\n").as_bytes());
                    let o = child.wait_with_output().expect("child");
                    if !o.status.success() {
                        found.lock().unwrap().push((i, format!("in a fresh process: {} {}", o.status, String::from_utf8_lossy(&o.stdout))));
                    }
                });
            }
        });
        processes += picked.len();
        for (i, e) in found.into_inner().unwrap().into_iter().take(3) {
            tell(prop, dir, bad, &calls, &json!(picked[i]), &e);
            bad += 1;
        }
        // All at once.
        let threads = 8;
        let gate = Arc::new(Barrier::new(threads));
        let found: Mutex<Vec<String>> = Mutex::new(vec![]);
        std::thread::scope(|s| {
            for t in 0..threads {
                let (gate, found, calls) = (gate.clone(), &found, &calls);
                s.spawn(move || {
                    let mut buffer = String::new();
                    gate.wait();
                    for r in 0..rounds {
                        for k in 0..calls.len() {
                            let c = &calls[(k * (1 + t % 3) + t + r) % calls.len()];
                            if let Some(e) = ask(c, &mut buffer) {
                                found.lock().unwrap().push(format!("thread {t}, round {r}: {e}"));
                                return;
                            }
                        }
                    }
                });
            }
        });
        stormed += threads * rounds * calls.len();
        if let Some(e) = found.into_inner().unwrap().first() {
            tell(prop, dir, bad, &calls, &json!("all texts on 8 threads at once"), e);
            bad += 1;
        }
    }
    println!(
        "SUMMARY {}",
        json!({"cases": total, "distinct": total, "calls": n_calls, "processes": processes, "concurrent_calls": stormed, "violations": bad, "samples": samples})
    );
    Ok(if bad == 0 { 0 } else { 1 })
}
