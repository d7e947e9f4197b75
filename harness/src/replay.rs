//! Replays behaviours printed by TLC into the library and compares.
use crate::proj::{all_parts, load, Kind};
use crate::record::patience;
use crate::val::{decode, differs, V};
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::io::{BufRead, BufReader};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Case {
    pub text: String,
    pub want: Value,
}

/// The cases in a TLC output file: lines that are quoted JSON.
pub fn cases(file: &str) -> Result<Vec<Case>, String> {
    let f = std::fs::File::open(file).map_err(|e| format!("{file}: {e}"))?;
    let mut lines: Vec<String> = vec![];
    let mut out = vec![];
    let mut pending = vec![];
    for l in BufReader::new(f).lines() {
        let l = l.map_err(|e| e.to_string())?;
        if !l.starts_with("\"{") {
            continue;
        }
        let inner: String = serde_json::from_str(&l).map_err(|e| format!("{file}: {e}: {l}"))?;
        let v: Value = serde_json::from_str(&inner).map_err(|e| format!("{file}: {e}: {inner}"))?;
        if let Some(t) = v.get("lines").and_then(Value::as_array) {
            lines = t.iter().map(|x| decode(x.as_str().unwrap())).collect();
        } else if let Some(want) = v.get("e") {
            if let Some(x) = v.get("x").and_then(Value::as_str) {
                out.push(Case { text: decode(x), want: want.clone() });
            } else if let Some(ls) = v.get("ls").and_then(Value::as_array) {
                out.push(Case { text: ls.iter().map(|x| decode(x.as_str().unwrap())).collect(), want: want.clone() });
            } else if let Some(h) = v.get("h").and_then(Value::as_array) {
                pending.push((h.iter().map(|i| i.as_u64().unwrap() as usize).collect::<Vec<_>>(), want.clone()));
            }
        }
    }
    for (h, want) in pending {
        let mut text = String::new();
        for i in h {
            text += lines.get(i - 1).ok_or("no line table")?;
            text.push('\n');
        }
        out.push(Case { text, want });
    }
    Ok(out)
}

/// What is wrong with the real result of this text, if anything.
pub fn judge(kind: Kind, text: &str, want: &Value, total_only: bool) -> Option<String> {
    let parts = match (kind, want) {
        (Kind::Obj, Value::Object(m)) if m.get("ok") == Some(&Value::Bool(true)) => m.keys().cloned().collect(),
        _ => all_parts(kind),
    };
    let got = match catch_unwind(AssertUnwindSafe(|| load(kind, text, &parts))) {
        Ok(v) => v,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            return Some(format!("panicked: {m}"));
        }
    };
    if total_only {
        return None;
    }
    let want_ok = want.get("ok") != Some(&Value::Bool(false));
    let got_ok = got.get("ok") == Some(&V::B(true));
    match (want_ok, got_ok) {
        (true, false) => Some("expected a result, got an error".into()),
        (false, true) => Some("expected an error, got a result".into()),
        (false, false) => {
            let want = want.get("why").and_then(Value::as_str).unwrap_or("parse");
            match got.get("why") {
                Some(V::S(why)) if why == want || (want == "either" && ["parse", "newmtl"].contains(&why.as_str())) => None,
                why => Some(format!("expected the error {want}, got {why:?}")),
            }
        }
        (true, true) => {
            let partial: &[usize] = if kind == Kind::Mtl { &[2] } else { &[] };
            differs(want, &got, &mut String::new(), partial, 0)
        }
    }
}

pub fn violation(dir: &str, prop: &str, n: usize, kind: Kind, text: &str, want: &Value, what: &str) -> String {
    let path = format!("{dir}/{prop}-{n}.json");
    let body = json!({"property": prop, "kind": format!("{kind:?}"), "text": text, "expected": want, "difference": what});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
    path
}

pub fn run(prop: &str, kind: Kind, files: &[String], dir: &str, total_only: bool) -> Result<i32, String> {
    let mut all = vec![];
    for f in files {
        all.extend(cases(f)?);
    }
    if let Some((a, b)) = std::env::var("CASES").ok().and_then(|r| {
        let (a, b) = r.split_once('-')?;
        Some((a.parse::<usize>().ok()?, b.parse::<usize>().ok()?))
    }) {
        all = all.drain(a.min(all.len())..b.min(all.len())).collect();
    }
    let total = all.len();
    let mut seen = std::collections::HashSet::new();
    let mut nontrivial = 0;
    let mut refusals = 0;
    for c in &all {
        let mut h = DefaultHasher::new();
        c.text.hash(&mut h);
        if seen.insert(h.finish()) && !c.text.trim().is_empty() {
            nontrivial += 1;
        }
        if c.want.get("ok") == Some(&Value::Bool(false)) {
            refusals += 1;
        }
    }
    drop(seen);
    let next = AtomicUsize::new(0);
    let bad: Mutex<Vec<(usize, String)>> = Mutex::new(vec![]);
    let n_threads = 8;
    // Loading takes less than 32 KB, whatever the size of the file.
    let stack = std::env::var("STACK_KB").ok().and_then(|s| s.parse::<usize>().ok()).unwrap_or(192) << 10;
    let start = Instant::now();
    // (case + 1, milliseconds since start) each thread is working on
    let busy: Vec<(AtomicUsize, AtomicU64)> = (0..n_threads).map(|_| Default::default()).collect();
    let done = AtomicUsize::new(0);
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::scope(|s| {
        for t in 0..n_threads {
            let (next, bad, busy, done, all) = (&next, &bad, &busy, &done, &all);
            std::thread::Builder::new()
                .stack_size(stack)
                .spawn_scoped(s, move || {
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= all.len() || bad.lock().unwrap().len() >= 20 {
                            break;
                        }
                        busy[t].1.store(start.elapsed().as_millis() as u64, Ordering::Relaxed);
                        busy[t].0.store(i + 1, Ordering::Release);
                        if let Some(what) = judge(kind, &all[i].text, &all[i].want, total_only) {
                            bad.lock().unwrap().push((i, what));
                        }
                        busy[t].0.store(0, Ordering::Release);
                    }
                    done.fetch_add(1, Ordering::Release);
                })
                .expect("thread");
        }
        let (busy, done, all) = (&busy, &done, &all);
        s.spawn(move || {
            while done.load(Ordering::Acquire) < n_threads {
                std::thread::sleep(Duration::from_millis(20));
                for b in busy {
                    let i = b.0.load(Ordering::Acquire);
                    let since = b.1.load(Ordering::Relaxed);
                    if i > 0 && start.elapsed().as_millis() as u64 > since + patience(&all[i - 1].text).as_millis() as u64 && b.0.load(Ordering::Acquire) == i {
                        let c = &all[i - 1];
                        let p = violation(dir, prop, 0, kind, &c.text, &c.want, "no result in the time given");
                        println!("VIOLATION property={prop} replay={p}");
                        println!("SUMMARY {}", json!({"cases": total, "distinct": nontrivial, "violations": 1, "samples": []}));
                        std::process::exit(1);
                    }
                }
            }
        });
    });
    let mut bad = bad.into_inner().unwrap();
    bad.sort_by_key(|(i, _)| (all[*i].text.len(), *i));
    for (n, (i, what)) in bad.iter().enumerate().take(5) {
        let p = violation(dir, prop, n, kind, &all[*i].text, &all[*i].want, what);
        println!("VIOLATION property={prop} replay={p}");
        println!("  text {:?}: {what}", all[*i].text.chars().take(400).collect::<String>());
    }
    let samples: Vec<Value> = all
        .iter()
        .step_by((total / 3).max(1))
        .take(4)
        .map(|c| json!({"text": c.text.chars().take(300).collect::<String>(), "expected": c.want}))
        .collect();
    println!(
        "SUMMARY {}",
        json!({"cases": total, "distinct": nontrivial, "refusals": refusals, "violations": bad.len(), "samples": samples})
    );
    Ok(if bad.is_empty() { 0 } else { 1 })
}

/// How many cases there are.
pub fn count(files: &[String]) -> Result<i32, String> {
    let mut n = 0;
    for f in files {
        n += cases(f)?.len();
    }
    println!("{n}");
    Ok(0)
}

/// One case: the given one, or one that expects a large result.
pub fn case(kind: Kind, which: &str, files: &[String]) -> Result<i32, String> {
    let mut all = vec![];
    for f in files {
        all.extend(cases(f)?);
    }
    let step = (all.len() / 2000).max(1);
    let n = match which.parse::<usize>() {
        Ok(n) => n,
        Err(_) => (0..all.len())
            .step_by(step)
            .filter(|i| all[*i].want.get("ok") != Some(&Value::Bool(false)))
            .max_by_key(|i| all[*i].want.to_string().len())
            .unwrap_or(0),
    };
    let c = all.get(n).ok_or("no such case")?;
    println!(
        "{}",
        json!({"kind": format!("{kind:?}"), "text": c.text, "encoded": crate::val::encode(&c.text), "expected": c.want})
    );
    Ok(0)
}
