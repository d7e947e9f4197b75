//! Records what the library answers to growing random files, for validation
//! against the trace specification.
use crate::gen::{profile, Gen};
use crate::proj::{load, Kind};
use crate::rewrite::rewritten;
use crate::val::{bits, encode, encode_char, rec, V};
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// What is being loaded, and since when.
static LOADING: Mutex<Option<(Instant, String)>> = Mutex::new(None);

/// How long loading a text may take at most.
pub fn patience(text: &str) -> Duration {
    Duration::from_millis(60_000 + text.len() as u64 / 1024 * 20)
}

/// Ends the process, leaving the text behind, when the library does not return.
fn watch(dir: &str) {
    let file = format!("{dir}/running.txt");
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(200));
        if let Some((since, text)) = &*LOADING.lock().unwrap() {
            if since.elapsed() > patience(text) {
                let _ = std::fs::write(&file, text);
                std::process::exit(70);
            }
        }
    });
}

pub fn observe(kind: Kind, text: &str, parts: &[String]) -> V {
    *LOADING.lock().unwrap() = Some((Instant::now(), text.to_string()));
    let v = catch_unwind(AssertUnwindSafe(|| load(kind, text, parts)))
        .unwrap_or_else(|_| rec([("ok", V::B(false)), ("why", V::S("panic".into()))]));
    *LOADING.lock().unwrap() = None;
    v
}

/// Every piece of the text that is a number literal, with its value.
pub fn literals(text: &str, table: &mut BTreeMap<String, String>) {
    table.insert("1".into(), bits(1.0));
    let white = [' ', '\t', '\n', '\r'];
    for word in text.split(|c| white.contains(&c) || c == '#').chain(text.split(|c| white.contains(&c) || c == '#' || c == '/')) {
        if let Ok(x) = word.parse::<f32>() {
            table.insert(encode(word), bits(x));
        }
    }
}

/// A step of a trace: the characters it adds and, if asked, the answer.
pub fn step(added: &str, got: Option<V>) -> Value {
    let mut m = Map::new();
    m.insert("t".into(), Value::Array(added.chars().map(|c| Value::String(encode_char(c))).collect()));
    if let Some(g) = got {
        m.insert("got".into(), g.json());
    }
    Value::Object(m)
}

pub struct Plan {
    pub kind: Kind,
    pub profile: String,
    pub count: usize,
    pub lines: usize,
    pub every: usize, // how often the library is asked
    pub seed: u64,
    pub parts: Vec<String>,
}

/// A random file loaded and written down: the text, and the steps of its
/// trace, the last of which has to give the first answer again.
fn rewrite(plan: &Plan, g: &mut Gen) -> Option<(String, Vec<Value>)> {
    let lines = plan.lines / 2 + g.r.below(plan.lines / 2 + 1);
    let first: String = (0..lines.max(1)).map(|i| g.step(i == 0, false)).collect();
    let same = observe(plan.kind, &first, &plan.parts);
    let written = catch_unwind(AssertUnwindSafe(|| rewritten(plan.kind, &first, &mut g.r))).ok()??;
    let text = written.concat();
    let got = observe(plan.kind, &text, &plan.parts);
    let (last, rest) = written.split_last()?;
    let mut steps: Vec<Value> = rest.iter().map(|l| step(l, None)).collect();
    let mut s = step(last, Some(got));
    s.as_object_mut().unwrap().insert("same".into(), same.json());
    steps.push(s);
    Some((text, steps))
}

pub fn run(dir: &str, plan: &Plan) -> Result<i32, String> {
    std::panic::set_hook(Box::new(|_| {}));
    watch(dir);
    // with it, what is loaded last is known even if loading it kills us
    let log = std::env::var_os("LOG_EVERY_TEXT").is_some();
    let p = profile(plan.kind, plan.profile.strip_prefix("rewritten").unwrap_or(&plan.profile));
    let io = |e: std::io::Error| e.to_string();
    let mut out = std::io::BufWriter::new(std::fs::File::create(format!("{dir}/traces.ndjson")).map_err(io)?);
    let mut texts = std::io::BufWriter::new(std::fs::File::create(format!("{dir}/texts.ndjson")).map_err(io)?);
    let mut table = BTreeMap::new();
    let (mut steps_n, mut answers, mut refused, mut written) = (0, 0, 0, 0);
    for n in 0..plan.count {
        let mut g = Gen::new(plan.kind, &p, plan.seed.wrapping_mul(1_000_003).wrapping_add(n as u64));
        if plan.profile.starts_with("rewritten") {
            match rewrite(plan, &mut g) {
                Some((text, steps)) => {
                    steps_n += steps.len();
                    answers += 2;
                    literals(&text, &mut table);
                    writeln!(out, "{}", json!({"n": n, "steps": steps})).map_err(io)?;
                    writeln!(texts, "{}", json!({"n": n, "text": text})).map_err(io)?;
                    written += 1;
                }
                None => refused += 1,
            }
            continue;
        }
        let mut text = String::new();
        let mut steps = vec![];
        let lines = plan.lines / 2 + g.r.below(plan.lines / 2 + 1);
        let mut failed = 0;
        for i in 0..lines.max(1) {
            let s = g.step(i == 0 && !(plan.profile == "bad" && n % 7 == 0), i * 10 > lines * 7);
            let s = if plan.profile == "mangled" && g.r.chance(if i * 10 > lines * 6 { 50 } else { 8 }) { g.mangle(&s) } else { s };
            text += &s;
            let last = i + 1 == lines.max(1) || failed >= 2;
            let got = if last || (i + 1) % plan.every == 0 {
                if log {
                    std::fs::write(format!("{dir}/running.txt"), &text).map_err(io)?;
                }
                let v = observe(plan.kind, &text, &plan.parts);
                answers += 1;
                if v.get("ok") != Some(&V::B(true)) {
                    refused += 1;
                    failed += 1;
                }
                Some(v)
            } else {
                None
            };
            steps.push(step(&s, got));
            steps_n += 1;
            if last {
                break;
            }
        }
        written += 1;
        literals(&text, &mut table);
        writeln!(out, "{}", json!({"n": n, "steps": steps})).map_err(io)?;
        writeln!(texts, "{}", json!({"n": n, "text": text})).map_err(io)?;
    }
    std::fs::write(format!("{dir}/literals.json"), serde_json::to_string(&table).unwrap()).map_err(io)?;
    println!("SUMMARY {}", json!({"traces": written, "steps": steps_n, "answers": answers, "refused": refused, "literals": table.len()}));
    Ok(0)
}
