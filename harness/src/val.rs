//! Observable results as plain values, their JSON form for the trace
//! specification, and their comparison with what the specification expects.
use serde_json::Value;
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    B(bool),
    I(i64),
    N(f32),
    S(String),
    L(Vec<V>),
    M(BTreeMap<String, V>),
}

pub fn rec<const K: usize>(fields: [(&str, V); K]) -> V {
    V::M(fields.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

pub fn opt(v: Option<V>) -> V {
    V::L(v.into_iter().collect())
}

/// One character as the specification writes it.
pub fn encode_char(c: char) -> String {
    match c {
        '{' | '"' | '\\' => format!("{{{:02X}}}", c as u32),
        ' '..='~' => c.to_string(),
        _ => format!("{{{:02X}}}", c as u32),
    }
}

pub fn encode(s: &str) -> String {
    s.chars().map(encode_char).collect()
}

pub fn decode(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '{' {
            let hex: String = it.by_ref().take_while(|c| *c != '}').collect();
            let n = u32::from_str_radix(&hex, 16).expect("hex code point");
            out.push(char::from_u32(n).expect("scalar value"));
        } else {
            out.push(c);
        }
    }
    out
}

pub fn bits(f: f32) -> String {
    format!("{:08x}", if f == 0.0 { 0 } else { f.to_bits() })
}

impl V {
    /// JSON for the trace specification: names encoded, numbers as bits.
    pub fn json(&self) -> Value {
        match self {
            V::B(b) => Value::Bool(*b),
            V::I(i) if i32::try_from(*i).is_ok() => Value::from(*i),
            V::I(i) => Value::String(format!("big {i}")),
            V::N(f) => Value::String(bits(*f)),
            V::S(s) => Value::String(encode(s)),
            V::L(l) => Value::Array(l.iter().map(V::json).collect()),
            V::M(m) => Value::Object(m.iter().map(|(k, v)| (encode(k), v.json())).collect()),
        }
    }

    pub fn get(&self, k: &str) -> Option<&V> {
        match self {
            V::M(m) => m.get(k),
            _ => None,
        }
    }
}

fn short(s: String) -> String {
    if s.chars().count() > 300 {
        s.chars().take(300).collect::<String>() + "..."
    } else {
        s
    }
}

/// Where the real value `got` differs from the expected one, if it does.
/// At depth `partial` (counted from the top) records of `got` may have fields
/// that are not expected; elsewhere the fields have to be the same.
pub fn differs(want: &Value, got: &V, path: &mut String, partial: &[usize], depth: usize) -> Option<String> {
    let fail = |path: &str, want: &Value, got: &V| {
        Some(short(format!("at {}: expected {}, got {:?}", if path.is_empty() { "/" } else { path }, want, got)))
    };
    match (want, got) {
        (Value::Bool(a), V::B(b)) if a == b => None,
        (Value::Number(a), V::I(b)) if a.as_i64() == Some(*b) => None,
        (Value::String(a), V::N(b)) => match a.parse::<f32>() {
            Ok(x) if x == *b => None,
            _ => fail(path, want, got),
        },
        (Value::String(a), V::S(b)) if decode(a) == *b => None,
        (Value::Array(a), V::L(b)) => {
            if a.len() != b.len() {
                return fail(path, want, got);
            }
            for (i, (x, y)) in a.iter().zip(b).enumerate() {
                let n = path.len();
                let _ = write!(path, "/{i}");
                if let Some(e) = differs(x, y, path, partial, depth + 1) {
                    return Some(e);
                }
                path.truncate(n);
            }
            None
        }
        (Value::Array(a), V::M(m)) if a.is_empty() && (m.is_empty() || partial.contains(&depth)) => None,
        (Value::Object(a), V::M(m)) => {
            if !partial.contains(&depth) && a.len() != m.len() {
                return fail(path, want, got);
            }
            for (k, x) in a {
                let key = decode(k);
                let n = path.len();
                let _ = write!(path, "/{key}");
                match m.get(&key) {
                    Some(y) => {
                        if let Some(e) = differs(x, y, path, partial, depth + 1) {
                            return Some(e);
                        }
                    }
                    None => return Some(short(format!("at {path}: expected {x}, got nothing (have {:?})", m.keys()))),
                }
                path.truncate(n);
            }
            None
        }
        _ => fail(path, want, got),
    }
}
