mod gen;
mod proj;
mod purity;
mod record;
mod replay;
mod rewrite;
mod val;

use proj::Kind;

fn kind(s: &str) -> Kind {
    match s {
        "obj" => Kind::Obj,
        "mtl" => Kind::Mtl,
        _ => panic!("kind {s}"),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(String::as_str).unwrap_or("");
    let code = match arg(1) {
        // replay PROP KIND DIR full|total FILES...
        "replay" => replay::run(arg(2), kind(arg(3)), &a[6..], arg(4), arg(5) == "total"),
        // count KIND FILES..., case KIND N|richest FILES...
        "count" => replay::count(&a[3..]),
        "case" => replay::case(kind(arg(2)), arg(3), &a[4..]),
        // purity PROP DIR FRESH ROUNDS FILES...
        "purity" => purity::run(arg(2), arg(3), arg(4).parse().unwrap_or(0), arg(5).parse().unwrap_or(0), &a[6..]),
        "purity-one" => purity::one(),
        // show KIND FILE: the result of the text in FILE
        "show" => std::fs::read_to_string(arg(3)).map_err(|e| e.to_string()).map(|t| {
            println!("{}", serde_json::to_string_pretty(&proj::load(kind(arg(2)), &t, &proj::all_parts(kind(arg(2)))).json()).unwrap());
            0
        }),
        // record DIR KIND PROFILE COUNT LINES EVERY SEED PARTS...
        "record" => {
            let n = |i: usize| arg(i).parse::<usize>().expect("number");
            let plan = record::Plan {
                kind: kind(arg(3)),
                profile: arg(4).into(),
                count: n(5),
                lines: n(6),
                every: n(7),
                seed: n(8) as u64,
                parts: a[9..].to_vec(),
            };
            record::run(arg(2), &plan)
        }
        _ => Err("usage: conform replay|show".into()),
    };
    match code {
        Ok(c) => std::process::exit(c),
        Err(e) => {
            eprintln!("conform: {e}");
            std::process::exit(2)
        }
    }
}
