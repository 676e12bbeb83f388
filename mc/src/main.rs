#![allow(clippy::all)]
mod alloc;
mod explore;
mod props;
mod reg;
mod stores;
mod tok;
mod world;
use explore::*;
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn nums(v: &[u16]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}

fn main() {
    install_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned());
    let thorough = opt("--tier").as_deref() == Some("thorough");
    let props = props::all();
    let find = |id: &str| -> &dyn Prop {
        match props.iter().find(|p| p.id() == id) {
            Some(p) => p.as_ref(),
            None => {
                eprintln!("unknown property {id}");
                std::process::exit(2);
            }
        }
    };
    match a.first().map(|s| s.as_str()) {
        Some("legs") => {
            for l in find(&a[1]).legs(thorough) {
                println!("{}", l.name());
            }
        }
        Some("tour") => {
            let n = opt("--items").unwrap().parse().unwrap();
            let len = opt("--len").unwrap().parse().unwrap();
            for w in tours(n, len) {
                println!("{w}");
            }
        }
        Some("run") => {
            let p = find(&a[1]);
            let legs = p.legs(thorough);
            let leg: usize = opt("--leg").unwrap().parse().unwrap();
            let threads = opt("--threads").map(|x| x.parse().unwrap()).unwrap_or(8);
            let deadline = opt("--deadline").map(|x| x.parse().unwrap()).unwrap_or(600.0);
            let rep = run(p, &legs[leg], &Params { thorough, threads, deadline, slots: opt("--slots") });
            let mut o = String::new();
            let _ = write!(
                o,
                "{{\"leg\":{},\"order\":{},\"states\":{},\"transitions\":{},\"complete\":{},\"depth\":{},\"note\":{},\"wall\":{:.3},\"error\":{},\"counts\":{{{}}},\"samples\":[{}],\"found\":[{}]}}",
                js(&rep.leg),
                raw_btree::M,
                rep.states,
                rep.transitions,
                rep.complete,
                rep.depth,
                js(&rep.note),
                rep.wall,
                rep.harness_error.as_ref().map(|e| js(e)).unwrap_or("null".into()),
                rep.counts.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(","),
                rep.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
                rep.found
                    .iter()
                    .take(20)
                    .map(|f| format!(
                        "{{\"kind\":{},\"msg\":{},\"label\":{},\"path\":{},\"unit\":{},\"broken\":{},\"case\":{}}}",
                        js(&format!("{:?}", f.kind)),
                        js(&f.msg),
                        js(&f.label),
                        js(&world::path_text(&f.unit)),
                        nums(&f.unit),
                        f.broken,
                        f.case
                    ))
                    .collect::<Vec<_>>()
                    .join(",")
            );
            println!("{o}");
        }
        Some("replay") => {
            // mc replay ID --tier T --leg K --unit "1 2 3" --case N [--broken]
            let p = find(&a[1]);
            let legs = p.legs(thorough);
            let leg: usize = opt("--leg").unwrap().parse().unwrap();
            let unit: Vec<u16> = opt("--unit").unwrap_or_default().split_whitespace().map(|x| x.parse().unwrap()).collect();
            let case = opt("--case").map(|x| x.parse().unwrap());
            let broken = a.iter().any(|x| x == "--broken");
            let ctx = replay(p, &legs[leg], thorough, &unit, broken, case);
            println!("history: {}", world::path_text(&unit));
            for f in &ctx.found {
                println!("VIOLATED: case {} ({}): {:?}: {}", f.case, f.label, f.kind, f.msg);
            }
            if let Some(e) = ctx.harness_error {
                println!("harness error: {e}");
                std::process::exit(2);
            }
            std::process::exit(if ctx.found.is_empty() { 0 } else { 1 });
        }
        _ => {
            eprintln!("usage: mc legs|run|replay ...");
            std::process::exit(2);
        }
    }
}
