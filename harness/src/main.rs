//! Generated-input checks for the `rasp` library. See ../DESIGN.md.
//!
//!   rasp-verif check  <PROPERTY> --tier quick|thorough --seed N --out FILE
//!                     --replays DIR [--regressions DIR]
//!   rasp-verif replay <FILE>

mod engine;
#[macro_use]
mod gen;
mod p_analysis;
mod p_delay;
mod p_filter;
mod p_proc;
mod p_util;
#[macro_use]
mod p_window;
mod procs;
mod refs;

use engine::*;
use serde_json::{json, Value};

type Check = (&'static str, fn(&mut Ctx));

const CHECKS: &[Check] = &[
    ("C01", p_delay::c01),
    ("C02", p_delay::c02),
    ("C03", p_delay::c03),
    ("C04", p_delay::c04),
    ("C05", p_delay::c05),
    ("C06", p_proc::c06),
    ("C07", p_proc::c07),
    ("C08", p_proc::c08),
    ("C09", p_filter::c09),
    ("C10", p_filter::c10),
    ("C11", p_filter::c11),
    ("C12", p_filter::c12),
    ("C13", p_filter::c13),
    ("C14", p_analysis::c14),
    ("C15", p_analysis::c15),
    ("C16", p_analysis::c16),
    ("C17", p_analysis::c17),
    ("C18", p_window::c18),
    ("C19", p_window::c19),
    ("C20", p_window::c20),
    ("C21", p_window::c21),
    ("C22", p_util::c22),
    ("C23", p_proc::c23),
    ("C24", p_proc::c24),
    ("C25", p_proc::c25),
];

fn find(id: &str) -> Check {
    match CHECKS.iter().find(|c| c.0 == id) {
        Some(c) => *c,
        None => {
            eprintln!("no check for {}", id);
            std::process::exit(2)
        }
    }
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter()
        .position(|a| a == name)
        .and_then(|i| args.get(i + 1))
        .cloned()
}

/// Replays one stored case; None if it holds, else the failure.
fn replay(file: &str) -> (String, Option<Failure>) {
    let txt = std::fs::read_to_string(file).unwrap_or_else(|e| {
        eprintln!("{}: {}", file, e);
        std::process::exit(2)
    });
    let v: Value = serde_json::from_str(&txt).unwrap_or_else(|e| {
        eprintln!("{}: {}", file, e);
        std::process::exit(2)
    });
    let id = v["property"].as_str().unwrap_or("").to_string();
    let (pid, f) = find(&id);
    let mut cx = Ctx::new(
        pid,
        Tier::Quick,
        0,
        Mode::Replay {
            sub: v["sub"].as_str().unwrap_or("").to_string(),
            case: v["case"].clone(),
        },
    );
    f(&mut cx);
    if !cx.replayed {
        eprintln!("{}: no sub-check named {}", file, v["sub"]);
        std::process::exit(2)
    }
    (id, cx.failure)
}

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for c in CHECKS {
                println!("{}", c.0);
            }
        }
        Some("replay") => {
            let file = args.get(2).expect("file");
            let (id, f) = replay(file);
            match f {
                None => println!("holds: property={} replay={}", id, file),
                Some(f) => {
                    println!("{}", f.message);
                    println!("VIOLATION property={} replay={}", id, file);
                    std::process::exit(1)
                }
            }
        }
        Some("check") => {
            let (id, f) = find(args.get(2).expect("property"));
            let tier = match arg(&args, "--tier").as_deref() {
                Some("thorough") => Tier::Thorough,
                _ => Tier::Quick,
            };
            let seed: u64 = arg(&args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let replays = arg(&args, "--replays").unwrap_or_else(|| "/tmp".to_string());
            *REPLAYS.lock().unwrap() = Some(replays.clone());
            let mut regress = 0u64;
            let mut violation: Option<(String, String)> = None;
            if let Some(dir) = arg(&args, "--regressions") {
                let mut files: Vec<String> = std::fs::read_dir(&dir)
                    .map(|d| {
                        d.filter_map(|e| e.ok())
                            .map(|e| e.path().to_string_lossy().to_string())
                            .filter(|p| p.ends_with(".json") && p.contains(&format!("/{}", id)))
                            .collect()
                    })
                    .unwrap_or_default();
                files.sort();
                for p in files {
                    let (_, fl) = replay(&p);
                    regress += 1;
                    if let Some(fl) = fl {
                        violation = Some((p, fl.message));
                        break;
                    }
                }
            }
            let mut cx = Ctx::new(id, tier, seed, Mode::Run);
            cx.only = arg(&args, "--only");
            if violation.is_none() {
                f(&mut cx);
            }
            if let Some(fl) = &cx.failure {
                let _ = std::fs::create_dir_all(&replays);
                let body = json!({
                    "property": id, "sub": fl.sub, "case": fl.case, "message": fl.message,
                    "seed": seed,
                });
                let path = format!(
                    "{}/{}-{}-{}.json",
                    replays,
                    id,
                    fl.sub.replace(' ', "_"),
                    seed
                );
                if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()) {
                    eprintln!("{}: {}", path, e);
                    std::process::exit(2)
                }
                violation = Some((path, fl.message.clone()));
            }
            let mut sum = cx.summary();
            sum["regressions_replayed"] = json!(regress);
            sum["violation"] = match &violation {
                None => Value::Null,
                Some((p, m)) => json!({"replay": p, "message": m}),
            };
            if let Some(out) = arg(&args, "--out") {
                std::fs::write(&out, serde_json::to_string(&sum).unwrap()).unwrap_or_else(|e| {
                    eprintln!("{}: {}", out, e);
                    std::process::exit(2)
                });
            } else {
                println!("{}", serde_json::to_string_pretty(&sum).unwrap());
            }
            if let Some((p, m)) = violation {
                println!("{}", m);
                println!("VIOLATION property={} replay={}", id, p);
                std::process::exit(1)
            }
        }
        _ => {
            eprintln!("usage: rasp-verif check|replay|list ...");
            std::process::exit(2)
        }
    }
}
