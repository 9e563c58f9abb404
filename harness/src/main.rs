#![allow(deprecated)]
mod cli_checks;
mod codec_checks;
mod engine;
mod gen;
mod hooks;
mod misc_checks;
mod noise;
mod oram_checks;
mod oramh;
mod refm;
mod refuse_checks;
mod ring_checks;
mod supervise;
mod tree_checks;

use engine::{run_check, Check};

fn check(id: &str) -> Option<Check> {
    Some(match id {
        "C01" => oram_checks::c01(),
        "C02" => oram_checks::c02(),
        "C03" => oram_checks::c03(),
        "C04" => oram_checks::c04(),
        "C05" => oram_checks::c05(),
        "C06" => oram_checks::c06(),
        "C07" => oram_checks::c07(),
        "C08" => oram_checks::c08(),
        "C09" => oram_checks::c09(),
        "C10" => codec_checks::c10(),
        "C11" => codec_checks::c11(),
        "C12" => codec_checks::c12(),
        "C13" => codec_checks::c13(),
        "C14" => ring_checks::c14(),
        "C15" => ring_checks::c15(),
        "C16" => ring_checks::c16(),
        "C17" => ring_checks::c17(),
        "C18" => ring_checks::c18(),
        "C19" => ring_checks::c19(),
        "C20" => ring_checks::c20(),
        "C21" => ring_checks::c21(),
        "C22" => ring_checks::c22(),
        "C23" => tree_checks::c23(),
        "C24" => tree_checks::c24(),
        "C25" => misc_checks::c25(),
        "C26" => misc_checks::c26(),
        "C27" => misc_checks::c27(),
        "C28" => cli_checks::c28(),
        "C29" => misc_checks::c29(),
        "C30" => refuse_checks::c30(),
        _ => return None,
    })
}

fn usage() -> ! {
    eprintln!("usage: pv check <id> [sub] | pv replay <file> | pv list");
    std::process::exit(64)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if !supervise::is_child() && matches!(a.get(1).map(|s| s.as_str()), Some("check") | Some("replay")) && a.len() >= 3 {
        if check(&a[2]).is_none() && a[1] == "check" {
            usage();
        }
        std::process::exit(supervise::supervise(&a[1..]));
    }
    if std::env::var("PV_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1u64);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    match a.get(1).map(|s| s.as_str()) {
        Some("seeds") if a.len() == 4 => std::process::exit(codec_checks::print_seeds(&a[2], a[3] == "1")),
        Some("check") if a.len() >= 3 => {
            let Some(c) = check(&a[2]) else { usage() };
            supervise::journal_for(c.id);
            supervise::leave(run_check(&c, seed, thorough, a.get(3).map(|s| s.as_str())));
        }
        Some("replay") if a.len() == 3 => {
            let v = std::fs::read_to_string(&a[2])
                .ok()
                .and_then(|s| serde_json::from_str::<serde_json::Value>(&s).ok())
                .unwrap_or_default();
            let id = v["property"].as_str().unwrap_or("");
            let Some(c) = check(id) else {
                println!("no verdict: {} is no replay file", a[2]);
                supervise::leave(2)
            };
            let Some(sub) = c.subs.iter().find(|x| v["sub"] == x.name) else {
                println!("no verdict: {} names no sub-check of {id}", a[2]);
                supervise::leave(2)
            };
            supervise::journal_for(c.id);
            let (id2, file) = (id.to_string(), a[2].clone());
            std::thread::spawn(move || {
                std::thread::sleep(std::time::Duration::from_secs(engine::CASE_LIMIT_S));
                println!("{id2}: this case has not finished after {} s", engine::CASE_LIMIT_S);
                println!("VIOLATION property={id2} replay={file}");
                supervise::leave(1);
            });
            match (sub.replay)(&v["case"]) {
                Ok(()) => {
                    println!("{id} {}: holds on this case", sub.name);
                    supervise::leave(0);
                }
                Err(m) => {
                    println!("{id} {}: {m}", sub.name);
                    println!("VIOLATION property={id} replay={}", a[2]);
                    supervise::leave(1);
                }
            }
        }
        Some("list") => {
            for i in 1..=30 {
                let id = format!("C{i:02}");
                if let Some(c) = check(&id) {
                    for s in &c.subs {
                        println!("{id} {}", s.name);
                    }
                }
            }
        }
        _ => usage(),
    }
}
