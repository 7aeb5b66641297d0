mod ast;
mod cli;
mod checks;
mod cov;
mod ctor;
mod dict;
mod edits;
mod extra;
mod gen;
mod grow;
mod meter;
mod model;
mod obs;
mod refparse;
mod runner;
mod tape;
mod threads;

use runner::*;

/// The recorded findings: property, id, text.
fn known_findings(verif: &str) -> Vec<(String, String, String)> {
    let mut out = vec![];
    if let Ok(t) = std::fs::read_to_string(format!("{}/known-findings.txt", verif)) {
        for l in t.lines() {
            if l.starts_with('{') {
                let j: serde_json::Value = serde_json::from_str(l).expect("harness: known-findings.txt");
                out.push((
                    j["property"].as_str().unwrap().to_string(),
                    j["id"].as_str().unwrap().to_string(),
                    j["what"].as_str().unwrap().to_string(),
                ));
            }
        }
    }
    out
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    install_hook();
    let verif: &'static str = Box::leak(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()).into_boxed_str());
    let known: &'static [(String, String, String)] = Box::leak(known_findings(verif).into_boxed_slice());
    let mut checks = checks::checks();
    checks.extend(edits::checks());
    checks.extend(ctor::checks());
    checks.extend(cli::checks());
    checks.extend(extra::checks());
    checks.extend(threads::checks());
    let checks: &'static Vec<Check> = Box::leak(Box::new(checks));
    let tier: &'static str = Box::leak(std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()).into_boxed_str());
    let find = |id: &str| checks.iter().find(|c| c.id == id).unwrap_or_else(|| {
        println!("no check {}", id);
        std::process::exit(2)
    });
    match args.get(1).map(|s| &s[..]) {
        Some("run") => {
            let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let check = find(&args[2]);
            if std::env::var("VERIF_CHILD").is_ok() {
                std::process::exit(run(check, tier, seed, known, verif));
            }
            // in a process of its own, so that a crash can be told from a failure
            let status = std::process::Command::new(std::env::current_exe().expect("harness: no executable"))
                .args(&args[1..])
                .env("VERIF_CHILD", "1")
                .status()
                .expect("harness: cannot run itself");
            use std::os::unix::process::ExitStatusExt;
            let code = match (status.code(), status.signal()) {
                (Some(c), _) => c,
                (None, Some(_)) if pending(verif, check.id) => 1,
                (None, Some(s)) if [4, 6, 7, 8, 9, 11].contains(&s) => find_crash(check, tier, seed, verif, s),
                (None, s) => {
                    println!("CHECK-ERROR ended by signal {:?}", s);
                    2
                }
            };
            std::process::exit(code);
        }
        Some("range") => {
            let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let n = |i: usize| args[i].parse::<u64>().expect("harness: a number");
            run_range(find(&args[2]), &args[3], n(4), n(5), seed, tier == "thorough", known);
        }
        // the list of the literals in /repo, to be committed
        Some("dict") => print!("{}", dict::listing()),
        Some("replay") => {
            let j: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("harness: no replay file")).unwrap();
            std::process::exit(replay(find(j["property"].as_str().unwrap()), &j, known));
        }
        _ => {
            println!("usage: vharness run ID | replay FILE");
            std::process::exit(2);
        }
    }
}
