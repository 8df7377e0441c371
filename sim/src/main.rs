//! Deterministic simulation of sett-rs with fault injection

mod check;
mod comps;
mod ctx;
mod doc;
mod gen;
mod minimise;
mod model;
mod multi;
mod oracle;
mod rng;
mod seams;
mod session;
mod spec;
mod watch;
mod world;

use std::{collections::HashMap, io::Read, process::exit};

fn options(args: &[String]) -> HashMap<String, String> {
    let mut map = HashMap::new();
    let mut it = args.iter();
    while let Some(a) = it.next() {
        if let Some(k) = a.strip_prefix("--") {
            map.insert(k.to_string(), it.next().cloned().unwrap_or_default());
        }
    }
    map
}

fn main() {
    world::install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let cmd = args.first().map_or("", String::as_str);
    let arg = args.get(1).cloned().unwrap_or_default();
    let opt = options(&args);
    let num = |k: &str, d: u64| opt.get(k).and_then(|x| x.parse().ok()).unwrap_or(d);
    let code = match cmd {
        "check" => check::check(
            &arg,
            opt.get("tier").map_or("quick", String::as_str),
            num("seed", 1),
            opt.get("home").map_or("/verif", String::as_str),
            num("workers", 8),
            opt.get("sessions").and_then(|x| x.parse().ok()),
            num("seconds", 0),
            opt.get("trace").map(String::as_str),
        ),
        "worker" => {
            check::worker(&arg, num("seed", 1), num("first", 0), num("step", 1), num("end", 1), num("seconds", 600));
            0
        }
        "replay" => check::replay(&arg, args.iter().any(|a| a == "--verbose")),
        "minimise" => minimise::minimise(&arg, args.get(2).map_or("", String::as_str)),
        "solo" => {
            let mut text = String::new();
            let _ = std::io::stdin().read_to_string(&mut text);
            match serde_json::from_str::<spec::RunSpec>(&text) {
                Ok(spec) => {
                    let out = world::run(&spec);
                    println!("{} {} {}", out.outcome.name(), out.outcome.hash(), out.ctx.hash());
                    0
                }
                Err(_) => 3,
            }
        }
        "calibrate" => {
            oracle::CALIBRATE.store(true, std::sync::atomic::Ordering::Relaxed);
            let mut i = num("first", 0);
            while i < num("end", 1) {
                let s = session::generate(&arg, num("seed", 1), i);
                let t = std::time::Instant::now();
                let e = check::guarded(&arg, &s);
                for (k, v) in &e.report.worst {
                    println!("{k} {v:e} {i}");
                }
                println!("ms {} {i}", t.elapsed().as_millis());
                for v in &e.report.violations {
                    println!("fail:{} 1 {i} {}", v.class, v.detail);
                }
                i += num("step", 1);
            }
            0
        }
        "show" => {
            let s = session::generate(&arg, num("seed", 1), num("index", 0));
            println!("{}", serde_json::to_string_pretty(&s).unwrap());
            let e = session::execute(&arg, &s);
            println!("{:#?}\n{:?} {:?}", e.report, e.outcomes, e.fired);
            0
        }
        _ => {
            eprintln!("usage: sim check|replay|minimise|show ...");
            2
        }
    };
    exit(code);
}
