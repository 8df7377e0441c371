//! Search over seeds with a pool of worker processes

use std::{
    collections::{BTreeMap, HashSet},
    fs,
    io::{BufRead, BufReader, Write},
    panic::{catch_unwind, AssertUnwindSafe},
    path::Path,
    process::{Child, Command, Stdio},
    sync::mpsc,
    thread,
    time::{Duration, Instant},
};

use serde::{Deserialize, Serialize};
use serde_json::json;

use crate::{
    minimise,
    oracle::Violation,
    session::{execute, generate, Exec, Session},
};

/// A session without any sign of life for this long is taken for one that hangs
const HANG: Duration = Duration::from_secs(150);
const MEMORY: u64 = 3 << 30;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Replay {
    pub property: String,
    pub seed: u64,
    pub index: u64,
    pub class: String,
    pub detail: String,
    /// Identity of the execution
    pub hash: u64,
    /// Sessions to execute before in the same process
    pub prelude: Vec<Session>,
    pub session: Session,
    pub minimised: bool,
    pub reproduces: bool,
}

/// Everything a worker knows about its sessions so far, since the last time it said so
#[derive(Serialize, Deserialize, Default)]
struct Chunk {
    sessions: u64,
    runs: u64,
    sim_time: f64,
    callbacks: u64,
    checks: u64,
    scheduled: u64,
    outcomes: BTreeMap<String, u64>,
    fired: BTreeMap<String, u64>,
    parts: BTreeMap<String, u64>,
    skipped: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    findings: BTreeMap<String, u64>,
    worst: BTreeMap<String, f64>,
    worst_at: BTreeMap<String, u64>,
    hashes: Vec<u64>,
    sigs: Vec<u64>,
    trace: Vec<(u64, u64)>,
}

impl Chunk {
    fn add(&mut self, index: u64, e: &Exec) {
        self.sessions += 1;
        self.runs += e.runs;
        self.sim_time += e.sim_time;
        self.callbacks += e.callbacks;
        self.checks += e.report.checks;
        self.scheduled += e.scheduled;
        let add = |m: &mut BTreeMap<String, u64>, k: &str, v: u64| *m.entry(k.to_string()).or_default() += v;
        for (k, v) in &e.outcomes {
            add(&mut self.outcomes, k, *v);
        }
        for (k, v) in &e.fired {
            add(&mut self.fired, k, *v);
        }
        for (k, v) in &e.parts {
            add(&mut self.parts, k, *v);
        }
        for (k, v) in &e.report.skipped {
            add(&mut self.skipped, k, *v);
        }
        for (k, v) in &e.report.probes {
            add(&mut self.probes, k, *v);
        }
        for (k, v) in &e.report.findings {
            add(&mut self.findings, k, *v);
        }
        for (k, v) in &e.report.worst {
            if *v >= *self.worst.get(*k).unwrap_or(&-1.0) {
                self.worst.insert((*k).to_string(), *v);
                self.worst_at.insert((*k).to_string(), index);
            }
        }
        if e.nontrivial {
            self.hashes.push(e.hash);
        }
        self.sigs.extend(&e.sigs);
        self.trace.push((index, e.hash));
    }
}

#[derive(Serialize, Deserialize)]
struct Found {
    index: u64,
    class: String,
    detail: String,
    hash: u64,
}

/// Execute a session whatever happens in it
pub fn guarded(prop: &str, s: &Session) -> Exec {
    match catch_unwind(AssertUnwindSafe(|| execute(prop, s))) {
        Ok(e) => e,
        Err(p) => {
            let mut e = Exec::default();
            let what = crate::world::panic_outcome(p.as_ref());
            e.report.violations.push(Violation { class: "harness".into(), detail: format!("{what:?}") });
            e
        }
    }
}

fn limit_memory() {
    unsafe {
        let lim = libc::rlimit { rlim_cur: MEMORY, rlim_max: MEMORY };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
}

pub fn worker(prop: &str, seed: u64, first: u64, step: u64, end: u64, seconds: u64) {
    limit_memory();
    let start = Instant::now();
    let out = std::io::stdout();
    let say = |tag: &str, text: &str| {
        let mut o = out.lock();
        let _ = writeln!(o, "{tag} {text}");
        let _ = o.flush();
    };
    let mut chunk = Chunk::default();
    let mut last = Instant::now();
    let mut i = first;
    while i < end && start.elapsed().as_secs() < seconds {
        say("S", &i.to_string());
        let s = generate(prop, seed, i);
        let e = guarded(prop, &s);
        chunk.add(i, &e);
        if last.elapsed() > Duration::from_millis(700) || !e.report.violations.is_empty() {
            say("C", &serde_json::to_string(&std::mem::take(&mut chunk)).unwrap());
            last = Instant::now();
        }
        if let Some(v) = e.report.violations.first() {
            let f = Found { index: i, class: v.class.clone(), detail: v.detail.clone(), hash: e.hash };
            say("V", &serde_json::to_string(&f).unwrap());
            return;
        }
        i += step;
    }
    say("C", &serde_json::to_string(&chunk).unwrap());
    say("E", "");
}

fn command(args: &[&str]) -> Command {
    let mut c = Command::new(std::env::current_exe().expect("own path"));
    c.args(args).env("RUST_BACKTRACE", "0").env("RUST_LIB_BACKTRACE", "0").stderr(Stdio::null()).stdin(Stdio::null());
    c
}

enum Say {
    Start(u64),
    Stats(Box<Chunk>),
    Found(Found),
    End,
    Gone,
}

/// How many sessions each tier explores
fn budget(prop: &str, tier: &str) -> (u64, u64) {
    let quick = match prop {
        "C01" => 2500,
        "C02" => 1600,
        "C03" => 1600,
        "C04" => 1600,
        "C05" => 6000,
        "C06" => 2200,
        "C07" => 2500,
        "C08" => 2200,
        "C09" => 8000,
        "C10" => 3000,
        "C11" => 1800,
        "C12" => 14000,
        "C13" => 1400,
        "C14" => 800,
        "C16" => 3000,
        "C17" => 5000,
        "C18" => 5000,
        _ => 1600,
    };
    if tier == "thorough" {
        (u64::MAX / 4, 1500)
    } else {
        (quick, 360)
    }
}

#[allow(clippy::too_many_arguments)]
pub fn check(
    prop: &str,
    tier: &str,
    seed: u64,
    home: &str,
    workers: u64,
    sessions: Option<u64>,
    seconds: u64,
    trace: Option<&str>,
) -> i32 {
    let start = Instant::now();
    let (mut end, mut secs) = budget(prop, tier);
    if let Some(n) = sessions {
        end = n;
    }
    if seconds > 0 {
        secs = seconds;
    }
    let (tx, rx) = mpsc::channel::<(u64, Say)>();
    let mut children: Vec<Child> = Vec::new();
    for w in 0..workers {
        let args: Vec<String> = vec![
            "worker".into(),
            prop.into(),
            "--seed".into(),
            seed.to_string(),
            "--first".into(),
            w.to_string(),
            "--step".into(),
            workers.to_string(),
            "--end".into(),
            end.to_string(),
            "--seconds".into(),
            secs.to_string(),
        ];
        let refs: Vec<&str> = args.iter().map(String::as_str).collect();
        let mut child = match command(&refs).stdout(Stdio::piped()).spawn() {
            Ok(c) => c,
            Err(e) => {
                println!("harness error: {e}");
                return 2;
            }
        };
        let out = child.stdout.take().expect("piped");
        children.push(child);
        let tx = tx.clone();
        thread::spawn(move || {
            for line in BufReader::new(out).lines().map_while(Result::ok) {
                let (tag, text) = line.split_once(' ').unwrap_or((&line, ""));
                let msg = match tag {
                    "S" => text.parse().ok().map(Say::Start),
                    "C" => serde_json::from_str(text).ok().map(Say::Stats),
                    "V" => serde_json::from_str(text).ok().map(Say::Found),
                    "E" => Some(Say::End),
                    _ => None,
                };
                if let Some(m) = msg {
                    let _ = tx.send((w, m));
                }
            }
            let _ = tx.send((w, Say::Gone));
        });
    }
    let n = workers as usize;
    let mut at: Vec<Option<u64>> = vec![None; n];
    let mut seen: Vec<Instant> = vec![Instant::now(); n];
    let mut done = vec![false; n];
    let mut found: Vec<Found> = Vec::new();
    let mut total = Chunk::default();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut sigs: HashSet<u64> = HashSet::new();
    while !done.iter().all(|d| *d) {
        let msg = rx.recv_timeout(Duration::from_secs(1));
        let best = found.iter().map(|f| f.index).min();
        if let Ok((w, m)) = msg {
            let w = w as usize;
            seen[w] = Instant::now();
            match m {
                Say::Start(i) => {
                    at[w] = Some(i);
                    // the violation with the lowest index is reported
                    if best.is_some_and(|b| i > b) && !done[w] {
                        done[w] = true;
                        let _ = children[w].kill();
                    }
                }
                Say::Stats(c) => {
                    distinct.extend(&c.hashes);
                    sigs.extend(&c.sigs);
                    total.sessions += c.sessions;
                    total.runs += c.runs;
                    total.sim_time += c.sim_time;
                    total.callbacks += c.callbacks;
                    total.checks += c.checks;
                    total.scheduled += c.scheduled;
                    for (a, b) in [
                        (&mut total.outcomes, &c.outcomes),
                        (&mut total.fired, &c.fired),
                        (&mut total.parts, &c.parts),
                        (&mut total.skipped, &c.skipped),
                        (&mut total.probes, &c.probes),
                        (&mut total.findings, &c.findings),
                    ] {
                        for (k, v) in b {
                            *a.entry(k.clone()).or_default() += v;
                        }
                    }
                    for (k, v) in &c.worst {
                        if *v >= *total.worst.get(k).unwrap_or(&-1.0) {
                            total.worst.insert(k.clone(), *v);
                            total.worst_at.insert(k.clone(), c.worst_at[k]);
                        }
                    }
                    if trace.is_some() {
                        total.trace.extend(c.trace);
                    }
                }
                Say::Found(f) => {
                    found.push(f);
                    done[w] = true;
                }
                Say::End => done[w] = true,
                Say::Gone => {
                    if !done[w] {
                        done[w] = true;
                        let f = Found {
                            index: at[w].unwrap_or(0),
                            class: "process_death".into(),
                            detail: "the process died during the run".into(),
                            hash: 0,
                        };
                        found.push(f);
                    }
                }
            }
        }
        for w in 0..n {
            if !done[w] && at[w].is_some() && seen[w].elapsed() > HANG {
                done[w] = true;
                let _ = children[w].kill();
                found.push(Found {
                    index: at[w].unwrap_or(0),
                    class: "hang".into(),
                    detail: format!("no progress for {} s", HANG.as_secs()),
                    hash: 0,
                });
            }
        }
    }
    for c in &mut children {
        let _ = c.kill();
        let _ = c.wait();
    }
    let search = start.elapsed().as_secs_f64();
    if let Some(path) = trace {
        total.trace.sort_unstable();
        let text: String = total.trace.iter().map(|(i, h)| format!("{i} {h:016x}\n")).collect();
        let _ = fs::write(path, text);
    }
    found.sort_by_key(|f| f.index);
    // findings that are not listed are violations like any other
    let known = known(home, prop);
    let mut code = 0;
    let mut replay_path = None;
    for (key, n) in &total.findings {
        if !known.iter().any(|k| k.0 == *key) && found.is_empty() {
            println!("finding {key} ({n} times) is not listed");
            code = 2;
        }
    }
    if let Some(f) = found.first() {
        if matches!(f.class.as_str(), "harness" | "oracle") {
            println!("harness error in session {}: {}", f.index, f.detail);
            return 2;
        }
        match report(prop, seed, workers, f, home) {
            Ok(path) => {
                replay_path = Some(path);
                code = 1;
            }
            Err(why) => {
                println!("harness error: {why}");
                return 2;
            }
        }
    }
    let samples: Vec<_> = (0..2)
        .map(|i| {
            let s = generate(prop, seed, i);
            let mut text = serde_json::to_value(&s).unwrap_or_default();
            if text.to_string().len() > 6000 {
                text = json!(text.to_string().chars().take(6000).collect::<String>());
            }
            json!({"index": i, "session": text})
        })
        .collect();
    let hours = search / 3600.0;
    let evidence = json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": found.len(),
        "assumptions": [
            "sampled, not exhaustive: a clean batch is evidence and no proof",
            "components, fluid, drive and solver reach the engine only through its traits; everything else in a run is the repository's code",
        ],
        "coverage": {
            "evaluations": total.sessions,
            "distinct_nontrivial": distinct.len(),
            "rule": rule(prop),
            "samples": samples,
            "simulated_runs": total.runs,
            "sessions_per_hour": (total.sessions as f64 / hours).round(),
            "runs_per_hour": (total.runs as f64 / hours).round(),
            "simulated_engine_seconds": total.sim_time,
            "callbacks_intercepted": total.callbacks,
            "oracle_comparisons": total.checks,
            "distinct_interleavings": sigs.len(),
            "interleaving_measure": "distinct (component kinds, outer iterations, cycle integrations, fired faults and how often, sequence of flow direction patterns); for threads the sequence of scheduling decisions; for descriptions the stored bytes",
            "run_outcomes": total.outcomes,
            "faults_scheduled": total.scheduled,
            "faults_fired_runs": total.fired,
            "real_and_stub_parts": total.parts,
            "always_real": "Engine::run, state, state equations, integrator (ode_solvers), flow directions, performance, results; LU, QR and SVD solvers (nalgebra) unless a session injects solver faults around them",
            "probes": total.probes,
            "skipped": total.skipped,
            "findings_met": total.findings,
            "worst_ratio_to_limit": total.worst,
            "worst_ratio_session": total.worst_at,
            "workers": workers,
        },
    });
    let dir = Path::new(home).join("evidence");
    let _ = fs::create_dir_all(&dir);
    if let Err(e) = fs::write(dir.join(format!("{prop}.json")), serde_json::to_string_pretty(&evidence).unwrap() + "\n") {
        println!("harness error: evidence: {e}");
        return 2;
    }
    println!(
        "{prop} {tier} seed {seed}: {} sessions, {} runs, {} comparisons, {} distinct non-trivial, {search:.1} s",
        total.sessions,
        total.runs,
        total.checks,
        distinct.len()
    );
    for (key, text) in &known {
        if total.findings.contains_key(key) {
            println!("KNOWN-FINDING: property={prop} {text}");
        }
    }
    if let Some(path) = replay_path {
        println!("VIOLATION property={prop} replay={path}");
    }
    code
}

/// Listed findings: (key, description)
fn known(home: &str, prop: &str) -> Vec<(String, String)> {
    let text = fs::read_to_string(Path::new(home).join("known_findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("known: property="))
        .filter_map(|l| l.split_once(' '))
        .filter(|(p, _)| *p == prop)
        .filter_map(|(_, rest)| rest.trim().split_once(' '))
        .map(|(k, t)| (k.to_string(), format!("{k}: {t}")))
        .collect()
}

fn rule(prop: &str) -> &'static str {
    match prop {
        "C08" => "session = one engine run under several pairs of iteration limits, placed around what a reference model or the first run says is needed; non-trivial: it needs a decision (settles or not); distinct: identity of all event logs and results",
        "C10" => "session = an undisturbed run and a run with transient faults or another starting point; non-trivial: a fault fired or the start differs and both results were compared; distinct: identity of both event logs and results",
        "C11" => "session = several runs in sequence, nested or interleaved on threads by the seeded scheduler, each compared with itself in a fresh process; non-trivial: a comparison was made; distinct: identity of event logs, results and schedule",
        "C16" | "C17" | "C18" => "session = one to three runs in sequence, nested or interleaved on threads by the seeded scheduler, with faults and crashes, while the shipped components they ask are watched; non-trivial: at least twenty answers were judged; distinct: identity of event logs, results and schedule",
        "C12" => "session = a description written in some notation, damaged by a simulated disk, then loaded; non-trivial: the reference reader knows whether it is complete; distinct: identity of bytes, verdict and results",
        "C14" => "session = one engine run with LU, QR, SVD and a solver chosen anew for every solve; non-trivial: the run converges; distinct: identity of all event logs and results",
        "C15" => "session = one run whose consultations are compared with the returned cycle and, for earlier iterations, with runs that end there; non-trivial: at least two iterations or a witness; distinct: identity of event logs and results",
        "C09" => "session = one run with momentary or persistent failing evaluations; non-trivial: a failure fired; distinct: identity of event log and result",
        "C02" => "session = one run with drawn engine, tolerances and faults; non-trivial: an engine is returned after at least three cycle integrations; distinct: identity of event log and result",
        "C05" | "C13" => "session = one run with drawn engine, resolution, speed and faults; non-trivial: an engine is returned and judged; distinct: identity of event log and result",
        _ => "session = one run with drawn engine, components, solver and faults; non-trivial: an engine is returned after two or more outer iterations or a fired fault; distinct: identity of event log and result",
    }
}

fn run_child(args: &[&str], limit: Duration) -> Option<(i32, String)> {
    let mut c = command(args).stdout(Stdio::piped()).spawn().ok()?;
    let out = c.stdout.take()?;
    let reader = thread::spawn(move || std::io::read_to_string(out).unwrap_or_default());
    let start = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(st)) => {
                use std::os::unix::process::ExitStatusExt;
                let code = st.code().unwrap_or_else(|| 1000 + st.signal().unwrap_or(0));
                return Some((code, reader.join().unwrap_or_default()));
            }
            Ok(None) if start.elapsed() > limit => {
                let _ = c.kill();
                let _ = c.wait();
                return Some((-1, reader.join().unwrap_or_default()));
            }
            _ => thread::sleep(Duration::from_millis(5)),
        }
    }
}

/// Whether a replay file fails in a fresh process the way it says
fn reproduces(path: &str, r: &Replay) -> bool {
    let dead = matches!(r.class.as_str(), "process_death" | "hang");
    match run_child(&["replay", path], if dead { HANG } else { Duration::from_secs(300) }) {
        Some((1, _)) => true,
        Some((-1, _)) => r.class == "hang",
        Some((code, _)) => r.class == "process_death" && code > 2,
        None => false,
    }
}

fn report(prop: &str, seed: u64, workers: u64, f: &Found, home: &str) -> Result<String, String> {
    println!("session {} fails: {}: {}", f.index, f.class, f.detail);
    let dir = Path::new(home).join("replays");
    fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let path = dir.join(format!("{prop}-{seed}-{}.json", f.index)).to_string_lossy().to_string();
    let write = |r: &Replay| fs::write(&path, serde_json::to_string_pretty(r).unwrap()).map_err(|e| e.to_string());
    let mut r = Replay {
        property: prop.into(),
        seed,
        index: f.index,
        class: f.class.clone(),
        detail: f.detail.clone(),
        hash: f.hash,
        prelude: vec![],
        session: generate(prop, seed, f.index),
        minimised: false,
        reproduces: true,
    };
    write(&r)?;
    let mut ok = reproduces(&path, &r);
    let mut back = 1;
    let before: Vec<u64> = (0..f.index).filter(|i| i % workers == f.index % workers).collect();
    while !ok && back / 4 < before.len() && !matches!(f.class.as_str(), "hang") {
        // something earlier runs left behind in the process takes part
        let from = before.len().saturating_sub(back);
        r.prelude = before[from..].iter().map(|i| generate(prop, seed, *i)).collect();
        write(&r)?;
        ok = reproduces(&path, &r);
        if from == 0 {
            break;
        }
        back *= 4;
    }
    if !ok {
        if f.class == "process_death" {
            return Err(format!("worker died in session {} for no reproducible reason", f.index));
        }
        if f.class == "hang" {
            return Err(format!("session {} took too long but ends when repeated", f.index));
        }
        r.prelude.clear();
        r.reproduces = false;
        write(&r)?;
        println!("the failure was observed but does not repeat in a fresh process");
        return Ok(path);
    }
    write(&r)?;
    if !matches!(f.class.as_str(), "hang" | "process_death") {
        let small = format!("{path}.min");
        let _ = fs::remove_file(&small);
        let _ = run_child(&["minimise", &path, &small], Duration::from_secs(60));
        if let Some(m) = fs::read_to_string(&small).ok().and_then(|t| serde_json::from_str::<Replay>(&t).ok()) {
            if reproduces(&small, &m) {
                write(&m)?;
                println!("minimised: {}", m.detail);
            }
        }
        let _ = fs::remove_file(&small);
    }
    Ok(path)
}

pub fn replay(path: &str, verbose: bool) -> i32 {
    limit_memory();
    let Some(r) = fs::read_to_string(path).ok().and_then(|t| serde_json::from_str::<Replay>(&t).ok()) else {
        println!("cannot read {path}");
        return 2;
    };
    for p in &r.prelude {
        let _ = guarded(&r.property, p);
    }
    let e = guarded(&r.property, &r.session);
    if verbose {
        println!("{:#?}\n{:?} {:?}", e.report, e.outcomes, e.fired);
    }
    match minimise::same(&r, &e) {
        Some(v) => {
            let exact = if e.hash == r.hash { "exactly" } else { "with another event log" };
            println!("{}: {} (reproduced {exact})", v.class, v.detail);
            println!("VIOLATION property={} replay={path}", r.property);
            1
        }
        None => {
            println!("not reproduced: {}", e.report.violations.first().map_or("nothing fails".into(), |v| format!("{v:?}")));
            0
        }
    }
}
