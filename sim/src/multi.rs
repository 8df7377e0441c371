//! Several runs in one process, interleaved by a seeded scheduler

use std::{
    sync::{Arc, Condvar, Mutex},
    thread,
};

use serde::{Deserialize, Serialize};

use crate::{
    gen::*,
    rng::*,
    session::{solo, Exec, Session},
    spec::*,
    watch::{watching, Kind},
    world::{run, run_with, Outcome},
};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Plan {
    /// One after the other on one thread, in this order (with repetitions)
    Sequence(Vec<usize>),
    /// Every run on its own thread; who moves is decided by the seed, slices up to `max` callbacks
    Threads { seed: u64, max: u64 },
    /// While run 0 is inside its callback number `at`, the others run completely
    Nested { at: Vec<u64> },
}

struct Turn {
    current: usize,
    alive: Vec<bool>,
    rng: Rng,
    left: u64,
    max: u64,
    switches: u64,
    trace: Hasher,
}

impl Turn {
    fn next(&mut self) {
        let alive: Vec<usize> = (0..self.alive.len()).filter(|i| self.alive[*i]).collect();
        if let Some(&n) = (!alive.is_empty()).then(|| self.rng.pick(&alive)) {
            if n != self.current {
                self.switches += 1;
            }
            self.current = n;
            // fine interleaving first, coarser later to bound the cost
            let max = if self.switches < 10_000 { self.max } else { self.max.max(2_000) };
            self.left = self.rng.logint(1, max);
            self.trace.word(n as u64);
            self.trace.word(self.left);
        }
    }
}

type Token = Arc<(Mutex<Turn>, Condvar)>;

fn lock(t: &Token) -> std::sync::MutexGuard<'_, Turn> {
    t.0.lock().unwrap_or_else(std::sync::PoisonError::into_inner)
}

fn wait_turn<'a>(t: &'a Token, mut g: std::sync::MutexGuard<'a, Turn>, me: usize) {
    while g.current != me {
        g = t.1.wait(g).unwrap_or_else(std::sync::PoisonError::into_inner);
    }
}

fn step(t: &Token, me: usize) {
    let mut g = lock(t);
    if g.left > 1 {
        g.left -= 1;
        return;
    }
    g.next();
    if g.current != me {
        t.1.notify_all();
        wait_turn(t, g, me);
    }
}

pub fn generate(g: &mut Rng) -> Session {
    let w = Wish {
        shipped_fluid: 0.5,
        faults: 0.3,
        resolution: (2, 40),
        tol: (1e-3, 1.0),
        ode: (1e-6, 1e-4),
        scripts: 0.15,
        extremes: false,
        solvers: 0.2,
        limits_tight: 0.2,
        ..Wish::default()
    };
    let n = g.int(2, 4) as usize;
    let mut specs: Vec<RunSpec> = Vec::new();
    for i in 0..n {
        let mut s = single(g, &w);
        s.max_inner = s.max_inner.min(100);
        s.max_outer = s.max_outer.min(20);
        if i > 0 && g.p(0.5) {
            // close relatives share as much as possible with another run
            s = specs[0].clone();
            match g.below(9) {
                0 => s.pres_zero *= 1.0 + g.range(0.0, 0.2),
                1 => s.temp_source += g.range(1.0, 80.0),
                2 => s.fluid = fluid(g, 0.7, s.pres_zero),
                3 => s.ws.freq *= g.range(0.7, 1.4),
                4 => s.resolution += 1,
                5 => s.chx.vol *= g.range(0.8, 1.3),
                6 => s.ode.rel *= g.range(0.3, 3.0),
                7 => s.ws.kin = kin(g, crate::session::kin_swept(&s.ws.kin)),
                _ => {}
            }
        }
        if g.p(0.25) {
            s.faults.push(Fault {
                target: Target::Ws,
                what: What::Event,
                when: When::Calls { from: g.logint(1, 30000), len: 1 },
                how: How::Crash,
            });
        }
        specs.push(s);
    }
    let plan = plan(g, n);
    Session::Multi { specs, plan }
}

/// Runs whose components are watched
pub fn generate_watched(g: &mut Rng, prop: &str) -> Session {
    let w = Wish {
        shipped_fluid: if prop == "C16" { 1.0 } else { 0.4 },
        swept: if g.p(0.15) { (1e-9, 1.0) } else { (1e-6, 3e-3) },
        faults: 0.5,
        resolution: (2, 60),
        tol: (1e-3, 1.0),
        ode: (1e-6, 1e-4),
        scripts: 0.1,
        limits_tight: 0.15,
        wild: 0.4,
        ..Wish::default()
    };
    let n = g.int(1, 3) as usize;
    let mut specs: Vec<RunSpec> = Vec::new();
    for i in 0..n {
        let mut s = if i > 0 && g.p(0.3) { specs[0].clone() } else { single(g, &w) };
        s.max_inner = s.max_inner.min(60);
        s.max_outer = s.max_outer.min(15);
        let scale = scale_of(&s.fluid, crate::session::kin_swept(&s.ws.kin), s.ws.freq, s.pres_zero, 0.5 * (s.temp_sink + s.temp_source));
        match prop {
            "C17" => {
                while matches!(s.ws.kin, Kin::Harm { .. }) || g.p(0.1) {
                    s.ws.kin = kin(g, scale.swept);
                }
                s.ws.freq_dep = 0.0;
                s.ws.par_dep = 0.0;
                if let Kin::Rhombic { ecc, r, l, .. } = &mut s.ws.kin {
                    s.ws.par_c = [0.0, s.ws.par_c[1], 0.0];
                    s.ws.par_e[2] = 0.0;
                    if g.p(0.5) {
                        // any drive that can turn
                        *r = *l * g.log(0.02, 0.45);
                        *ecc = g.range(1.02 * *r, 0.97 * (*l - *r));
                    }
                }
                if let Kin::Sin { phase, cl_c, cl_e, .. } = &mut s.ws.kin {
                    if g.p(0.2) {
                        *phase = g.range(-720.0, 720.0);
                    }
                    if g.p(0.1) {
                        *(if g.p(0.5) { cl_c } else { cl_e }) *= g.log(1e-4, 100.0);
                    }
                }
            }
            "C18" => {
                for k in 0..3 {
                    if g.p(0.85) {
                        let h = s.hx_mut(k);
                        let cap = scale.cp * scale.m;
                        h.dep = 0.0;
                        h.initial = None;
                        h.answer = Answer::Ua { ua: cap * if k == 1 { g.log(3.0, 3000.0) } else { g.log(0.1, 100.0) } };
                    }
                }
            }
            _ => {}
        }
        if g.p(0.2) {
            s.faults.push(Fault {
                target: Target::Ws,
                what: What::Event,
                when: When::Calls { from: g.logint(1, 30000), len: 1 },
                how: How::Crash,
            });
        }
        specs.push(s);
    }
    let plan = plan(g, n);
    Session::Multi { specs, plan }
}

fn plan(g: &mut Rng, n: usize) -> Plan {
    match g.below(4) {
        0 => {
            let len = g.int(2, 5);
            let mut order: Vec<usize> = (0..len).map(|_| g.below(n as u64) as usize).collect();
            order.push(0);
            order.push(0);
            Plan::Sequence(order)
        }
        1 => {
            let mut at: Vec<u64> = (0..g.int(1, 2)).map(|_| g.logint(1, 20000)).collect();
            at.sort_unstable();
            Plan::Nested { at }
        }
        _ => Plan::Threads { seed: g.next(), max: *g.pick(&[1, 3, 20, 200, 5000]) },
    }
}

struct Done {
    name: &'static str,
    hash: u64,
    log: u64,
    stats: Exec,
}

fn one(spec: &RunSpec, watch: Option<Kind>, yielder: Option<Box<dyn Fn(u64)>>) -> Done {
    let out = watching(watch, || if yielder.is_some() { run_with(spec, yielder) } else { run(spec) });
    let mut stats = Exec::default();
    stats.absorb(spec, &out);
    crate::oracle::sane(&out, &mut stats.report);
    if let Some(w) = &out.ctx.watch {
        stats.report.absorb(&w.report.borrow());
    }
    Done { name: out.outcome.name(), hash: out.outcome.hash(), log: out.ctx.hash(), stats }
}

/// Perform the runs as planned
fn perform(specs: &[RunSpec], plan: &Plan, watch: Option<Kind>, e: &mut Exec) -> Vec<(usize, Done, String)> {
    let mut results: Vec<(usize, Done, String)> = Vec::new();
    match plan {
        Plan::Sequence(order) => {
            for (k, i) in order.iter().enumerate() {
                if *i < specs.len() {
                    results.push((*i, one(&specs[*i], watch, None), format!("as number {k} of the sequence {order:?}")));
                }
            }
            e.report.probe("runs in sequence");
        }
        Plan::Nested { at } => {
            let others: Vec<RunSpec> = specs[1..].to_vec();
            let inner: std::rc::Rc<std::cell::RefCell<Vec<(usize, Done, String)>>> = Default::default();
            let sink = inner.clone();
            let at2 = at.clone();
            let outer = one(
                &specs[0],
                watch,
                Some(Box::new(move |ev| {
                    if at2.contains(&ev) {
                        for (k, s) in others.iter().enumerate() {
                            let d = one(s, watch, None);
                            sink.borrow_mut().push((k + 1, d, format!("inside callback {ev} of another run")));
                        }
                    }
                })),
            );
            results.append(&mut inner.borrow_mut());
            if !results.is_empty() {
                e.report.probe("runs inside a component of another run");
            }
            results.push((0, outer, "suspended while a component performed other runs".into()));
        }
        Plan::Threads { seed, max } => {
            let mut turn = Turn {
                current: 0,
                alive: vec![true; specs.len()],
                rng: Rng::new(*seed),
                left: 1,
                max: *max,
                switches: 0,
                trace: Hasher::new(),
            };
            turn.next();
            let token: Token = Arc::new((Mutex::new(turn), Condvar::new()));
            let handles: Vec<_> = specs
                .iter()
                .cloned()
                .enumerate()
                .map(|(i, spec)| {
                    let token = token.clone();
                    thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn(move || {
                            crate::seams::first_run(7 * (i as u64 + 1));
                            wait_turn(&token, lock(&token), i);
                            let t = token.clone();
                            let d = one(&spec, watch, Some(Box::new(move |_| step(&t, i))));
                            let mut g = lock(&token);
                            g.alive[i] = false;
                            g.next();
                            token.1.notify_all();
                            d
                        })
                        .expect("thread")
                })
                .collect();
            for (i, h) in handles.into_iter().enumerate() {
                if let Ok(d) = h.join() {
                    results.push((i, d, "interleaved with other threads".into()));
                }
            }
            let g = lock(&token);
            *e.report.probes.entry("thread switches".into()).or_default() += g.switches;
            let mut h = Hasher::new();
            h.word(e.hash);
            h.word(g.trace.0);
            e.hash = h.0;
            e.sigs.push(g.trace.0);
        }
    }
    results
}

/// Watch the components of several runs
pub fn watched(kind: Kind, specs: &[RunSpec], plan: &Plan, e: &mut Exec) {
    for (_, d, _) in perform(specs, plan, Some(kind), e) {
        e.nontrivial |= d.stats.report.checks > 20;
        e.merge(&d.stats);
    }
}

pub fn execute(specs: &[RunSpec], plan: &Plan, e: &mut Exec) {
    let alone: Vec<(String, u64, u64)> = specs.iter().map(|s| solo(s).unwrap_or_else(|x| (x, 0, 0))).collect();
    for (i, d, how) in perform(specs, plan, None, e) {
        let (name, hash, log) = &alone[i];
        e.merge(&d.stats);
        if d.name == "given_up" || name == "given_up" {
            e.report.skip("run given up");
            continue;
        }
        if d.name == Outcome::Crashed.name() {
            e.report.probe("run abandoned by a panic in a component");
        }
        e.nontrivial = true;
        e.report.ensure("verdict", d.name == name, || format!("run {i} ends with {} {how}, alone with {name}", d.name));
        e.report.ensure("result", d.hash == *hash || d.name != name, || {
            format!("run {i} returns another engine {how} than alone ({})", d.name)
        });
        e.report.ensure("history", d.log == *log, || {
            format!("run {i} asks its components differently {how} than alone ({})", d.name)
        });
    }
}
