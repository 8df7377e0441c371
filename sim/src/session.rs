//! Sessions: the unit the search draws, executes, minimises and replays

#![allow(non_snake_case)]

use std::{
    cell::{Cell, RefCell},
    collections::BTreeMap,
    io::Write,
    process::{Command, Stdio},
    rc::Rc,
};

use serde::{Deserialize, Serialize};

use crate::{
    comps::*, ctx::*, doc, gen::*, model::*, multi, oracle::*, rng::*, spec::*,
    world::{run, Outcome, Rec, RunOut},
};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Session {
    /// One run, judged on its own
    Single { spec: RunSpec },
    /// One run; iterations before the last are judged with the help of a run that ends there
    Witness { spec: RunSpec, rounds: Vec<u64> },
    /// The same engine under several iteration limits
    Limits { spec: RunSpec, limits: Vec<(u64, u64)>, scripted: bool },
    /// A disturbed run and an undisturbed one
    Pair { calm: RunSpec, disturbed: RunSpec },
    /// Several runs that must not notice each other
    Multi { specs: Vec<RunSpec>, plan: multi::Plan },
    /// The same engine with every solver
    Solvers { spec: RunSpec, seed: u64 },
    /// Failing evaluations
    Failure { spec: RunSpec },
    /// A stored description
    Doc(Box<doc::DocSession>),
}

/// What executing a session brought to light
#[derive(Default, Clone)]
pub struct Exec {
    pub report: Report,
    /// identity of the whole execution
    pub hash: u64,
    pub runs: u64,
    pub sim_time: f64,
    pub callbacks: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub fired: BTreeMap<String, u64>,
    pub scheduled: u64,
    pub parts: BTreeMap<String, u64>,
    pub sigs: Vec<u64>,
    pub nontrivial: bool,
}

impl Exec {
    pub fn absorb(&mut self, spec: &RunSpec, out: &RunOut) {
        self.runs += 1;
        self.sim_time += out.ctx.total_sim_time();
        self.callbacks += out.ctx.events.get();
        *self.report.probes.entry("clock or entropy readings".into()).or_default() += out.ctx.seam_reads.get();
        *self.outcomes.entry(out.outcome.name().into()).or_default() += 1;
        for (f, n) in spec.faults.iter().zip(&out.ctx.fired) {
            self.scheduled += 1;
            if n.get() > 0 {
                *self.fired.entry(fault_kind(f)).or_default() += 1;
            }
        }
        let mut h = Hasher::new();
        h.word(self.hash);
        h.word(out.ctx.hash());
        h.word(out.outcome.hash());
        self.hash = h.0;
        self.sigs.push(signature(spec, out));
        let mut part = |s: &str| *self.parts.entry(s.into()).or_default() += 1;
        part(if spec.fluid.is_real() { "shipped fluid" } else { "stub fluid" });
        part(if ws_is_real(&spec.ws) { "shipped drive" } else { "stub drive" });
        for k in 0..3 {
            part(if spec.hx(k).is_real() { "shipped heat exchanger" } else { "stub heat exchanger" });
        }
    }
}

fn kind_of_answer(a: &Answer) -> u64 {
    match a {
        Answer::Fixed { .. } => 1,
        Answer::Ua { .. } => 2,
        Answer::Smooth { .. } => 3,
        Answer::Script { .. } => 4,
    }
}

/// Abstract identity of an execution: its parts, its iterations, its faults and its flow pattern
pub fn signature(spec: &RunSpec, out: &RunOut) -> u64 {
    let mut h = Hasher::new();
    h.word(match spec.fluid {
        FluidSpec::Helium => 1,
        FluidSpec::Hydrogen => 2,
        FluidSpec::Perfect { .. } => 3,
        FluidSpec::Virial { .. } => 4,
    });
    h.word(match spec.ws.kin {
        Kin::Sin { .. } => 1,
        Kin::Rhombic { .. } => 2,
        Kin::Harm { .. } => 3,
    });
    for k in 0..3 {
        h.word(kind_of_answer(&spec.hx(k).answer));
    }
    h.s(out.outcome.name());
    h.word(out.ctx.round());
    h.word(out.ctx.zero_calls.get());
    for (f, n) in spec.faults.iter().zip(&out.ctx.fired) {
        if n.get() > 0 {
            h.s(&fault_kind(f));
            h.word(n.get().min(4));
        }
    }
    if let Some(r) = out.outcome.rec() {
        let n = r.ser.time.len();
        let mut last = 99;
        for i in (0..n).step_by((n / 24).max(1)) {
            let mut code = 0;
            for k in 0..4 {
                code = code * 2 + u64::from(r.ser.m[k].get(i).map_or(false, |m| *m > 0.0));
            }
            if code != last {
                h.word(code);
                last = code;
            }
        }
    }
    h.0
}

// ------------------------------------------------------------------ generation

fn wish(prop: &str) -> Wish {
    let d = Wish::default();
    match prop {
        "C01" => Wish { scripts: 0.4, faults: 0.8, shipped_fluid: 0.3, resolution: (2, 60), limits_tight: 0.05, ode: (1e-8, 1e-4), solvers: 0.1, ..d },
        "C02" => Wish { tol: (1e-6, 3.0), faults: 0.5, resolution: (2, 60), ..d },
        "C03" => Wish { resolution: (20, 600), faults: 0.5, limits_tight: 0.0, tol: (1e-6, 1.0), ..d },
        "C04" => Wish { resolution: (20, 600), faults: 0.5, limits_tight: 0.0, tol: (1e-6, 1.0), ..d },
        "C05" => Wish {
            resolution: (2, 4000),
            freq: (1e-2, 1e3),
            tol: (1e-3, 10.0),
            ode: (1e-8, 1e-4),
            shipped_fluid: 0.3,
            faults: 0.4,
            ..d
        },
        "C06" | "C07" => Wish { scripts: 0.3, ode: (1e-8, 1e-4), solvers: 0.1, tol: (1e-5, 3.0), faults: 0.6, limits_tight: 0.0, resolution: (2, 200), ..d },
        "C13" => Wish { resolution: (4, 900), faults: 0.5, limits_tight: 0.0, ode: (1e-11, 1e-8), tol: (1e-5, 3.0), ..d },
        "C15" => Wish { scripts: 0.2, ode: (1e-8, 1e-4), solvers: 0.1, tol: (1e-5, 1.0), faults: 0.5, limits_tight: 0.0, resolution: (2, 80), ..d },
        _ => d,
    }
}

pub fn generate(prop: &str, seed: u64, index: u64) -> Session {
    let mut h = Hasher::new();
    h.s(prop);
    let mut g = Rng::new(mix2(mix2(seed, h.0), index));
    let g = &mut g;
    match prop {
        "C05" => {
            let mut s = single(g, &wish(prop));
            if g.p(0.02) {
                s.resolution = g.below(2) as u32;
            }
            if g.p(0.3) {
                s.ws.freq_dep = g.range(-0.5, 0.5);
            }
            Session::Single { spec: s }
        }
        "C08" => gen_limits(g),
        "C09" => Session::Failure { spec: gen_failure(g) },
        "C10" => gen_pair(g),
        "C11" => multi::generate(g),
        "C16" | "C17" | "C18" => multi::generate_watched(g, prop),
        "C12" => Session::Doc(Box::new(doc::generate(g))),
        "C14" => {
            let w = Wish {
                swept: (1e-6, 3e-3),
                tol: (1e-3, 3e-2),
                ode: (1e-9, 1e-8),
                lopsided: false,
                faults: 0.3,
                limits_tight: 0.0,
                resolution: (2, 60),
                scripts: 0.1,
                solvers: 0.0,
                extremes: false,
                wild: 0.15,
                shipped_fluid: 0.3,
                ..Wish::default()
            };
            let mut s = engine(g, &w);
            s.max_inner = 1000;
            if g.p(0.25) {
                // engines of extreme size are where solvers start to differ
                let mut other = w;
                other.swept = *g.pick(&[(1e-8, 1e-6), (1e-11, 1e-8), (3e-3, 3.0)]);
                s = engine(g, &other);
                s.max_inner = 1000;
            }
            if g.p(w.faults) {
                s.faults.push(transient(g, &s.clone()));
            }
            Session::Solvers { spec: s, seed: g.next() }
        }
        "C15" => {
            let s = single(g, &wish(prop));
            let rounds = (0..3).map(|_| g.below(5)).collect();
            Session::Witness { spec: s, rounds }
        }
        _ => Session::Single { spec: single(g, &wish(prop)) },
    }
}

fn gen_limits(g: &mut Rng) -> Session {
    let scripted = g.p(0.8);
    let mut w = Wish {
        shipped_fluid: 0.15,
        lopsided: true,
        faults: 0.0,
        scripts: 0.0,
        limits_tight: 0.0,
        solvers: 0.0,
        extremes: false,
        wild: 0.0,
        resolution: (2, 12),
        tol: (1e-3, 1.0),
        ode: (1e-10, 1e-9),
        ..Wish::default()
    };
    if !scripted {
        w.shipped_fluid = 0.4;
        w.faults = 0.4;
    }
    let mut s = engine(g, &w);
    s.ode = Tol { abs: 1e-7, rel: 1e-10 };
    s.ws.freq_dep = 0.0;
    s.ws.par_dep = 0.0;
    s.max_inner = 400;
    s.max_outer = 60;
    if !scripted {
        if g.p(w.faults) {
            s.faults.push(transient(g, &s.clone()));
        }
        return Session::Limits { spec: s, limits: vec![], scripted };
    }
    // scripted components: what has to happen is known exactly
    let dt = s.temp_source - s.temp_sink;
    let a = [g.range(0.0, 0.15) * dt, g.range(0.01, 0.1) * dt, g.range(0.0, 0.15) * dt];
    // answers that run away, oscillate or drift for a while before they settle
    let pattern = if g.p(0.3) { Some(g.below(3)) } else { None };
    let mag = if pattern.is_some() { g.log(1e-6, 3e-3) } else { g.log(1e-6, 0.03) } * dt;
    s.outer = match g.below(3) {
        0 => Tol { abs: mag, rel: mag / 400.0 * g.log(20.0, 1e3) },
        1 => Tol { abs: mag * g.log(20.0, 1e3), rel: mag / 400.0 },
        _ => Tol { abs: mag, rel: mag / 400.0 * g.range(0.7, 1.5) },
    };
    let rounds = if pattern.is_some() { g.int(4, 8) } else { g.int(1, 5) } as usize;
    let mut cur = a;
    let mut seqs: [Vec<f64>; 3] = Default::default();
    let growth = g.log(1.5, 5.0);
    let moves: [f64; 3] = std::array::from_fn(|_| if g.p(0.6) { g.sign() * g.log(1.05, 5.0) * mag } else { 0.0 });
    for i in 0..rounds {
        let kind = g.below(4);
        for k in 0..3 {
            let step = match kind {
                _ if pattern == Some(0) => (moves[k] * growth.powi(i as i32)).clamp(-0.1 * dt, 0.1 * dt),
                _ if pattern == Some(1) => moves[k] * if i % 2 == 0 { 1.0 } else { -1.0 },
                _ if pattern == Some(2) => moves[k],
                // something close to the tolerance on either side
                0 | 1 => *g.pick(&[0.0, 0.3, -0.3, 0.9, -0.9, 0.97, -0.97, 1.03, -1.03, 1.2, -1.2]) * mag,
                2 => g.sign() * g.log(0.01, 30.0) * mag,
                _ => {
                    if g.p(0.5) {
                        0.0
                    } else {
                        g.range(-1.5, 1.5) * mag
                    }
                }
            };
            let next = cur[k] + step;
            let top = if k == 1 { 0.25 } else { 0.3 } * dt;
            cur[k] = if next < 0.0 || next > top { cur[k] - step } else { next };
            seqs[k].push(cur[k]);
        }
    }
    for k in 0..3 {
        let h = s.hx_mut(k);
        h.initial = Some(a[k]);
        h.answer = Answer::Script { seq: seqs[k].clone() };
    }
    // the inner tolerance goes between two successive changes of the temperatures
    let max_steps = if s.fluid.is_real() { 12 } else { 25 };
    let gaps = inner_gaps(&s, [a[0], a[1], a[2]], max_steps, 500);
    let top = gaps.len().saturating_sub(1).max(1) as u64;
    let k = g.int(0, top.min(max_steps as u64 - 1)) as usize;
    let at = |i: usize| gaps.get(i).copied().unwrap_or((1.0, 1.0 / 400.0));
    let between = |x: f64, y: f64| (x * y).sqrt();
    let (hi, lo) = (if k == 0 { (30.0 * at(0).0, 30.0 * at(0).1) } else { at(k - 1) }, at(k));
    s.inner = match g.below(3) {
        0 => Tol { abs: between(hi.0, lo.0), rel: between(hi.1, lo.1) * 1e3 },
        1 => Tol { abs: between(hi.0, lo.0) * 1e3, rel: between(hi.1, lo.1) },
        _ => Tol { abs: between(hi.0, lo.0), rel: between(hi.1, lo.1) * g.range(0.8, 1.25) },
    };
    s.inner.abs = s.inner.abs.max(1e-3);
    s.inner.rel = s.inner.rel.max(2.5e-6);
    let limits = (0..2).map(|_| (g.logint(1, 40), g.int(1, 6))).collect();
    Session::Limits { spec: s, limits, scripted }
}

/// Temperatures that follow from approach temperatures: chx, cold, avg, hot, hhx
pub fn temps_of(s: &RunSpec, a: [f64; 3]) -> [f64; 5] {
    let (chx, hhx) = (s.temp_sink + a[0], s.temp_source - a[2]);
    let (cold, avg, hot) = regen_temps(chx, hhx, a[1]);
    [chx, cold, avg, hot, hhx]
}

fn plain_model(s: &RunSpec, a: [f64; 3]) -> CycleModel {
    let t = temps_of(s, a);
    CycleModel {
        gas: Gas::new(&s.fluid),
        kin: s.ws.kin.clone(),
        freq: s.ws.freq,
        t_k: t[0],
        t_rc: t[1],
        t_r: t[2],
        t_rh: t[3],
        t_l: t[4],
        v_k: s.chx.vol,
        v_r: s.regen.vol,
        v_l: s.hhx.vol,
        r_c: resistance(s.ws.r_c),
        r_e: resistance(s.ws.r_e),
        q_c: s.ws.par_c[0],
        q_e: s.ws.par_e[0],
    }
}

/// Largest absolute and relative change of the two temperatures in each cycle of a
/// successive substitution
fn inner_gaps(s: &RunSpec, a: [f64; 3], max: usize, steps: usize) -> Vec<(f64, f64)> {
    inner_gaps_until(s, a, max, steps, |_, _| false)
}

fn inner_gaps_until(
    s: &RunSpec,
    a: [f64; 3],
    max: usize,
    steps: usize,
    stop: impl Fn(f64, f64) -> bool,
) -> Vec<(f64, f64)> {
    let m = plain_model(s, a);
    let mut y = [s.pres_zero, m.t_k, m.t_l];
    let mut gaps = Vec::new();
    let mut hint = (true, true);
    for _ in 0..max {
        y[0] = s.pres_zero;
        let (end, _) = m.advance(0.0, 1.0 / s.ws.freq, y, steps, &mut hint);
        let abs = (end[1] - y[1]).abs().max((end[2] - y[2]).abs());
        let rel = ((end[1] - y[1]) / y[1]).abs().max(((end[2] - y[2]) / y[2]).abs());
        if !abs.is_finite() {
            break;
        }
        gaps.push((abs, rel));
        if stop(abs, rel) {
            break;
        }
        y = end;
    }
    gaps
}

fn gen_failure(g: &mut Rng) -> RunSpec {
    let w = Wish { faults: 0.0, resolution: (2, 60), tol: (1e-4, 1.0), ode: (1e-8, 1e-5), scripts: 0.2, ..Wish::default() };
    let mut s = engine(g, &w);
    let bad = |g: &mut Rng| match g.below(5) {
        0 => How::Inf,
        1 => How::NegInf,
        2 => How::Set(0.0),
        _ => How::Nan,
    };
    let far = u64::MAX / 4;
    let n = if g.p(0.7) { 1 } else { 2 };
    for _ in 0..n {
        let persistent = g.p(0.4);
        let f = match g.below(10) {
            0..=4 => {
                let mut f = glitch(g, &s, 4000);
                if persistent {
                    if let When::Calls { from, .. } = f.when {
                        f.when = When::Calls { from, len: far };
                    }
                }
                f
            }
            5 | 6 => {
                // a component answers with garbage from some iteration on, or for a while
                let target = *g.pick(&[Target::Chx, Target::Regen, Target::Hhx]);
                let what = *g.pick(&[What::Approach, What::Approach, What::Volume, What::Initial]);
                let from = if what == What::Initial { 0 } else { g.below(4) };
                let to = if persistent { far } else { from + g.int(1, 2) };
                let how = match bad(g) {
                    How::Set(_) if what == What::Approach => How::Set(*g.pick(&[1e4, -1e4, 1e308, -1e308])),
                    h => h,
                };
                Fault { target, what, when: When::Rounds { from, to }, how }
            }
            7 => {
                let from = g.below(4);
                let to = if persistent { far } else { from + g.int(1, 2) };
                let how = match g.below(5) {
                    0 => How::Set(0.0),
                    1 => How::Set(-50.0),
                    2 => How::Inf,
                    3 => How::Mul(g.log(1e-12, 1e12)),
                    _ => How::Nan,
                };
                Fault { target: Target::Ws, what: What::Frequency, when: When::Rounds { from, to }, how }
            }
            8 => {
                let what = *g.pick(&[What::ThermalRes, What::Parasitics]);
                let from = g.below(4);
                let to = if persistent { far } else { from + g.int(1, 2) };
                Fault { target: Target::Ws, what, when: When::Rounds { from, to }, how: bad(g) }
            }
            _ => {
                // hits exactly the evaluation of one kind of moment: late in the run
                let from = g.logint(100, 30000);
                let when = When::Calls { from, len: if persistent { far } else { g.logint(1, 30) } };
                Fault { target: Target::Ws, what: What::Volumes, when, how: bad(g) }
            }
        };
        s.faults.push(f);
    }
    s
}

/// Components whose iteration is sure to contract
fn contracting(g: &mut Rng, s: &mut RunSpec) {
    let dt = s.temp_source - s.temp_sink;
    let sc = scale_of(&s.fluid, kin_swept(&s.ws.kin), s.ws.freq, s.pres_zero, 0.5 * (s.temp_sink + s.temp_source));
    for k in 0..3 {
        let h = s.hx_mut(k);
        h.answer = match g.below(4) {
            0 => Answer::Fixed { a: if k == 1 { g.range(2.0, 0.08 * dt) } else { g.range(0.0, 0.12 * dt) } },
            1 if k == 1 => Answer::Ua { ua: sc.cp * sc.m * g.log(40.0, 300.0) },
            1 => Answer::Ua { ua: sc.cp * sc.m * g.log(2.0, 20.0) },
            _ => smooth(g, k, &sc, dt, 0.2),
        };
        h.initial = None;
    }
}

pub fn kin_swept(k: &Kin) -> f64 {
    match *k {
        Kin::Sin { sw_c, sw_e, .. } | Kin::Harm { sw_c, sw_e, .. } => 0.5 * (sw_c + sw_e),
        Kin::Rhombic { r, d_p, .. } => 0.5 * d_p * d_p * std::f64::consts::PI * r,
    }
}

fn gen_pair(g: &mut Rng) -> Session {
    let w = Wish {
        shipped_fluid: 0.4,
        swept: (1e-5, 3e-3),
        freq: (5.0, 80.0),
        lopsided: false,
        faults: 0.0,
        scripts: 0.0,
        limits_tight: 0.0,
        extremes: false,
        wild: 0.0,
        resolution: (8, 60),
        tol: (1e-4, 3e-3),
        ode: (1e-10, 1e-9),
        solvers: 0.0,
        ..Wish::default()
    };
    let mut s = engine(g, &w);
    s.max_inner = 1000;
    s.max_outer = 400;
    // the iteration settles on temperatures: only a drive that doesn't follow the pressure
    // answers consistently (see the known findings)
    s.ws.freq_dep = 0.0;
    s.ws.par_dep = 0.0;
    let follows = g.p(0.05);
    contracting(g, &mut s);
    if follows {
        s.ws.freq_dep = g.sign() * g.range(0.1, 0.4);
        for k in 0..3 {
            let a = if k == 1 { 0.04 } else { 0.1 } * (s.temp_source - s.temp_sink);
            *s.hx_mut(k) = HxSpec { answer: Answer::Fixed { a }, initial: None, ..s.hx(k).clone() };
        }
    }
    let calm = s.clone();
    let dt = s.temp_source - s.temp_sink;
    if g.p(0.3) {
        // another sensible starting point
        for k in 0..3 {
            if g.p(0.7) {
                let top = if k == 1 { 0.08 } else { 0.12 };
                s.hx_mut(k).initial = Some(g.range(0.0, top) * dt);
            }
        }
    }
    for k in 0..3 {
        // real components have no such setting: the stub gives the same answers
        if s.hx(k).initial.is_some() && s.hx(k).is_real() {
            let v = s.hx(k).initial.unwrap();
            s.faults.push(Fault {
                target: [Target::Chx, Target::Regen, Target::Hhx][k],
                what: What::Initial,
                when: When::Rounds { from: 0, to: 1 },
                how: How::Set(v),
            });
            s.hx_mut(k).initial = None;
        }
    }
    let n = g.int(0, 4);
    for _ in 0..n {
        let mut f = if g.p(0.85) { transient(g, &s.clone()) } else { glitch(g, &s.clone(), 2000) };
        if g.p(0.6) {
            // early enough to be over before the run ends
            if let When::Rounds { from, to } = &mut f.when {
                let early = *from / 2;
                *to -= *from - early;
                *from = early;
            }
        }
        if let (When::Rounds { to, .. }, How::Noise(_)) = (&mut f.when, &f.how) {
            // answers that go on changing
            if g.p(0.6) {
                *to += g.int(3, 15);
            }
        }
        s.faults.push(f);
    }
    if g.p(0.2) {
        let k = g.below(3) as usize;
        let from = g.below(3);
        s.faults.push(Fault {
            target: [Target::Chx, Target::Regen, Target::Hhx][k],
            what: What::Approach,
            when: When::Rounds { from, to: from + g.int(3, 15) },
            how: How::Noise(dt * if k == 1 { 0.05 } else { 0.1 } * g.log(0.03, 1.0)),
        });
    }
    if s.faults.is_empty() && s == calm {
        s.faults.push(transient(g, &s.clone()));
    }
    Session::Pair { calm, disturbed: s }
}

// ------------------------------------------------------------------ execution

pub fn execute(prop: &str, s: &Session) -> Exec {
    let mut e = Exec::default();
    crate::seams::first_run(1000);
    match s {
        Session::Single { spec } => {
            let out = run(spec);
            e.absorb(spec, &out);
            judge(prop, spec, &out, &mut e);
        }
        Session::Witness { spec, rounds } => witness(prop, spec, rounds, &mut e),
        Session::Limits { spec, limits, scripted } => check_limits(spec, limits, *scripted, &mut e),
        Session::Pair { calm, disturbed } => check_pair(calm, disturbed, &mut e),
        Session::Multi { specs, plan } => match crate::watch::kind(prop) {
            Some(kind) => multi::watched(kind, specs, plan, &mut e),
            None => multi::execute(specs, plan, &mut e),
        },
        Session::Solvers { spec, seed } => check_solvers(spec, *seed, &mut e),
        Session::Failure { spec } => check_failure(spec, &mut e),
        Session::Doc(d) => doc::execute(d, &mut e),
    }
    e
}

/// Classes of violations that are about the accuracy of the integration
const ACCURACY: [&str; 6] = ["close_integration", "pres_returns", "mass_total", "mass_space", "energy_cycle", "trajectory"];

/// Judge with `f`, and once more with finer integrations where only accuracy is at stake
///
/// Once in a thousand cycles the step size control happens to miss a flow reversal. That is
/// an error of the method, not of the program, and other step sizes don't share it.
fn settle(v: &View, r: &mut Report, f: impl Fn(&View, &mut Report)) {
    let mut first = Report::default();
    f(v, &mut first);
    let slight = |x: &Violation| {
        ACCURACY.contains(&x.class.as_str()) && first.worst.get(x.class.as_str()).map_or(false, |w| *w < 30.0)
    };
    if !first.violations.is_empty() && first.violations.iter().all(slight) {
        let chance = [0.3, 0.1].iter().any(|k| {
            let mut s = v.spec.clone();
            s.ode.rel = (s.ode.rel * k).max(1e-13);
            s.ode.abs *= k;
            let out = run(&s);
            let Some(rec) = out.outcome.rec() else {
                return true;
            };
            let mut again = Report::default();
            f(&view(&s, &out.ctx, rec), &mut again);
            again.violations.is_empty()
        });
        if chance {
            first.violations.clear();
            r.probe("step size control missed a flow reversal");
        }
    }
    r.absorb(&first);
}

/// Judge a single run by one property
pub fn judge(prop: &str, spec: &RunSpec, out: &RunOut, e: &mut Exec) {
    let r = &mut e.report;
    sane(out, r);
    let Some(rec) = out.outcome.rec() else {
        return;
    };
    let v = view(spec, &out.ctx, rec);
    let any_fired = out.ctx.fired.iter().any(|f| f.get() > 0);
    e.nontrivial = v.rounds >= 2 || any_fired;
    if v.murky && !matches!(prop, "C05" | "C06" | "C07") {
        r.skip("fault changed the fluid or the drive of the returned cycle");
        return;
    }
    match prop {
        "C01" => c01(&v, r),
        "C02" => {
            settle(&v, r, c02);
            e.nontrivial = out.ctx.zero_calls.get() >= 3;
        }
        "C03" => settle(&v, r, c03),
        "C04" => settle(&v, r, c04),
        "C05" => {
            c05(&v, r);
            e.nontrivial = true;
        }
        "C06" => c06(&v, r),
        "C07" => {
            if clock_faulty(&v) {
                r.skip("clock fault in the returned cycle");
            } else {
                c07(&v, r);
            }
        }
        "C13" => {
            settle(&v, r, |v, r| c13(v, r, 1500));
            e.nontrivial = true;
        }
        _ => {}
    }
}

fn clock_faulty(v: &View) -> bool {
    let last = v.rounds.saturating_sub(1);
    v.spec.faults.iter().any(|f| {
        matches!(f.what, What::Frequency | What::ThermalRes | What::Parasitics)
            && match f.when {
                When::Rounds { from, to } => last >= from && last < to,
                When::Calls { .. } => true,
            }
    })
}

// ------------------------------------------------------------------ C15

fn witness(prop: &str, spec: &RunSpec, rounds: &[u64], e: &mut Exec) {
    let out = run(spec);
    e.absorb(spec, &out);
    sane(&out, &mut e.report);
    if let Some(rec) = out.outcome.rec() {
        let v = view(spec, &out.ctx, rec);
        if prop == "C15" && !v.murky && !clock_faulty(&v) {
            c15_results(&v, &mut e.report);
            // the last consultation is about the returned cycle
            shown_in(&v, &out, v.rounds - 1, &mut e.report, "in the last iteration");
        }
        e.nontrivial |= v.rounds >= 2;
    }
    let asked = out.ctx.asked.borrow().clone();
    let total = out.ctx.round();
    let answers = |which: usize| -> Vec<f64> {
        asked
            .iter()
            .filter(|(w, cb, a)| usize::from(*w) == which && *cb == CB_APPROACH + which && a.phase == Phase::Run)
            .map(|a| a.2.answer)
            .collect()
    };
    let all = [answers(0), answers(1), answers(2)];
    let mut done = Vec::new();
    for j in rounds {
        if total < 2 || all.iter().any(|a| a.len() < total as usize) {
            break;
        }
        let j = j % total;
        if done.contains(&j) || (j == total - 1 && out.outcome.rec().is_some()) {
            continue;
        }
        done.push(j);
        // the same run, but iteration j finds that nothing changes
        let mut w = spec.clone();
        for k in 0..3 {
            let first = initial_truth(spec.hx(k), k);
            let first = out.ctx.peek(CB_INITIAL + k, 0, first);
            let mut seq: Vec<f64> = all[k][..j as usize].to_vec();
            seq.push(seq.last().copied().unwrap_or(first));
            w.hx_mut(k).initial = Some(first);
            w.hx_mut(k).answer = Answer::Script { seq };
        }
        w.faults.retain(|f| !matches!(f.what, What::Approach | What::Initial));
        let wout = run(&w);
        e.absorb(&w, &wout);
        let Some(rec) = wout.outcome.rec() else {
            e.report.skip("witness run did not return");
            continue;
        };
        let v = view(&w, &wout.ctx, rec);
        if v.rounds != j + 1 || v.murky {
            e.report.skip("witness run not usable");
            continue;
        }
        e.report.probe("iterations checked against a witness run");
        e.nontrivial = true;
        shown_in(&v, &out, j, &mut e.report, &format!("in iteration {j} of {total}"));
    }
}

/// Compare what components were shown in iteration `j` of a run with the cycle in `v`
fn shown_in(v: &View, out: &RunOut, j: u64, r: &mut Report, when: &str) {
    if !v.rec.ser.consistent() {
        r.fail("series_missing", "series differ in length".into());
        return;
    }
    let want = true_states(v);
    let s = summaries(v);
    let broken_gas = out.ctx.spec.faults.iter().zip(&out.ctx.fired).any(|(f, n)| n.get() > 0 && f.target == Target::Fluid);
    for (w, cb, a) in out.ctx.asked.borrow().iter() {
        let which = usize::from(*w);
        if a.phase == Phase::Run && *cb == CB_APPROACH + which && a.round == j {
            if broken_gas && !(a.shown.dens.is_finite() && a.shown.cp.is_finite()) {
                r.skip("fluid failed while the state was put together");
                continue;
            }
            compare_shown(r, &a.shown, &want[which], &s, which, when);
        }
    }
    // the drive is asked at the start of the next iteration
    for a in out.ctx.ws_asked.borrow().iter() {
        if a.phase == Phase::Run && a.round == j + 1 && a.cb == CB_WSPAR {
            for (x, y, name) in [
                (a.pres[0], s.p_avg, "average"),
                (a.pres[1], s.p_max, "maximum"),
                (a.pres[2], s.p_min, "minimum"),
                (a.pres[3], v.spec.pres_zero, "time zero"),
            ] {
                r.eq("shown_ws", x, y, 1e-9, s.p_max, &format!("working spaces are shown a {name} pressure after iteration {j}"));
            }
        }
    }
}

// ------------------------------------------------------------------ C08

fn check_limits(spec: &RunSpec, limits: &[(u64, u64)], scripted: bool, e: &mut Exec) {
    let base = run(spec);
    e.absorb(spec, &base);
    sane(&base, &mut e.report);
    let mut try_limits = |e: &mut Exec, inner: u64, outer: u64| -> (RunSpec, RunOut) {
        let mut s = spec.clone();
        s.max_inner = inner;
        s.max_outer = outer;
        let out = run(&s);
        e.absorb(&s, &out);
        sane(&out, &mut e.report);
        let used = out.ctx.round();
        e.report.ensure("over_limit", used <= outer, || {
            format!("components were consulted in {used} iterations with {outer} allowed")
        });
        (s, out)
    };
    if !scripted {
        // whatever the components do, the limit decides exactly where it has to
        let n = base.ctx.round();
        match &base.outcome {
            Outcome::Ok(rec) => {
                e.nontrivial = n >= 2;
                let (_, at) = try_limits(e, spec.max_inner, n);
                expect(&mut e.report, &at, "ok", || format!("settles in iteration {n}, {n} outer iterations allowed"));
                if let Outcome::Ok(r) = &at.outcome {
                    e.report.ensure("limit_shows", r.hash() == rec.hash(), || {
                        format!("another engine is returned when exactly the {n} needed outer iterations are allowed")
                    });
                }
                let (_, below) = try_limits(e, spec.max_inner, n - 1);
                expect(&mut e.report, &below, "outer_loop", || {
                    format!("settles in iteration {n}, {} outer iterations allowed", n - 1)
                });
                let (_, none) = try_limits(e, 0, spec.max_outer);
                expect(&mut e.report, &none, "inner_loop", || "no inner iterations allowed".into());
            }
            Outcome::Outer => {
                e.nontrivial = true;
                e.report.ensure("gave_up_early", n == spec.max_outer, || {
                    format!("gave up after {n} of {} outer iterations", spec.max_outer)
                });
            }
            _ => {}
        }
        return;
    }
    // predicted temperatures, inner iterations and the iteration that settles
    let script = |k: usize| match &spec.hx(k).answer {
        Answer::Script { seq } => seq.clone(),
        _ => vec![],
    };
    let seqs = [script(0), script(1), script(2)];
    let answer = |k: usize, j: usize| seqs[k].get(j).or(seqs[k].last()).copied().unwrap_or(f64::NAN);
    let mut a: [f64; 3] = std::array::from_fn(|k| initial_truth(spec.hx(k), k));
    let mut needed: Vec<u64> = Vec::new(); // inner iterations by outer iteration
    let mut settled = false;
    let most = seqs.iter().map(Vec::len).max().unwrap_or(0) + 2;
    const CAP: usize = 30;
    for j in 0..most {
        let doubt = |g: f64| (0.75..1.33).contains(&g);
        let gap = |x: f64, y: f64| (x / spec.inner.abs).max(y / spec.inner.rel);
        let stop = |x: f64, y: f64| gap(x, y) < 1.0;
        let fine = inner_gaps_until(spec, a, CAP, 600, stop);
        let last = fine.last().map_or(f64::NAN, |g| gap(g.0, g.1));
        if fine.iter().any(|g| doubt(gap(g.0, g.1))) || !(last < 1.0 || fine.len() == CAP) {
            e.report.skip("inner loop too close to call");
            return;
        }
        needed.push(if last < 1.0 { fine.len() as u64 } else { u64::MAX });
        if last >= 1.0 {
            break;
        }
        let new: [f64; 3] = std::array::from_fn(|k| answer(k, j));
        let (t0, t1) = (temps_of(spec, a), temps_of(spec, new));
        let mut worst: f64 = 0.0;
        for i in 0..5 {
            let d = (t1[i] - t0[i]).abs();
            worst = worst.max(d / spec.outer.abs).max(d / t0[i] / spec.outer.rel);
        }
        if (0.9999..1.0001).contains(&worst) {
            e.report.skip("outer loop too close to call");
            return;
        }
        if worst < 1.0 {
            settled = true;
            break;
        }
        a = new;
    }
    let rounds = needed.len() as u64;
    let finite: Vec<u64> = needed.iter().copied().filter(|n| *n < u64::MAX).collect();
    let nmax = finite.iter().copied().max().unwrap_or(1);
    let predict = |inner: u64, outer: u64| -> Option<(&'static str, u64)> {
        for j in 0..outer {
            if j >= rounds {
                return None; // beyond what was predicted
            }
            let n = needed[j as usize];
            if n == u64::MAX && inner > CAP as u64 {
                return None;
            }
            if n > inner {
                return Some(("inner_loop", j));
            }
            if settled && j + 1 == rounds {
                return Some(("ok", rounds));
            }
        }
        Some(("outer_loop", outer))
    };
    e.nontrivial = true;
    let mut plan = vec![
        (nmax, rounds),
        (nmax.saturating_sub(1), rounds),
        (nmax, rounds.saturating_sub(1)),
        (nmax + 1, rounds + 1),
        (0, 1),
        (nmax, 0),
        // as good as none
        (u64::MAX, rounds),
        (nmax, u64::MAX),
        (1 << 32, 1 << 32),
    ];
    plan.extend(limits.iter().copied());
    let mut hash = match &base.outcome {
        Outcome::Ok(r) => Some(r.hash()),
        _ => None,
    };
    for (inner, outer) in plan {
        let Some((want, used)) = predict(inner, outer) else {
            continue;
        };
        let (_, out) = try_limits(e, inner, outer);
        let what = || {
            format!("limits {inner} inner, {outer} outer; needed {needed:?} inner iterations, settles {settled} after {rounds}")
        };
        expect(&mut e.report, &out, want, what);
        let n = out.ctx.round();
        e.report.ensure("iterations", n == used || out.outcome.name() != want, || {
            format!("components were consulted {n} times instead of {used}: {}", what())
        });
        e.report.probe(&format!("verdict {want}"));
        if let Outcome::Ok(r) = &out.outcome {
            let h = r.hash();
            if let Some(prev) = hash {
                e.report.ensure("limit_shows", prev == h, || "different limits give different engines".into());
            }
            hash = Some(h);
        }
    }
}

fn expect(r: &mut Report, out: &RunOut, want: &str, why: impl Fn() -> String) {
    let got = out.outcome.name();
    if matches!(out.outcome, Outcome::TooLong) {
        return;
    }
    let class = if got == "ok" { "accepted_wrongly" } else if want == "ok" { "refused_wrongly" } else { "wrong_verdict" };
    r.ensure(class, got == want, || format!("run ends with {got} instead of {want}: {}", why()));
}

// ------------------------------------------------------------------ C10

/// Largest scaled difference between two engines
pub fn distance(a: &Rec, b: &Rec, spec: &RunSpec) -> (f64, String) {
    let mut worst = (0.0, String::from("nothing"));
    let mut cmp = |name: &str, x: f64, y: f64, scale: f64| {
        let d = (x - y).abs() / scale.max(f64::MIN_POSITIVE);
        if !(d <= worst.0) {
            worst = (if d.is_nan() { f64::INFINITY } else { d }, format!("{name}: {x} and {y}"));
        }
    };
    for i in 0..7 {
        cmp("temperature", a.temp[i], b.temp[i], 300.0);
    }
    for i in 0..4 {
        cmp("pressure", a.pres[i], b.pres[i], b.pres[1]);
    }
    let mx = |v: &[f64]| v.iter().fold(0.0, |m: f64, x| m.max(x.abs()));
    let m_scale = b.ser.m.iter().map(|x| mx(x)).fold(0.0, f64::max);
    let q_scale = b.ser.q.iter().map(|x| mx(x)).fold(0.0, f64::max);
    for i in 0..3 {
        cmp("mass flow", a.m[i], b.m[i], m_scale);
        cmp("heat flow", a.q[i], b.q[i], q_scale);
    }
    if a.ser.lens() != b.ser.lens() {
        cmp("number of points", a.ser.time.len() as f64, b.ser.time.len() as f64, 1.0);
        return worst;
    }
    let period = b.ser.time.last().copied().unwrap_or(1.0);
    for i in 0..a.ser.time.len() {
        cmp("time", a.ser.time[i], b.ser.time[i], period);
        cmp("P", a.ser.P[i], b.ser.P[i], b.pres[1]);
        cmp("T_c", a.ser.T_c[i], b.ser.T_c[i], 300.0);
        cmp("T_e", a.ser.T_e[i], b.ser.T_e[i], 300.0);
        for k in 0..4 {
            cmp("m_dot", a.ser.m[k][i], b.ser.m[k][i], m_scale);
        }
    }
    let (ra, rb) = (a.res(), b.res());
    let w = b.pres[1] * kin_swept(&spec.ws.kin) * spec.ws.freq;
    for ((name, x), (_, y)) in ra.scalars().into_iter().zip(rb.scalars()) {
        let scale = if name.starts_with("heat_flow") {
            q_scale
        } else if name.starts_with("mass") {
            m_scale
        } else if name.starts_with("power") {
            w + y.abs()
        } else if name.starts_with("shaft") {
            w / spec.ws.freq
        } else if name.starts_with("eff") {
            // loses digits when little heat is put in
            (w / rb.heat_input.abs()).max(1.0) * (q_scale / rb.heat_input.abs()).max(1.0)
        } else if name.starts_with("pressure") {
            b.pres[1]
        } else {
            300.0
        };
        cmp(name, x, y, scale);
    }
    worst
}

/// Once the faults are over, a run settles about as fast as one that starts from there
fn recovery(calm: &RunSpec, disturbed: &RunSpec, b: &RunOut, v: &View, e: &mut Exec) {
    if disturbed.ws.freq_dep != 0.0 || disturbed.ws.par_dep != 0.0 {
        return;
    }
    // the first iteration without faults: answers of the one before are where it starts
    let mut over = 0;
    for (f, n) in disturbed.faults.iter().zip(&b.ctx.fired) {
        if n.get() > 0 && f.what != What::Initial {
            match f.when {
                When::Rounds { to, .. } => over = over.max(to),
                When::Calls { .. } => return,
            }
        }
    }
    let after = v.rounds.saturating_sub(over);
    if over == 0 || after <= 6 {
        return;
    }
    let asked = b.ctx.asked.borrow();
    let answer = |k: u8| asked.iter().find(|(w, cb, a)| *w == k && *cb < CB_INITIAL && a.phase == Phase::Run && a.round + 1 == over).map(|a| a.2.answer);
    let (Some(x), Some(y), Some(z)) = (answer(0), answer(1), answer(2)) else {
        return;
    };
    drop(asked);
    let mut fresh = calm.clone();
    for (k, a) in [x, y, z].into_iter().enumerate() {
        fresh.hx_mut(k).initial = None;
        fresh.faults.push(Fault {
            target: [Target::Chx, Target::Regen, Target::Hhx][k],
            what: What::Initial,
            when: When::Rounds { from: 0, to: 1 },
            how: How::Set(a),
        });
    }
    let c = run(&fresh);
    e.absorb(&fresh, &c);
    if c.outcome.rec().is_none() {
        return;
    }
    e.report.probe("recovery compared with a fresh start");
    let need = c.ctx.round();
    e.report.le("recovery_time", after as f64, (2 * need + 6) as f64, || {
        format!("the run needs {after} iterations after the last fault, a run that starts from there needs {need}")
    });
}

/// How much further than a tolerance the steady states of two runs may be apart
pub const LIM_PAIR: f64 = 10.0;

fn check_pair(calm: &RunSpec, disturbed: &RunSpec, e: &mut Exec) {
    let a = run(calm);
    e.absorb(calm, &a);
    let b = run(disturbed);
    e.absorb(disturbed, &b);
    sane(&a, &mut e.report);
    sane(&b, &mut e.report);
    let Some(ra) = a.outcome.rec() else {
        e.report.skip("undisturbed run does not converge");
        return;
    };
    if let Some(rb) = b.outcome.rec() {
        let v = view(disturbed, &b.ctx, rb);
        // faults that are still on when the run ends are not over
        let still = disturbed.faults.iter().zip(&b.ctx.fired).any(|(f, n)| {
            n.get() > 0
                && match f.when {
                    When::Rounds { to, .. } => v.rounds <= to && f.what != What::Initial,
                    When::Calls { .. } => matches!(f.how, How::Inf | How::NegInf | How::Nan) && v.murky,
                }
        });
        if still {
            e.report.skip("run ended before the faults did");
            return;
        }
        let hurt = b.ctx.asked.borrow().iter().any(|a| a.2.round + 2 >= v.rounds && a.2.faulty && a.2.phase == Phase::Run);
        if hurt {
            e.report.probe("fault in the iteration before the last");
        }
        e.nontrivial = b.ctx.fired.iter().any(|n| n.get() > 0) || disturbed.chx.initial != calm.chx.initial;
        recovery(calm, disturbed, &b, &v, e);
        let (d, what) = distance(rb, ra, calm);
        let lim = LIM_PAIR * (calm.inner.abs.min(calm.inner.rel * 300.0) + calm.outer.abs.min(calm.outer.rel * 300.0)) / 300.0
            + K_MASS * promise(calm)
            + 1e-7;
        if d > lim && (calm.ws.freq_dep != 0.0 || calm.ws.par_dep != 0.0) {
            // did the drive run at another speed or with other losses in the returned cycle?
            let used = |spec: &RunSpec, out: &RunOut, rec: &Rec| {
                let v = view(spec, &out.ctx, rec);
                [v.freq, v.model.q_c, v.model.q_e]
            };
            let (x, y) = (used(calm, &a, ra), used(disturbed, &b, rb));
            if (0..3).any(|i| (x[i] - y[i]).abs() > 1e-2 * d * x[i].abs()) {
                *e.report.findings.entry("pressure-dependent-drive").or_default() += 1;
                return;
            }
        }
        if d > lim && d < 10.0 * lim {
            // slight: is it only how far apart two settled iterations happen to be?
            let finer = |s: &RunSpec| {
                let mut s = s.clone();
                for t in [&mut s.inner, &mut s.outer] {
                    t.abs *= 0.1;
                    t.rel *= 0.1;
                }
                s.max_inner *= 2;
                s
            };
            let (x, y) = (run(&finer(calm)), run(&finer(disturbed)));
            let gap = match (x.outcome.rec(), y.outcome.rec()) {
                (Some(x), Some(y)) => distance(y, x, calm).0,
                _ => 0.0,
            };
            if gap < 0.5 * d {
                e.report.skip("settled iterations happen to be far apart");
                return;
            }
        }
        e.report.le("trace_left", d, lim, || format!("the disturbed run ends elsewhere: {what}"));
    } else if matches!(b.outcome, Outcome::Inner | Outcome::Outer) {
        // a momentary failure of an evaluation may end the run, that is an error and no trace
        let failed = disturbed
            .faults
            .iter()
            .zip(&b.ctx.fired)
            .any(|(f, n)| n.get() > 0 && matches!(f.how, How::Nan | How::Inf | How::NegInf | How::Fail | How::Singular));
        // the iteration on the start temperatures may also be caught between two step size
        // sequences of the integrator whose results are further apart than the tolerance
        let caught = b.outcome.name() == "inner_loop"
            && !failed
            && [0.3, 0.1, 0.03].iter().any(|k| {
                let mut s = disturbed.clone();
                s.ode.rel = (s.ode.rel * k).max(1e-13);
                s.ode.abs *= k;
                run(&s).outcome.rec().is_some()
            });
        if failed {
            e.report.skip("failing evaluation ended the run");
        } else if caught {
            e.report.skip("inner tolerance is beyond the accuracy of the integration");
        } else {
            let name = b.outcome.name();
            let n = b.ctx.round();
            e.report.fail("no_recovery", format!("the disturbed run ends with {name} after {n} iterations, the calm one converges"));
        }
    }
}

// ------------------------------------------------------------------ C14

fn solver_name(s: &RunSpec) -> &'static str {
    match s.solver {
        SolverSpec::Lu => "LU",
        SolverSpec::Qr => "QR",
        SolverSpec::Svd => "SVD",
        SolverSpec::Switch { .. } => "mixed",
    }
}

/// How much further than a tolerance the steady states of two iterations may be apart
pub const LIM_SOLVERS: f64 = 10.0;

fn check_solvers(spec: &RunSpec, seed: u64, e: &mut Exec) {
    let solvers = [
        SolverSpec::Lu,
        SolverSpec::Qr,
        SolverSpec::Svd,
        SolverSpec::Switch { seed, svd_in: 3 },
    ];
    let mut outs: Vec<(RunSpec, RunOut)> = Vec::new();
    for solver in solvers {
        let mut s = spec.clone();
        s.solver = solver;
        let out = run(&s);
        if std::env::var("SIM_DEBUG").is_ok() {
            eprintln!("{:?}: {} cycles {} rounds {} vol {} solves {}", solver_name(&s), out.outcome.name(), out.ctx.zero_calls.get(), out.ctx.round(), out.ctx.vol_in_run.get(), out.ctx.solves.get());
        }
        e.absorb(&s, &out);
        sane(&out, &mut e.report);
        outs.push((s, out));
    }
    // every solve of the last run was checked for its residual
    let ctx = &outs[3].1.ctx;
    let worst = ctx.worst_residual.get();
    e.report.le("residual", worst, 1e-7, || {
        let (name, a, b) = ctx.worst_system.borrow().clone().unwrap_or_default();
        if std::env::var("SIM_SHOW_SYSTEM").is_ok() {
            println!("{a:?}\n{b:?}");
        }
        format!("{name} solver leaves a relative residual of {worst:e}")
    });
    if outs.iter().any(|o| matches!(o.1.outcome, Outcome::TooLong)) {
        return;
    }
    e.nontrivial = outs[0].1.outcome.rec().is_some();
    if outs[1..].iter().any(|o| o.1.outcome.name() != outs[0].1.outcome.name()) {
        // at the edge of convergence rounding decides: is it still different away from the edge?
        for k in [0.03, 0.1, 0.3] {
            let again = repeat_solvers(&outs, e, |s| {
                s.ode.rel = (s.ode.rel * k).max(1e-12);
                s.ode.abs *= k;
                s.max_inner *= 2;
            });
            let name = again[0].1.outcome.name();
            if again.iter().all(|o| o.1.outcome.name() == name || matches!(o.1.outcome, Outcome::TooLong)) {
                e.report.skip("rounding decides the verdict");
                return;
            }
        }
        let names: Vec<_> = outs.iter().map(|(s, o)| format!("{} using {}", o.outcome.name(), solver_name(s))).collect();
        e.report.fail("verdict", format!("run ends with {}, and differently for all integration tolerances", names.join(", ")));
        return;
    }
    let (name, worst) = solvers_differ(&outs, e);
    if worst > 1.0 && worst < 10.0 {
        // slight: is it only how far apart two settled iterations happen to be?
        let again = repeat_solvers(&outs, e, |s| {
            for t in [&mut s.inner, &mut s.outer] {
                t.abs *= 0.1;
                t.rel *= 0.1;
            }
            s.max_inner *= 2;
        });
        if again.iter().any(|o| o.1.outcome.rec().is_none()) || solvers_differ(&again, e).1 <= 1.0 {
            e.report.skip("settled iterations happen to be far apart");
            return;
        }
    }
    e.report.le("engine", worst, 1.0, || name);
}

fn repeat_solvers(outs: &[(RunSpec, RunOut)], e: &mut Exec, f: impl Fn(&mut RunSpec)) -> Vec<(RunSpec, RunOut)> {
    outs.iter()
        .map(|(s, _)| {
            let mut s = s.clone();
            f(&mut s);
            let out = run(&s);
            e.absorb(&s, &out);
            (s, out)
        })
        .collect()
}

/// How far the engines of the different solvers are apart, in units of the limit
fn solvers_differ(outs: &[(RunSpec, RunOut)], e: &mut Exec) -> (String, f64) {
    let spec = &outs[0].0;
    let lim = LIM_SOLVERS * (spec.inner.abs.min(spec.inner.rel * 300.0) + spec.outer.abs.min(spec.outer.rel * 300.0)) / 300.0
        + K_MASS * promise(spec)
        + 1e-7;
    let mut worst = (String::new(), 0.0);
    for (s, o) in &outs[1..] {
        if let (Some(x), Some(y)) = (outs[0].1.outcome.rec(), o.outcome.rec()) {
            let rounds = (outs[0].1.ctx.round(), o.ctx.round());
            // rounding may decide on which iteration a run ends, and so how wrong its drive was
            let over = spec.faults.iter().all(|f| match f.when {
                When::Rounds { to, .. } => f.what == What::Initial || to < rounds.0.min(rounds.1),
                When::Calls { .. } => true,
            });
            if rounds.0 != rounds.1 && !over {
                e.report.skip("run ended before the faults did");
                continue;
            }
            let (d, what) = distance(y, x, spec);
            if !(d / lim <= worst.1) {
                worst = (format!("{:?} gives another engine than LU: {what}", s.solver), d / lim);
            }
        }
    }
    worst
}

// ------------------------------------------------------------------ C09

fn check_failure(spec: &RunSpec, e: &mut Exec) {
    let out = run(spec);
    e.absorb(spec, &out);
    sane(&out, &mut e.report);
    let fired: Vec<u64> = out.ctx.fired.iter().map(Cell::get).collect();
    e.nontrivial = fired.iter().any(|n| *n > 0);
    let Some(rec) = out.outcome.rec() else {
        return;
    };
    let r = &mut e.report;
    finite(rec, r);
    let n = out.ctx.singular_solved.get();
    r.ensure("failed_solve_used", n == 0, || format!("an engine was returned although {n} systems without a solution were solved"));
    // a failure that persists ends in an error
    for (i, (f, n)) in spec.faults.iter().zip(&fired).enumerate() {
        let on = match f.when {
            When::Calls { len, .. } => len > 1 << 50,
            When::Rounds { to, .. } => to > 1 << 50,
        };
        if !on || *n == 0 {
            continue;
        }
        let fatal = match (f.what, f.how) {
            (What::Solve, _) => true,
            (What::Volumes, How::Nan | How::Inf | How::NegInf) => true,
            (What::AnyProp, _) => true,
            // properties that only components see
            (What::Prop(3), _) => false,
            (What::Prop(_), _) => true,
            (What::Approach, How::Nan | How::Inf | How::NegInf) => true,
            (What::Volume, How::Nan | How::Inf | How::NegInf) => true,
            (What::Initial, How::Nan | How::Inf | How::NegInf) => true,
            (What::Frequency, How::Nan | How::Inf) => true,
            (What::Frequency, How::Set(x)) => x == 0.0,
            (What::ThermalRes, How::Nan) => true,
            (What::Parasitics, How::Nan | How::Inf | How::NegInf) => true,
            _ => false,
        };
        // properties are also looked up for the components, after the last evaluation
        let in_cycle = match f.what {
            What::AnyProp | What::Prop(_) => out.ctx.fired_at_vol[i].get() < out.ctx.vol_in_run.get(),
            _ => true,
        };
        // no other fault may have answered instead
        let prop = |w: What| matches!(w, What::AnyProp | What::Prop(_));
        let alone = spec
            .faults
            .iter()
            .enumerate()
            .all(|(k, o)| k == i || o.target != f.target || (o.what != f.what && !(prop(o.what) && prop(f.what))));
        if fatal && in_cycle && alone {
            r.fail("persistent_failure", format!("an engine was returned although {} never recovered", fault_kind(f)));
        }
    }
    // no evaluation that failed is part of the engine, so it satisfies everything
    let v = view(spec, &out.ctx, rec);
    let weird = spec.faults.iter().zip(&fired).any(|(f, n)| {
        *n > 0
            && (matches!(f.what, What::Frequency | What::ThermalRes | What::Parasitics)
                || matches!(f.how, How::Set(_) | How::Mul(_)))
    });
    if v.murky || weird || !r.violations.is_empty() {
        r.skip("fault changed the physics");
        return;
    }
    settle(&v, r, c02);
    settle(&v, r, c03);
    // what is known about energy is reported with C04
    let mut energy = Report::default();
    settle(&v, &mut energy, c04);
    energy.findings.clear();
    r.absorb(&energy);
    c01_failure(&v, r);
}

/// A failed answer is not an answer to agree with
fn c01_failure(v: &View, r: &mut Report) {
    let a = implied_answers(v);
    if a.iter().all(|x| x.is_finite()) {
        c01(v, r);
    } else {
        r.fail("agreed_with_failure", format!("components answered {a:?} to the returned state"));
    }
}

// ------------------------------------------------------------------ solo

/// Run a spec in a fresh process and return (outcome name, result identity, event log identity)
pub fn solo(spec: &RunSpec) -> Result<(String, u64, u64), String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut child = Command::new(exe)
        .arg("solo")
        .env_clear()
        .current_dir("/")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| e.to_string())?;
    let text = serde_json::to_string(spec).map_err(|e| e.to_string())?;
    child.stdin.take().unwrap().write_all(text.as_bytes()).map_err(|e| e.to_string())?;
    let out = child.wait_with_output().map_err(|e| e.to_string())?;
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let mut parts = text.split_whitespace();
    let name = parts.next().unwrap_or("died").to_string();
    let a = parts.next().and_then(|x| x.parse().ok()).unwrap_or(0);
    let b = parts.next().and_then(|x| x.parse().ok()).unwrap_or(0);
    Ok((name, a, b))
}

pub type Shared<T> = Rc<RefCell<T>>;

impl Exec {
    pub fn merge(&mut self, o: &Exec) {
        self.runs += o.runs;
        self.sim_time += o.sim_time;
        self.callbacks += o.callbacks;
        self.scheduled += o.scheduled;
        for (k, v) in &o.outcomes {
            *self.outcomes.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.fired {
            *self.fired.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.parts {
            *self.parts.entry(k.clone()).or_default() += v;
        }
        self.sigs.extend(&o.sigs);
        self.nontrivial |= o.nontrivial;
        let mut h = Hasher::new();
        h.word(self.hash);
        h.word(o.hash);
        self.hash = h.0;
        self.report.absorb(&o.report);
    }
}
