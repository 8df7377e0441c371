//! The simulator's side of every call that leaves the code under test

use std::{
    cell::{Cell, RefCell},
    rc::Rc,
};

use crate::{
    rng::{mix2, Hasher},
    spec::*,
    watch::Watch,
};

/// Identifies a callback
pub type Cb = usize;
pub const CB_APPROACH: Cb = 0; // + 0..3
pub const CB_INITIAL: Cb = 3;
pub const CB_VOLUME: Cb = 6;
pub const CB_RHYD: Cb = 9;
pub const CB_PAR: Cb = 12;
pub const CB_FREQ: Cb = 15;
pub const CB_VOLFN: Cb = 16;
pub const CB_VOL: Cb = 17;
pub const CB_THERM: Cb = 18;
pub const CB_WSPAR: Cb = 19;
pub const CB_PROP: Cb = 20; // + 0..8
pub const CB_SOLVE: Cb = 28;
pub const N_CB: usize = 29;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Phase {
    Run,
    Results,
}

/// Payload of panics the simulator injects
pub struct Injected;
/// Payload used to stop a run that does not end
pub struct StepCap;
/// Payload used to give up on a run that takes too long without being endless
pub struct TooLong;

/// What a heat exchanger component was shown
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Shown {
    pub temp: f64,
    pub pres: f64,
    pub dens: f64,
    pub cp: f64,
    pub m: f64,
    pub q: f64,
    /// sink; chx and hhx temperatures; source
    pub t1: f64,
    pub t2: f64,
}

impl Shown {
    pub fn bits(&self) -> [u64; 8] {
        [
            self.temp.to_bits(),
            self.pres.to_bits(),
            self.dens.to_bits(),
            self.cp.to_bits(),
            self.m.to_bits(),
            self.q.to_bits(),
            self.t1.to_bits(),
            self.t2.to_bits(),
        ]
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Asked {
    pub seq: u64,
    pub phase: Phase,
    pub round: u64,
    pub shown: Shown,
    pub answer: f64,
    pub faulty: bool,
}

#[derive(Clone, Copy, Debug)]
pub struct WsAsked {
    pub seq: u64,
    pub phase: Phase,
    pub round: u64,
    pub cb: Cb,
    /// avg, max, min, time zero
    pub pres: [f64; 4],
    pub answer: f64,
}

pub struct Ctx {
    pub spec: Rc<RunSpec>,
    pub phase: Cell<Phase>,
    pub events: Cell<u64>,
    hash: Cell<Hasher>,
    pub calls: [Cell<u64>; N_CB],
    pub prop_calls: Cell<u64>,
    /// Faults by callback: index into spec.faults
    faults: Vec<Vec<usize>>,
    event_faults: Vec<usize>,
    pub fired: Vec<Cell<u64>>,
    /// Volume evaluations seen when the fault first fired
    pub fired_at_vol: Vec<Cell<u64>>,
    /// Number of consultations (distinct states) answered by each heat exchanger
    pub rounds: [Cell<u64>; 3],
    pub asked: RefCell<Vec<(u8, Cb, Asked)>>,
    pub ws_asked: RefCell<Vec<WsAsked>>,
    pub last: [Cell<f64>; N_CB],
    // progress
    pub vol_in_run: Cell<u64>,
    vol_since_zero: Cell<u64>,
    pub zero_calls: Cell<u64>,
    last_time: Cell<f64>,
    max_time: Cell<f64>,
    pub sim_time: Cell<f64>,
    pub total_cap: u64,
    pub solves: Cell<u64>,
    /// Systems without a solution that a solver "solved"
    pub singular_solved: Cell<u64>,
    pub worst_residual: Cell<f64>,
    pub worst_system: RefCell<Option<(String, Vec<f64>, Vec<f64>)>>,
    /// How often the run read a clock or asked for entropy
    pub seam_reads: Cell<u64>,
    switch: Cell<u64>,
    pub yielder: Option<Box<dyn Fn(u64)>>,
    /// Looks at the answers of the shipped components
    pub watch: Option<Watch>,
}

thread_local! {
    static STACK: RefCell<Vec<Rc<Ctx>>> = const { RefCell::new(Vec::new()) };
}

pub fn push(ctx: &Rc<Ctx>) {
    STACK.with(|s| s.borrow_mut().push(ctx.clone()));
}
pub fn pop() {
    STACK.with(|s| {
        s.borrow_mut().pop();
    });
}
pub fn current() -> Option<Rc<Ctx>> {
    STACK.with(|s| s.borrow().last().cloned())
}

fn callbacks_of(f: &Fault) -> Vec<Cb> {
    let hx = match f.target {
        Target::Chx => 0,
        Target::Regen => 1,
        Target::Hhx => 2,
        _ => 0,
    };
    match f.what {
        What::Approach => vec![CB_APPROACH + hx],
        What::Initial => vec![CB_INITIAL + hx],
        What::Volume => vec![CB_VOLUME + hx],
        What::RHyd => vec![CB_RHYD + hx],
        What::Parasitics => {
            if f.target == Target::Ws {
                vec![CB_WSPAR]
            } else {
                vec![CB_PAR + hx]
            }
        }
        What::Frequency => vec![CB_FREQ],
        What::Volumes => vec![CB_VOL],
        What::ThermalRes => vec![CB_THERM],
        What::AnyProp => (CB_PROP..CB_PROP + 8).collect(),
        What::Prop(i) => vec![CB_PROP + (i as usize % 8)],
        What::Solve => vec![CB_SOLVE],
        What::Event => vec![],
    }
}

impl Ctx {
    pub fn new(spec: &RunSpec, yielder: Option<Box<dyn Fn(u64)>>) -> Rc<Self> {
        let mut faults = vec![Vec::new(); N_CB];
        let mut event_faults = Vec::new();
        for (i, f) in spec.faults.iter().enumerate() {
            if f.what == What::Event {
                event_faults.push(i);
            }
            for cb in callbacks_of(f) {
                faults[cb].push(i);
            }
        }
        Rc::new(Self {
            spec: Rc::new(spec.clone()),
            phase: Cell::new(Phase::Run),
            events: Cell::new(0),
            hash: Cell::new(Hasher::new()),
            calls: std::array::from_fn(|_| Cell::new(0)),
            prop_calls: Cell::new(0),
            faults,
            event_faults,
            fired: spec.faults.iter().map(|_| Cell::new(0)).collect(),
            fired_at_vol: spec.faults.iter().map(|_| Cell::new(0)).collect(),
            rounds: std::array::from_fn(|_| Cell::new(0)),
            asked: RefCell::new(Vec::new()),
            ws_asked: RefCell::new(Vec::new()),
            last: std::array::from_fn(|_| Cell::new(f64::NAN)),
            vol_in_run: Cell::new(0),
            vol_since_zero: Cell::new(0),
            zero_calls: Cell::new(0),
            last_time: Cell::new(0.0),
            max_time: Cell::new(0.0),
            sim_time: Cell::new(0.0),
            total_cap: 6_000_000,
            solves: Cell::new(0),
            singular_solved: Cell::new(0),
            worst_residual: Cell::new(0.0),
            worst_system: RefCell::new(None),
            seam_reads: Cell::new(0),
            switch: Cell::new(match spec.solver {
                SolverSpec::Switch { seed, .. } => seed,
                _ => 0,
            }),
            yielder,
            watch: Watch::new(spec),
        })
    }

    pub fn hash(&self) -> u64 {
        self.hash.get().0
    }

    /// The outer iteration we are in: how often a heat exchanger was consulted
    pub fn round(&self) -> u64 {
        self.rounds.iter().map(Cell::get).max().unwrap_or(0)
    }

    pub fn note(&self, cb: Cb, args: &[f64], answer: f64) {
        let mut h = self.hash.get();
        h.word(cb as u64);
        for a in args {
            h.f(*a);
        }
        h.f(answer);
        self.hash.set(h);
    }

    /// Entered by every callback before it answers
    pub fn enter(&self, cb: Cb) -> u64 {
        let n = self.calls[cb].get();
        self.calls[cb].set(n + 1);
        let e = self.events.get();
        self.events.set(e + 1);
        if !self.event_faults.is_empty() && self.phase.get() == Phase::Run {
            for &i in &self.event_faults {
                if let When::Calls { from, len } = self.spec.faults[i].when {
                    if e >= from && e - from < len {
                        self.fire(i);
                        if self.spec.faults[i].how == How::Crash {
                            std::panic::panic_any(Injected);
                        }
                    }
                }
            }
        }
        if let Some(y) = &self.yielder {
            y(e);
        }
        n
    }

    fn fire(&self, i: usize) {
        if self.fired[i].get() == 0 {
            self.fired_at_vol[i].set(self.vol_in_run.get());
        }
        self.fired[i].set(self.fired[i].get() + 1);
    }

    /// Faults that hit this call: `n` counts the calls of this callback
    fn hits(&self, cb: Cb, n: u64, round: u64) -> Option<How> {
        if self.faults[cb].is_empty() || self.phase.get() == Phase::Results {
            return None;
        }
        let mut hit = None;
        for &i in &self.faults[cb] {
            let f = &self.spec.faults[i];
            let count = if f.what == What::AnyProp { self.prop_calls.get() } else { n };
            let on = match f.when {
                When::Rounds { from, to } => round >= from && round < to,
                When::Calls { from, len } => count >= from && count - from < len,
            };
            if on {
                hit = Some(i);
            }
        }
        // the last one that is on decides
        hit.map(|i| {
            self.fire(i);
            self.spec.faults[i].how
        })
    }

    /// Let the faults of this callback change an answer
    pub fn answer(&self, cb: Cb, n: u64, round: u64, truth: f64) -> (f64, bool) {
        let Some(how) = self.hits(cb, n, round) else {
            return (truth, false);
        };
        let x = match how {
            How::Add(d) => truth + d,
            How::Mul(m) => truth * m,
            How::Set(v) => v,
            How::Nan | How::Fail | How::Singular => f64::NAN,
            How::Inf => f64::INFINITY,
            How::NegInf => f64::NEG_INFINITY,
            How::Stuck => {
                let l = self.last[cb].get();
                if l.is_nan() {
                    truth
                } else {
                    l
                }
            }
            How::Noise(a) => {
                let r = mix2(n.wrapping_add(1), (cb as u64) << 32 | round);
                truth + a * ((r >> 11) as f64 / (1u64 << 52) as f64 - 1.0)
            }
            How::Crash => std::panic::panic_any(Injected),
        };
        (x, true)
    }

    /// The faults scheduled for a callback
    pub fn faults_on(&self, cb: Cb) -> impl Iterator<Item = &Fault> {
        self.faults[cb].iter().map(|&i| &self.spec.faults[i])
    }

    /// What a fault by outer iteration makes of an answer, without giving it
    pub fn peek(&self, cb: Cb, round: u64, truth: f64) -> f64 {
        let mut x = truth;
        for &i in &self.faults[cb] {
            let f = &self.spec.faults[i];
            if let When::Rounds { from, to } = f.when {
                if round >= from && round < to {
                    x = match f.how {
                        How::Add(d) => truth + d,
                        How::Mul(m) => truth * m,
                        How::Set(v) => v,
                        How::Nan | How::Fail | How::Singular => f64::NAN,
                        How::Inf => f64::INFINITY,
                        How::NegInf => f64::NEG_INFINITY,
                        _ => truth,
                    };
                }
            }
        }
        x
    }

    pub fn solve_fault(&self, n: u64) -> Option<How> {
        self.hits(CB_SOLVE, n, self.round())
    }

    pub fn next_switch(&self) -> u64 {
        let s = self.switch.get();
        self.switch.set(s.wrapping_add(0x9E37_79B9_7F4A_7C15));
        mix2(s, 77)
    }

    /// Called with the time of every volume evaluation
    pub fn progress(&self, t: f64) {
        if self.phase.get() != Phase::Run {
            return;
        }
        let v = self.vol_in_run.get() + 1;
        self.vol_in_run.set(v);
        if t == 0.0 {
            self.zero_calls.set(self.zero_calls.get() + 1);
            self.vol_since_zero.set(0);
            self.sim_time.set(self.sim_time.get() + self.max_time.get());
            self.max_time.set(0.0);
        } else {
            self.vol_since_zero.set(self.vol_since_zero.get() + 1);
            if t > self.max_time.get() && t.is_finite() {
                self.max_time.set(t);
            }
        }
        self.last_time.set(t);
        if self.phase.get() == Phase::Run {
            let s = &self.spec;
            let cycles = s.max_inner.saturating_add(3).saturating_mul(s.max_outer.saturating_add(1));
            let limit = cycles.saturating_mul(12).saturating_add(1000);
            if self.vol_since_zero.get() > 2_000_000 + 4 * u64::from(s.resolution) || self.zero_calls.get() > limit {
                std::panic::panic_any(StepCap);
            }
            if v > self.total_cap {
                std::panic::panic_any(TooLong);
            }
        }
    }

    pub fn total_sim_time(&self) -> f64 {
        self.sim_time.get() + self.max_time.get()
    }
}
