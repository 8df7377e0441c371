//! One simulated run: the code under test between the proxies of the simulator

#![allow(non_snake_case)]

use std::{
    any::Any,
    cell::RefCell,
    panic::{catch_unwind, AssertUnwindSafe},
    rc::Rc,
};

use sett_rs::{
    api::RunResults,
    types::{ConvergenceTolerance, LoopTolerance, MaxIters, OdeTolerance, RunError, RunInputs, RunSettings},
    Engine, LuSolver, QrSolver, SvdDefaultSolver,
};

use crate::{comps::*, ctx::*, rng::Hasher, seams, spec::*};

/// Everything a run returned, as plain data
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Rec {
    /// avg, max, min, time zero
    pub pres: [f64; 4],
    /// sink, chx, regen cold, regen avg, regen hot, hhx, source
    pub temp: [f64; 7],
    pub m: [f64; 3],
    pub q: [f64; 3],
    pub imbalance: f64,
    pub ser: Series,
    pub res: Option<Box<Res>>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Series {
    pub time: Vec<f64>,
    pub P: Vec<f64>,
    pub T_c: Vec<f64>,
    pub T_e: Vec<f64>,
    /// ck, kr, rl, le
    pub m: [Vec<f64>; 4],
    /// k, r, l
    pub q: [Vec<f64>; 3],
}

impl Series {
    pub fn lens(&self) -> [usize; 11] {
        [
            self.time.len(),
            self.P.len(),
            self.T_c.len(),
            self.T_e.len(),
            self.m[0].len(),
            self.m[1].len(),
            self.m[2].len(),
            self.m[3].len(),
            self.q[0].len(),
            self.q[1].len(),
            self.q[2].len(),
        ]
    }
    pub fn consistent(&self) -> bool {
        let l = self.lens();
        l[0] > 0 && l.iter().all(|n| *n == l[0])
    }
    pub fn all(&self) -> impl Iterator<Item = f64> + '_ {
        self.time
            .iter()
            .chain(&self.P)
            .chain(&self.T_c)
            .chain(&self.T_e)
            .chain(self.m.iter().flatten())
            .chain(self.q.iter().flatten())
            .copied()
    }
}

/// The fields of `RunResults`
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Res {
    pub eff: f64,
    pub eff_overall: f64,
    pub heat_input: f64,
    pub heat_rejection: f64,
    pub q: [f64; 3],
    pub m: [f64; 3],
    pub ideal: f64,
    pub indicated: f64,
    pub shaft: f64,
    pub net: f64,
    pub pres: [f64; 4],
    pub imbalance: f64,
    pub torque: f64,
    pub temp: [f64; 7],
    pub ser: Series,
    pub P_c: Vec<f64>,
    pub P_e: Vec<f64>,
}

impl Res {
    pub fn scalars(&self) -> Vec<(&'static str, f64)> {
        vec![
            ("efficiency.mechanical", self.eff),
            ("heat_flow.input", self.heat_input),
            ("heat_flow.rejection", self.heat_rejection),
            ("heat_flow.chx", self.q[0]),
            ("heat_flow.regen", self.q[1]),
            ("heat_flow.hhx", self.q[2]),
            ("mass_flow.chx", self.m[0]),
            ("mass_flow.regen", self.m[1]),
            ("mass_flow.hhx", self.m[2]),
            ("power.ideal_indicated", self.ideal),
            ("power.indicated", self.indicated),
            ("power.shaft", self.shaft),
            ("power.net", self.net),
            ("pressure.avg", self.pres[0]),
            ("pressure.max", self.pres[1]),
            ("pressure.min", self.pres[2]),
            ("pressure.t_zero", self.pres[3]),
            ("regen_imbalance", self.imbalance),
            ("shaft_torque", self.torque),
            ("temperature.sink", self.temp[0]),
            ("temperature.chx", self.temp[1]),
            ("temperature.regen_cold", self.temp[2]),
            ("temperature.regen_avg", self.temp[3]),
            ("temperature.regen_hot", self.temp[4]),
            ("temperature.hhx", self.temp[5]),
            ("temperature.source", self.temp[6]),
        ]
    }

    pub fn from_results(r: RunResults) -> Self {
        let v = r.values;
        Res {
            eff: r.efficiency.mechanical,
            eff_overall: r.efficiency.overall,
            heat_input: r.heat_flow.input,
            heat_rejection: r.heat_flow.rejection,
            q: [r.heat_flow.chx, r.heat_flow.regen, r.heat_flow.hhx],
            m: [r.mass_flow.chx, r.mass_flow.regen, r.mass_flow.hhx],
            ideal: r.power.ideal_indicated,
            indicated: r.power.indicated,
            shaft: r.power.shaft,
            net: r.power.net,
            pres: [r.pressure.avg, r.pressure.max, r.pressure.min, r.pressure.t_zero],
            imbalance: r.regen_imbalance,
            torque: r.shaft_torque,
            temp: [
                r.temperature.sink,
                r.temperature.chx,
                r.temperature.regen_cold,
                r.temperature.regen_avg,
                r.temperature.regen_hot,
                r.temperature.hhx,
                r.temperature.source,
            ],
            ser: Series {
                time: v.time,
                P: v.P,
                T_c: v.T_c,
                T_e: v.T_e,
                m: [v.m_dot_ck, v.m_dot_kr, v.m_dot_rl, v.m_dot_le],
                q: [v.Q_dot_k, v.Q_dot_r, v.Q_dot_l],
            },
            P_c: v.P_c,
            P_e: v.P_e,
        }
    }

    pub fn hash(&self) -> u64 {
        let mut h = Hasher::new();
        for (_, x) in self.scalars() {
            h.f(x);
        }
        h.f(self.eff_overall);
        for x in self.ser.all().chain(self.P_c.iter().copied()).chain(self.P_e.iter().copied()) {
            h.f(x);
        }
        h.0
    }
}

impl Rec {
    pub fn hash(&self) -> u64 {
        let mut h = Hasher::new();
        for x in self.pres.iter().chain(&self.temp).chain(&self.m).chain(&self.q) {
            h.f(*x);
        }
        h.f(self.imbalance);
        for x in self.ser.all() {
            h.f(x);
        }
        if let Some(r) = &self.res {
            h.word(r.hash());
        }
        h.0
    }
    pub fn res(&self) -> &Res {
        self.res.as_ref().expect("results were recorded")
    }
}

#[derive(Clone, Debug)]
pub enum Outcome {
    Ok(Box<Rec>),
    Inner,
    Outer,
    /// An injected panic went through
    Crashed,
    /// The code under test panicked on its own
    Panic(String),
    /// The run does not end
    Endless,
    /// The run was given up
    TooLong,
}

impl Outcome {
    pub fn name(&self) -> &'static str {
        match self {
            Outcome::Ok(_) => "ok",
            Outcome::Inner => "inner_loop",
            Outcome::Outer => "outer_loop",
            Outcome::Crashed => "crashed",
            Outcome::Panic(_) => "panic",
            Outcome::Endless => "endless",
            Outcome::TooLong => "given_up",
        }
    }
    pub fn rec(&self) -> Option<&Rec> {
        match self {
            Outcome::Ok(r) => Some(r),
            _ => None,
        }
    }
    pub fn hash(&self) -> u64 {
        let mut h = Hasher::new();
        h.s(self.name());
        if let Outcome::Ok(r) = self {
            h.word(r.hash());
        }
        h.0
    }
}

pub struct RunOut {
    pub outcome: Outcome,
    pub ctx: Rc<Ctx>,
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Keep panics quiet but remember where they came from
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                // with the name of the crate
                let f = f.rfind("/src/").map_or(f, |i| &f[f[..i].rfind('/').unwrap_or(0)..]);
                format!("{}:{}", f, l.line())
            })
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
        if std::env::var("SIM_SHOW_PANICS").is_ok() {
            eprintln!("panic: {msg} at {loc}");
        }
    }));
}

pub fn panic_outcome(payload: &(dyn Any + Send)) -> Outcome {
    if payload.is::<Injected>() {
        Outcome::Crashed
    } else if payload.is::<StepCap>() {
        Outcome::Endless
    } else if payload.is::<TooLong>() {
        Outcome::TooLong
    } else {
        Outcome::Panic(PANIC.with(|p| p.borrow().clone()))
    }
}

pub fn settings(s: &RunSpec) -> RunSettings {
    RunSettings {
        resolution: s.resolution,
        loop_tol: LoopTolerance {
            inner: ConvergenceTolerance { abs: s.inner.abs, rel: s.inner.rel },
            outer: ConvergenceTolerance { abs: s.outer.abs, rel: s.outer.rel },
        },
        ode_tol: OdeTolerance { abs: s.ode.abs, rel: s.ode.rel },
        max_iters: MaxIters { inner: s.max_inner as usize, outer: s.max_outer as usize },
    }
}

pub fn inputs(s: &RunSpec) -> RunInputs {
    RunInputs { pres_zero: s.pres_zero, temp_sink: s.temp_sink, temp_source: s.temp_source }
}

fn record(engine: Engine<SimFluid>, ctx: &Ctx) -> Rec {
    let st = &engine.state;
    let t = &st.temp;
    let v = &engine.values;
    let mut rec = Rec {
        pres: [st.pres.avg, st.pres.max, st.pres.min, st.pres.t_zero],
        temp: [t.sink, t.chx, t.regen.cold, t.regen.avg, t.regen.hot, t.hhx, t.source],
        m: [st.mass_flow.chx, st.mass_flow.regen, st.mass_flow.hhx],
        q: [st.heat_flow.chx, st.heat_flow.regen, st.heat_flow.hhx],
        imbalance: st.regen_imbalance.0,
        ser: Series {
            time: v.time.clone(),
            P: v.P.clone(),
            T_c: v.T_c.clone(),
            T_e: v.T_e.clone(),
            m: [v.m_dot_ck.clone(), v.m_dot_kr.clone(), v.m_dot_rl.clone(), v.m_dot_le.clone()],
            q: [v.Q_dot_k.clone(), v.Q_dot_r.clone(), v.Q_dot_l.clone()],
        },
        res: None,
    };
    ctx.phase.set(Phase::Results);
    rec.res = Some(Box::new(Res::from_results(RunResults::from(engine))));
    rec
}

/// Execute one run to its end
pub fn run(spec: &RunSpec) -> RunOut {
    run_with(spec, None)
}

pub fn run_with(spec: &RunSpec, yielder: Option<Box<dyn Fn(u64)>>) -> RunOut {
    let ctx = Ctx::new(spec, yielder);
    push(&ctx);
    // depends on nothing but the spec, a run is the same run wherever it happens
    let plain = !spec.faults.iter().any(|f| f.target == Target::Solver || f.what == What::Event);
    let clock = seams::simulated(1);
    let result = catch_unwind(AssertUnwindSafe(|| {
        let c = make_components(&ctx);
        let f = make_sim_fluid(&ctx);
        let (i, s) = (inputs(spec), settings(spec));
        let engine = match (&spec.solver, plain) {
            (SolverSpec::Lu, true) => Engine::run::<LuSolver>(c, f, i, s),
            (SolverSpec::Qr, true) => Engine::run::<QrSolver>(c, f, i, s),
            (SolverSpec::Svd, true) => Engine::run::<SvdDefaultSolver>(c, f, i, s),
            _ => Engine::run::<SimSolver>(c, f, i, s),
        };
        engine.map(|e| record(e, &ctx))
    }));
    drop(clock);
    pop();
    ctx.seam_reads.set(seams::reads());
    let outcome = match result {
        Ok(Ok(rec)) => Outcome::Ok(Box::new(rec)),
        Ok(Err(RunError::InnerLoop)) => Outcome::Inner,
        Ok(Err(RunError::OuterLoop)) => Outcome::Outer,
        Err(p) => panic_outcome(p.as_ref()),
    };
    RunOut { outcome, ctx }
}
