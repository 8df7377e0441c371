//! Workloads and fault schedules, drawn from one seeded generator

use crate::{model::Gas, rng::Rng, spec::*};

/// What a property needs of its workload
#[derive(Clone, Copy)]
pub struct Wish {
    /// probability of a shipped fluid
    pub shipped_fluid: f64,
    /// smallest and largest swept volume
    pub swept: (f64, f64),
    pub freq: (f64, f64),
    /// probability that a run carries faults at all
    pub faults: f64,
    /// resolution range, drawn log-uniformly
    pub resolution: (u64, u64),
    /// inner and outer absolute tolerance
    pub tol: (f64, f64),
    /// ode tolerance (relative)
    pub ode: (f64, f64),
    /// may tolerances be lopsided
    pub lopsided: bool,
    pub extremes: bool,
    pub scripts: f64,
    pub limits_tight: f64,
    /// linear solvers other than the default
    pub solvers: f64,
    /// probability of unusual conditions
    pub wild: f64,
}

impl Default for Wish {
    fn default() -> Self {
        Self {
            shipped_fluid: 0.5,
            swept: (1e-6, 3e-3),
            freq: (3.0, 120.0),
            faults: 0.6,
            resolution: (2, 300),
            tol: (1e-6, 1e-1),
            ode: (1e-10, 1e-5),
            lopsided: true,
            extremes: true,
            scripts: 0.15,
            limits_tight: 0.1,
            solvers: 0.1,
            wild: 0.25,
        }
    }
}

/// Orders of magnitude of an engine
pub struct Scale {
    pub swept: f64,
    pub m: f64,
    pub cp: f64,
    /// pressure times swept volume times frequency
    pub power: f64,
    pub flow: f64,
}

pub fn fluid(g: &mut Rng, shipped: f64, pres: f64) -> FluidSpec {
    if g.p(shipped) {
        return if g.p(0.5) { FluidSpec::Helium } else { FluidSpec::Hydrogen };
    }
    let r = g.log(150.0, 4500.0);
    let k = g.range(2.3, 5.0);
    let tref = *g.pick(&[0.0, 200.0, 250.0, 273.15]);
    if g.p(0.5) {
        FluidSpec::Perfect { r, cp: r * k, tref }
    } else {
        let e0 = g.range(-0.02, 0.05);
        let e1 = g.range(0.0, 0.05);
        FluidSpec::Virial {
            r,
            c0: r * k,
            c1: r * g.range(-2e-4, 6e-4),
            b0: e0 * r * 400.0 / pres,
            b1: e1 * r * 400.0 * 400.0 / pres,
            tref,
        }
    }
}

pub fn kin(g: &mut Rng, s: f64) -> Kin {
    let cl_c = s * g.log(0.02, 0.6);
    let cl_e = s * g.log(0.02, 0.6);
    match g.below(20) {
        0..=9 => Kin::Sin { phase: g.range(40.0, 140.0), cl_c, sw_c: s * g.log(0.5, 1.5), cl_e, sw_e: s * g.log(0.5, 1.5) },
        10..=13 => {
            // geometry of the drive scaled to the swept volume
            let k = (s / 1.06e-4_f64).cbrt();
            Kin::Rhombic {
                cl_c,
                cl_e,
                ecc: 0.02065 * k * g.range(0.95, 1.05),
                r: 0.01397 * k * g.range(0.85, 1.05),
                l: 0.04602 * k * g.range(1.0, 1.2),
                d_p: 0.0698 * k * g.range(0.9, 1.1),
                d_d: 0.0696 * k * g.range(0.9, 1.1),
            }
        }
        _ => Kin::Harm {
            phase: g.range(40.0, 140.0),
            cl_c,
            sw_c: s * g.log(0.5, 1.5),
            cl_e,
            sw_e: s * g.log(0.5, 1.5),
            h2: g.range(-0.02, 0.12),
        },
    }
}

pub fn scale_of(fluid: &FluidSpec, swept: f64, freq: f64, pres: f64, t: f64) -> Scale {
    let gas = Gas::new(fluid);
    let flow = swept * freq * std::f64::consts::PI * 0.5;
    Scale { swept, m: gas.dens(t, pres) * flow, cp: gas.cp(t, pres), power: pres * swept * freq, flow }
}

fn answer(g: &mut Rng, which: usize, sc: &Scale, dt: f64) -> Answer {
    let cap = sc.cp * sc.m;
    match g.below(10) {
        0..=2 => Answer::Fixed { a: if which == 1 { g.range(2.0, 0.08 * dt) } else { g.range(0.0, 0.15 * dt) } },
        3..=5 => Answer::Ua { ua: if which == 1 { cap * g.log(15.0, 300.0) } else { cap * g.log(0.5, 20.0) } },
        _ => smooth(g, which, sc, dt, 0.35),
    }
}

pub fn smooth(g: &mut Rng, which: usize, sc: &Scale, dt: f64, wild: f64) -> Answer {
    let a = if which == 1 { g.range(2.0, 0.06 * dt) } else { g.range(3.0, 0.12 * dt) };
    Answer::Smooth {
        a,
        ct: wild * g.range(-1.0, 1.0),
        cm: wild * g.range(-1.0, 1.0),
        cq: wild * g.range(-1.0, 1.0),
        cd: 0.5 * wild * g.range(-1.0, 1.0),
        ms: sc.m * g.log(0.3, 3.0),
        qs: sc.power * g.log(0.1, 1.0),
    }
}

pub fn hx(g: &mut Rng, which: usize, sc: &Scale, dt: f64) -> HxSpec {
    let answer = answer(g, which, sc, dt);
    let vol = sc.swept * if which == 1 { g.log(0.2, 3.0) } else { g.log(0.05, 1.5) };
    // up to a few percent of the pressure lost
    let r_hyd = if g.p(0.3) { 0.0 } else { sc.power / sc.swept / sc.flow * g.log(1e-4, 5e-2) / (sc.flow / sc.swept) };
    let mut p = || if g.p(0.4) { 0.0 } else { sc.power * g.log(1e-4, 5e-2) };
    let par = [p(), p(), p()];
    HxSpec {
        initial: if matches!(answer, Answer::Smooth { .. }) && g.p(0.7) { Some(g.range(0.0, 0.1 * dt)) } else { None },
        answer,
        vol,
        r_hyd,
        par,
        dep: 0.0,
    }
}

fn tol(g: &mut Rng, w: &Wish, t: f64) -> Tol {
    let abs = g.log(w.tol.0, w.tol.1);
    let rel = if w.lopsided {
        match g.below(4) {
            0 => abs / t * g.log(1e-3, 0.3),
            1 => abs / t * g.log(3.0, 1e3),
            _ => abs / t * g.log(0.3, 3.0),
        }
    } else {
        abs / t
    };
    // what the round-off of the state allows
    Tol { abs: abs.max(1e-8), rel: rel.max(1e-11) }
}

/// An engine with everything that is not a fault
pub fn engine(g: &mut Rng, w: &Wish) -> RunSpec {
    let mut swept = g.log(w.swept.0, w.swept.1);
    let mut freq = g.log(w.freq.0, w.freq.1);
    if w.extremes && g.p(0.12) {
        match g.below(4) {
            0 => freq = g.log(1e-3, 1.0),
            1 => freq = g.log(200.0, 2e3),
            2 => swept = g.log(1e-8, 1e-6),
            _ => swept = g.log(3e-3, 1e-1),
        }
    }
    let mut pres_zero = g.log(2e5, 1.5e7);
    let mut temp_sink = g.range(260.0, 350.0);
    let mut rise = g.range(200.0, 800.0);
    let mut resolution = g.logint(w.resolution.0, w.resolution.1) as u32;
    let (mut phase, mut still, mut thin, mut signs, mut odd) = (None, false, None, false, None);
    if g.p(w.wild) {
        for _ in 0..g.int(1, 2) {
            match g.below(10) {
                8 => signs = true,
                9 => odd = Some(g.below(3) as usize),
                0 => resolution = g.logint(2, 3000) as u32,
                1 => resolution = g.logint(2, 20) as u32,
                2 => phase = Some(g.range(-180.0, 180.0)),
                3 => rise = g.log(5.0, 200.0),
                4 => temp_sink = g.range(120.0, 700.0),
                5 => pres_zero = g.log(1e3, 1e8),
                6 => thin = Some((g.below(3) as usize, g.log(1e-3, 20.0))),
                _ => still = true,
            }
        }
    }
    let temp_source = temp_sink + rise;
    let dt = temp_source - temp_sink;
    let fl = fluid(g, w.shipped_fluid, pres_zero);
    let sc = scale_of(&fl, swept, freq, pres_zero, 0.5 * (temp_sink + temp_source));
    let mut kin = kin(g, swept);
    if let (Some(to), Kin::Sin { phase, .. } | Kin::Harm { phase, .. }) = (phase, &mut kin) {
        *phase = to;
    }
    if let (true, Kin::Sin { sw_c, sw_e, .. } | Kin::Harm { sw_c, sw_e, .. }) = (still, &mut kin) {
        // one of the pistons hardly moves
        *(if g.p(0.5) { sw_c } else { sw_e }) *= g.log(1e-4, 0.3);
    }
    let res = |g: &mut Rng| if g.p(0.5) { None } else { Some(60.0 / (sc.power * g.log(3e-3, 0.3))) };
    let (r_c, r_e) = (res(g), res(g));
    let mut p = || if g.p(0.4) { 0.0 } else { sc.power * g.log(1e-4, 2e-2) };
    let (mut par_c, mut par_e) = ([p(), p(), p()], [p(), p(), p()]);
    if matches!(kin, Kin::Rhombic { .. }) {
        par_c = [0.0, par_c[1], 0.0];
        par_e[2] = 0.0;
    }
    let ws = WsSpec { kin, freq, freq_dep: 0.0, r_c, r_e, par_c, par_e, par_dep: 0.0 };
    let mut spec = RunSpec {
        chx: hx(g, 0, &sc, dt),
        regen: hx(g, 1, &sc, dt),
        hhx: hx(g, 2, &sc, dt),
        fluid: fl,
        ws,
        pres_zero,
        temp_sink,
        temp_source,
        resolution,
        inner: tol(g, w, 500.0),
        outer: tol(g, w, 500.0),
        ode: {
            let rel = g.log(w.ode.0, w.ode.1);
            let abs = rel * 300.0 * g.log(0.1, 10.0);
            if w.lopsided && g.p(0.15) {
                // one of the two hardly matters
                if g.p(0.5) {
                    Tol { abs: abs.max(1e-6), rel: 1e-12 }
                } else {
                    Tol { abs: abs * 1e-6, rel }
                }
            } else {
                Tol { abs, rel }
            }
        },
        max_inner: 500,
        max_outer: 60,
        solver: SolverSpec::Lu,
        faults: Vec::new(),
    };
    if let Some((k, by)) = thin {
        spec.hx_mut(k).vol *= by;
    }
    if signs {
        // gains instead of losses
        let mut flip = |x: &mut f64| *x = if g.p(0.5) { -*x } else { *x };
        spec.ws.par_c.iter_mut().chain(&mut spec.ws.par_e).for_each(&mut flip);
        for k in 0..3 {
            spec.hx_mut(k).par.iter_mut().for_each(&mut flip);
        }
    }
    if let Some(k) = odd {
        // below the sink, above the source, hardly any approach, or hardly a regenerator
        let a = match k {
            1 => *g.pick(&[1e-6, 1e-3, 0.1, 0.3 * dt, 0.45 * dt]),
            _ => -0.1 * dt * g.log(1e-3, 1.0),
        };
        spec.hx_mut(k).answer = Answer::Fixed { a };
        spec.hx_mut(k).initial = None;
    }
    if g.p(0.3) {
        // a drive whose speed or losses follow the pressure
        if g.p(0.5) {
            spec.ws.freq_dep = g.range(-0.4, 0.4);
        }
        spec.ws.par_dep = g.range(-0.5, 0.5);
    }
    if g.p(0.4) {
        for k in 0..3 {
            if g.p(0.6) {
                spec.hx_mut(k).dep = g.range(-0.8, 0.8);
            }
        }
    }
    if g.p(w.scripts) {
        let k = g.below(3) as usize;
        let n = g.int(1, 8);
        let base = if k == 1 { 0.04 * dt } else { 0.08 * dt };
        let mut seq: Vec<f64> = (0..n).map(|_| base * g.range(0.3, 1.7)).collect();
        if g.p(0.5) {
            // settles the way a converging component would, about at the tolerance
            let end = base;
            let mut d = spec.outer.abs * g.log(1.0, 1e3);
            for _ in 0..g.int(1, 10) {
                seq.push(end + d);
                d *= -g.range(0.05, 0.95);
            }
        }
        spec.hx_mut(k).answer = Answer::Script { seq };
        spec.hx_mut(k).initial = None;
    }
    if g.p(w.limits_tight) {
        spec.max_inner = g.logint(1, 60);
        spec.max_outer = g.logint(1, 12);
    }
    if g.p(w.solvers) {
        spec.solver = match g.below(4) {
            0 => SolverSpec::Qr,
            1 => SolverSpec::Svd,
            2 => SolverSpec::Switch { seed: g.next(), svd_in: 0 },
            _ => SolverSpec::Switch { seed: g.next(), svd_in: 40 },
        };
        if spec.solver == SolverSpec::Svd {
            // one or two orders of magnitude slower than the others
            spec.ode.rel = spec.ode.rel.max(1e-7);
            spec.ode.abs = spec.ode.abs.max(1e-5);
        }
    }
    spec
}

/// Transient faults: wrong, stuck, late or noisy answers that end
pub fn transient(g: &mut Rng, s: &RunSpec) -> Fault {
    let dt = s.temp_source - s.temp_sink;
    let from = g.below(4);
    let to = from + g.int(1, 3);
    let when = When::Rounds { from, to };
    let (target, what) = *g.pick(&[
        (Target::Chx, What::Approach),
        (Target::Regen, What::Approach),
        (Target::Hhx, What::Approach),
        (Target::Chx, What::Approach),
        (Target::Regen, What::Approach),
        (Target::Hhx, What::Approach),
        (Target::Chx, What::Initial),
        (Target::Regen, What::Initial),
        (Target::Hhx, What::Initial),
        (Target::Chx, What::Volume),
        (Target::Regen, What::Volume),
        (Target::Hhx, What::Volume),
        (Target::Ws, What::Frequency),
        (Target::Ws, What::ThermalRes),
        (Target::Ws, What::Parasitics),
    ]);
    let small = |g: &mut Rng, x: f64| g.sign() * g.log(1e-3, 1.0) * x;
    let how = match what {
        What::Approach => {
            let a = if target == Target::Regen { 0.08 } else { 0.15 };
            match g.below(6) {
                5 => How::Set(dt * g.range(-0.1, 0.35)),
                0 => How::Stuck,
                1 => How::Noise(dt * a * g.log(1e-3, 0.6)),
                2 => How::Set(dt * a * g.range(0.0, 1.0)),
                3 => How::Mul(g.log(0.3, 2.0)),
                // about as large as what counts as agreement
                _ => How::Add(s.outer.abs.min(s.outer.rel * 500.0) * g.sign() * g.log(0.3, 30.0)),
            }
        }
        What::Initial => How::Set(dt * 0.1 * g.range(0.0, 1.0)),
        What::Volume => How::Mul(g.log(0.5, 2.0)),
        What::Frequency => How::Mul(1.0 + small(g, 0.3)),
        What::ThermalRes => How::Mul(g.log(0.5, 5.0)),
        _ => How::Mul(g.log(0.3, 3.0)),
    };
    let when = if what == What::Initial { When::Rounds { from: 0, to: 1 } } else { when };
    Fault { target, what, when, how }
}

/// A momentary failure: one evaluation returns garbage or an error
pub fn glitch(g: &mut Rng, s: &RunSpec, evals: u64) -> Fault {
    let _ = s;
    let from = if g.p(0.3) { g.below(40) } else { g.below(evals.max(1)) };
    let len = if g.p(0.8) { 1 } else { g.logint(1, 40) };
    let when = When::Calls { from, len };
    let bad = |g: &mut Rng| match g.below(4) {
        0 => How::Inf,
        1 => How::NegInf,
        _ => How::Nan,
    };
    match g.below(6) {
        0 | 1 => {
            let how = if g.p(0.7) { How::Fail } else { How::Singular };
            Fault { target: Target::Solver, what: What::Solve, when, how }
        }
        2 => {
            let how = if g.p(0.5) { How::Nan } else { How::Inf };
            Fault { target: Target::Solver, what: What::Solve, when, how }
        }
        3 => Fault { target: Target::Ws, what: What::Volumes, when, how: bad(g) },
        4 => Fault { target: Target::Fluid, what: What::Prop(g.below(8) as u8), when, how: bad(g) },
        _ => {
            let when = When::Calls { from: from * 20, len: len * g.int(1, 20) };
            Fault { target: Target::Fluid, what: What::AnyProp, when, how: bad(g) }
        }
    }
}

/// An engine and its fault schedule, for the properties of returned engines
pub fn single(g: &mut Rng, w: &Wish) -> RunSpec {
    let mut s = engine(g, w);
    if g.p(w.faults) {
        let n = g.int(1, 3);
        for _ in 0..n {
            let f = if g.p(0.8) { transient(g, &s) } else { glitch(g, &s, 3000) };
            s.faults.push(f);
        }
    }
    s
}
