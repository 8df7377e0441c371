//! Components, fluids and linear solvers as the code under test sees them:
//! proxies around the shipped ones and around stubs

#![allow(non_snake_case)]

use std::{cell::Cell, cell::RefCell, rc::Rc};

use sett_rs::{
    chx,
    fluid::{Fluid, IdealGas},
    hhx, regen,
    types::{HeatExchanger, ParasiticPower},
    ws, Components, LuSolver, MatrixDecomposition, QrSolver, SvdDefaultSolver,
};

use crate::{
    ctx::*,
    model::{volumes, Gas},
    spec::*,
};

// ---------------------------------------------------------------- truths

/// How strongly state-dependent stubs react to the state they are shown
fn reaction(s: &Shown) -> f64 {
    0.2 * (s.temp / 500.0 - 1.0).tanh()
        + 0.2 * (s.m / (s.m + 1e-2))
        + 0.2 * (s.q / 1e3).tanh()
        + 0.1 * (s.dens / (s.dens + 5.0))
        + 0.1 * (s.cp / (s.cp + 1e4))
        + 0.1 * (s.pres / (s.pres + 3e6))
        + 0.05 * (s.t1 / 300.0 - 1.0).tanh()
        + 0.05 * (s.t2 / 600.0 - 1.0).tanh()
}

/// The answer the component gives to a state, for components that are functions of it
pub fn approach_truth(h: &HxSpec, which: usize, s: &Shown) -> Option<f64> {
    match &h.answer {
        Answer::Fixed { a } => Some(*a),
        Answer::Ua { ua } => {
            let c = s.cp * s.m;
            let ntu = ua / c;
            if which == 1 {
                let e = 0.5 * ntu / (1.0 + 0.5 * ntu);
                Some((1.0 - e) * (s.t2 - s.t1))
            } else {
                let e = 1.0 - (-ntu).exp();
                Some(s.q / c * (1.0 / e - 1.0))
            }
        }
        Answer::Smooth { a, ct, cm, cq, cd, ms, qs } => Some(
            a * (1.0
                + ct * ((s.temp - s.t1) / 100.0).sin()
                + cm * (s.m / (s.m.abs() + ms))
                + cq * (s.q / qs).tanh()
                + cd * (s.dens / (s.dens + 5.0) + 0.3 * s.cp / (s.cp + 1e4))),
        ),
        Answer::Script { .. } => None,
    }
}

pub fn initial_truth(h: &HxSpec, which: usize) -> f64 {
    if let Some(i) = h.initial {
        return i;
    }
    match &h.answer {
        Answer::Fixed { a } | Answer::Smooth { a, .. } => *a,
        Answer::Ua { .. } => {
            let _ = which;
            10.0
        }
        Answer::Script { seq } => seq.first().copied().unwrap_or(10.0),
    }
}

pub fn r_hyd_truth(h: &HxSpec, s: &Shown) -> f64 {
    if h.dep == 0.0 {
        h.r_hyd
    } else {
        h.r_hyd * (1.0 + h.dep * reaction(s))
    }
}

pub fn par_truth(h: &HxSpec, s: &Shown) -> [f64; 3] {
    let f = if h.dep == 0.0 { 1.0 } else { 1.0 - h.dep * reaction(s) };
    [h.par[0] * f, h.par[1] * f, h.par[2] * f]
}

pub fn freq_truth(w: &WsSpec, pres_avg: f64, pres_zero: f64) -> f64 {
    if w.freq_dep == 0.0 {
        w.freq
    } else {
        w.freq * (1.0 + w.freq_dep * (pres_avg / pres_zero - 1.0).clamp(-0.9, 2.0))
    }
}

pub fn ws_par_truth(w: &WsSpec, pres_avg: f64, pres_zero: f64) -> ([f64; 3], [f64; 3]) {
    let f = if w.par_dep == 0.0 {
        1.0
    } else {
        1.0 + w.par_dep * (pres_avg / pres_zero - 1.0).clamp(-0.9, 2.0)
    };
    let k = |p: [f64; 3]| [p[0] * f, p[1] * f, p[2] * f];
    (k(w.par_c), k(w.par_e))
}

fn power(p: [f64; 3]) -> ParasiticPower {
    ParasiticPower { thermal: p[0], mechanical: p[1], electrical: p[2] }
}

// ---------------------------------------------------------------- heat exchangers

struct StubHx {
    h: HxSpec,
    which: usize,
    /// consultations answered so far
    k: Cell<u64>,
}

impl StubHx {
    fn approach(&self, s: &Shown) -> f64 {
        match &self.h.answer {
            Answer::Script { seq } => {
                let k = self.k.get() as usize;
                self.k.set(self.k.get() + 1);
                seq.get(k).or(seq.last()).copied().unwrap_or(10.0)
            }
            _ => approach_truth(&self.h, self.which, s).unwrap(),
        }
    }
}

fn shown_chx(s: &chx::State) -> Shown {
    shown(&s.hxr, s.sink_temp, 0.0)
}
fn shown_hhx(s: &hhx::State) -> Shown {
    shown(&s.hxr, s.source_temp, 0.0)
}
fn shown_regen(s: &regen::State) -> Shown {
    shown(&s.hxr, s.temp_chx, s.temp_hhx)
}
fn shown(h: &HeatExchanger, t1: f64, t2: f64) -> Shown {
    Shown { temp: h.temp, pres: h.pres, dens: h.dens, cp: h.cp, m: h.m_dot, q: h.Q_dot, t1, t2 }
}
fn unshown(s: &Shown) -> HeatExchanger {
    HeatExchanger { temp: s.temp, pres: s.pres, dens: s.dens, cp: s.cp, m_dot: s.m, Q_dot: s.q }
}

fn unshown_chx(s: &Shown) -> chx::State {
    chx::State { hxr: unshown(s), sink_temp: s.t1 }
}
fn unshown_hhx(s: &Shown) -> hhx::State {
    hhx::State { hxr: unshown(s), source_temp: s.t1 }
}
fn unshown_regen(s: &Shown) -> regen::State {
    regen::State { hxr: unshown(s), temp_chx: s.t1, temp_hhx: s.t2 }
}

macro_rules! stub_hx {
    ($tr:path, $state:path, $shown:ident) => {
        impl $tr for StubHx {
            fn volume(&self) -> f64 {
                self.h.vol
            }
            fn approach(&self, state: &$state) -> f64 {
                StubHx::approach(self, &$shown(state))
            }
            fn hydraulic_resistance(&self, state: &$state) -> f64 {
                r_hyd_truth(&self.h, &$shown(state))
            }
            fn parasitics(&self, state: &$state) -> ParasiticPower {
                power(par_truth(&self.h, &$shown(state)))
            }
            fn initial_approach(&self) -> f64 {
                initial_truth(&self.h, self.which)
            }
        }
    };
}
stub_hx!(chx::ColdHeatExchanger, chx::State, shown_chx);
stub_hx!(hhx::HotHeatExchanger, hhx::State, shown_hhx);
stub_hx!(regen::Regenerator, regen::State, shown_regen);

/// Build the bare component: the shipped one where the spec names one, else a stub
macro_rules! make_hx {
    ($name:ident, $which:expr, $m:ident, $tr:ident) => {
        pub fn $name(h: &HxSpec) -> Box<dyn $m::$tr> {
            if h.is_real() {
                match h.answer {
                    Answer::Fixed { a } => return Box::new($m::FixedApproach::new(h.vol, h.r_hyd, a, power(h.par))),
                    Answer::Ua { ua } => {
                        return Box::new($m::FixedConductance::new(h.vol, h.r_hyd, ua, power(h.par)))
                    }
                    _ => {}
                }
            }
            Box::new(StubHx { h: h.clone(), which: $which, k: Cell::new(0) })
        }
    };
}
make_hx!(make_chx, 0, chx, ColdHeatExchanger);
make_hx!(make_regen, 1, regen, Regenerator);
make_hx!(make_hhx, 2, hhx, HotHeatExchanger);

/// Ask a bare component directly, outside of any run
pub fn ask_bare(h: &HxSpec, which: usize, s: &Shown) -> f64 {
    match which {
        0 => make_chx(h).approach(&unshown_chx(s)),
        1 => make_regen(h).approach(&unshown_regen(s)),
        _ => make_hhx(h).approach(&unshown_hhx(s)),
    }
}

struct Proxy<T: ?Sized> {
    ctx: Rc<Ctx>,
    which: usize,
    /// The last state we were asked about and our answer to it
    memo: Cell<Option<([u64; 8], f64)>>,
    inner: Box<T>,
}

impl<T: ?Sized> Proxy<T> {
    fn approach(&self, s: Shown, truth: impl FnOnce() -> f64, probe: &dyn Fn(&Shown) -> f64) -> f64 {
        let cb = CB_APPROACH + self.which;
        self.ctx.enter(cb);
        if let Some((key, answer)) = self.memo.get() {
            if key == s.bits() {
                return answer; // asked again in the same iteration
            }
        }
        let round = self.ctx.rounds[self.which].get();
        let truth = truth();
        if let Some(w) = &self.ctx.watch {
            w.approach(self.ctx.spec.hx(self.which), self.which, &s, truth, probe);
        }
        let (answer, faulty) = self.ctx.answer(cb, round, round, truth);
        self.ctx.last[cb].set(answer);
        self.ctx.rounds[self.which].set(round + 1);
        self.memo.set(Some((s.bits(), answer)));
        self.log(cb, s, round, answer, faulty);
        answer
    }
    fn log(&self, cb: Cb, s: Shown, round: u64, answer: f64, faulty: bool) {
        self.ctx.note(cb, &[s.temp, s.pres, s.m, s.q, s.t1], answer);
        let mut asked = self.ctx.asked.borrow_mut();
        if asked.len() < 4000 {
            asked.push((
                self.which as u8,
                cb,
                Asked { seq: self.ctx.events.get(), phase: self.ctx.phase.get(), round, shown: s, answer, faulty },
            ));
        }
    }
    fn plain(&self, base: Cb, s: Option<Shown>, truth: impl FnOnce() -> f64) -> f64 {
        let cb = base + self.which;
        let n = self.ctx.enter(cb);
        let round = self.ctx.round();
        let (answer, faulty) = self.ctx.answer(cb, n, round, truth());
        self.ctx.last[cb].set(answer);
        match s {
            Some(s) => self.log(cb, s, round, answer, faulty),
            None => self.ctx.note(cb, &[], answer),
        }
        answer
    }
    fn parasitics(&self, s: Shown, truth: impl FnOnce() -> ParasiticPower) -> ParasiticPower {
        let cb = CB_PAR + self.which;
        let n = self.ctx.enter(cb);
        let round = self.ctx.round();
        let mut p = truth();
        let (m, faulty) = self.ctx.answer(cb, n, round, p.mechanical);
        p.mechanical = m;
        self.log(cb, s, round, m, faulty);
        p
    }
}

macro_rules! proxy_hx {
    ($tr:path, $state:path, $shown:ident, $unshown:ident) => {
        impl $tr for Proxy<dyn $tr> {
            fn volume(&self) -> f64 {
                self.plain(CB_VOLUME, None, || self.inner.volume())
            }
            fn approach(&self, state: &$state) -> f64 {
                Proxy::approach(self, $shown(state), || self.inner.approach(state), &|s| self.inner.approach(&$unshown(s)))
            }
            fn hydraulic_resistance(&self, state: &$state) -> f64 {
                self.plain(CB_RHYD, Some($shown(state)), || self.inner.hydraulic_resistance(state))
            }
            fn parasitics(&self, state: &$state) -> ParasiticPower {
                Proxy::parasitics(self, $shown(state), || self.inner.parasitics(state))
            }
            fn initial_approach(&self) -> f64 {
                self.plain(CB_INITIAL, None, || self.inner.initial_approach())
            }
        }
    };
}
proxy_hx!(chx::ColdHeatExchanger, chx::State, shown_chx, unshown_chx);
proxy_hx!(hhx::HotHeatExchanger, hhx::State, shown_hhx, unshown_hhx);
proxy_hx!(regen::Regenerator, regen::State, shown_regen, unshown_regen);

// ---------------------------------------------------------------- working spaces

pub fn ws_is_real(w: &WsSpec) -> bool {
    w.freq_dep == 0.0
        && w.par_dep == 0.0
        && match w.kin {
            Kin::Sin { .. } => true,
            Kin::Rhombic { .. } => w.par_c[0] == 0.0 && w.par_c[2] == 0.0 && w.par_e[2] == 0.0,
            Kin::Harm { .. } => false,
        }
}

pub fn resistance(r: Option<f64>) -> f64 {
    r.unwrap_or(f64::INFINITY)
}

struct StubWs {
    w: WsSpec,
    pres_zero: f64,
}

impl ws::WorkingSpaces for StubWs {
    fn frequency(&self, s: &ws::State) -> f64 {
        freq_truth(&self.w, s.pres.avg, self.pres_zero)
    }
    fn volumes(&self, s: &ws::State) -> Box<dyn Fn(f64) -> (ws::CompVolume, ws::ExpVolume)> {
        let kin = self.w.kin.clone();
        let freq = freq_truth(&self.w, s.pres.avg, self.pres_zero);
        Box::new(move |t| {
            let v = volumes(&kin, freq, t);
            (
                ws::CompVolume { value: v.vc, deriv: v.dvc },
                ws::ExpVolume { value: v.ve, deriv: v.dve },
            )
        })
    }
    fn thermal_resistance(&self, _: &ws::State) -> ws::ThermalResistance {
        ws::ThermalResistance { comp: resistance(self.w.r_c), exp: resistance(self.w.r_e) }
    }
    fn parasitics(&self, s: &ws::State) -> ws::Parasitics {
        let (c, e) = ws_par_truth(&self.w, s.pres.avg, self.pres_zero);
        ws::Parasitics { comp: power(c), exp: power(e) }
    }
}

/// The stub drive, whatever the kinematics
pub fn stub_ws(w: &WsSpec, pres_zero: f64) -> Box<dyn ws::WorkingSpaces> {
    Box::new(StubWs { w: w.clone(), pres_zero })
}

pub fn make_ws(w: &WsSpec, pres_zero: f64) -> Box<dyn ws::WorkingSpaces> {
    if ws_is_real(w) {
        match w.kin {
            Kin::Sin { phase, cl_c, sw_c, cl_e, sw_e } => {
                return Box::new(ws::SinusoidalDrive {
                    frequency: w.freq,
                    phase_angle: phase,
                    comp_geometry: ws::sinusoidal_drive::Geometry { clearance_volume: cl_c, swept_volume: sw_c },
                    exp_geometry: ws::sinusoidal_drive::Geometry { clearance_volume: cl_e, swept_volume: sw_e },
                    thermal_resistance: ws::ThermalResistance { comp: resistance(w.r_c), exp: resistance(w.r_e) },
                    parasitics: ws::Parasitics { comp: power(w.par_c), exp: power(w.par_e) },
                })
            }
            Kin::Rhombic { cl_c, cl_e, ecc, r, l, d_p, d_d } => {
                // The geometry of this drive can only be given through its description.
                // JSON has no infinity; a resistance of 1e300 K/W passes less than 1e-290 W.
                let text = serde_json::json!({"rhombic": {
                    "frequency": w.freq, "V_clearance_c": cl_c, "R_c": w.r_c.unwrap_or(1e300),
                    "W_parasitic_c": w.par_c[1], "V_clearance_e": cl_e, "R_e": w.r_e.unwrap_or(1e300),
                    "W_parasitic_e": w.par_e[1], "Q_parasitic_e": w.par_e[0], "r_crank": r,
                    "L_conn": l, "eccentricity": ecc, "D_p": d_p, "D_d": d_d }});
                if let Ok(ws::Config::Rhombic(c)) = serde_json::from_value::<ws::Config>(text) {
                    return Box::new(ws::RhombicDrive::from(c));
                }
            }
            Kin::Harm { .. } => {}
        }
    }
    Box::new(StubWs { w: w.clone(), pres_zero })
}

struct WsProxy {
    ctx: Rc<Ctx>,
    inner: Box<dyn ws::WorkingSpaces>,
}

impl WsProxy {
    fn log(&self, cb: Cb, s: &ws::State, answer: f64) {
        let p = &s.pres;
        let pres = [p.avg, p.max, p.min, p.t_zero];
        self.ctx.note(cb, &pres, answer);
        let mut v = self.ctx.ws_asked.borrow_mut();
        if v.len() < 4000 {
            v.push(WsAsked {
                seq: self.ctx.events.get(),
                phase: self.ctx.phase.get(),
                round: self.ctx.round(),
                cb,
                pres,
                answer,
            });
        }
    }
}

impl ws::WorkingSpaces for WsProxy {
    fn frequency(&self, s: &ws::State) -> f64 {
        let n = self.ctx.enter(CB_FREQ);
        let (f, _) = self.ctx.answer(CB_FREQ, n, self.ctx.round(), self.inner.frequency(s));
        self.ctx.last[CB_FREQ].set(f);
        self.log(CB_FREQ, s, f);
        f
    }
    fn volumes(&self, s: &ws::State) -> Box<dyn Fn(f64) -> (ws::CompVolume, ws::ExpVolume)> {
        self.ctx.enter(CB_VOLFN);
        self.log(CB_VOLFN, s, 0.0);
        let f = self.inner.volumes(s);
        let ctx = self.ctx.clone();
        // The piston motion follows the clock: if the clock is wrong so is the motion
        let clock = if ctx.phase.get() == Phase::Run {
            let truth = self.inner.frequency(s);
            ctx.peek(CB_FREQ, ctx.round(), truth) / truth
        } else {
            1.0
        };
        let fresh = ctx.watch.as_ref().filter(|w| w.drive() && ws_is_real(&ctx.spec.ws)).map(|w| {
            let freq = self.inner.frequency(s);
            w.volumes(&ctx.spec.ws, &*f, freq);
            (make_ws(&ctx.spec.ws, ctx.spec.pres_zero).volumes(s), freq)
        });
        Box::new(move |t| {
            let n = ctx.enter(CB_VOL);
            ctx.progress(t);
            let (mut c, mut e) = f(t * clock);
            if let (Some(w), Some((fresh, freq))) = (&ctx.watch, &fresh) {
                w.instant(&ctx.spec.ws, &*f, &**fresh, *freq, t * clock, [c.value, c.deriv, e.value, e.deriv]);
            }
            if clock != 1.0 {
                c.deriv *= clock;
                e.deriv *= clock;
            }
            let (v, _) = ctx.answer(CB_VOL, n, ctx.round(), c.value);
            c.value = v;
            ctx.note(CB_VOL, &[t, c.deriv, e.value, e.deriv], v);
            (c, e)
        })
    }
    fn thermal_resistance(&self, s: &ws::State) -> ws::ThermalResistance {
        let n = self.ctx.enter(CB_THERM);
        let mut r = self.inner.thermal_resistance(s);
        let (c, _) = self.ctx.answer(CB_THERM, n, self.ctx.round(), r.comp);
        r.comp = c;
        self.log(CB_THERM, s, c);
        r
    }
    fn parasitics(&self, s: &ws::State) -> ws::Parasitics {
        let n = self.ctx.enter(CB_WSPAR);
        let mut p = self.inner.parasitics(s);
        let (x, _) = self.ctx.answer(CB_WSPAR, n, self.ctx.round(), p.exp.thermal);
        p.exp.thermal = x;
        self.log(CB_WSPAR, s, x);
        p
    }
}

// ---------------------------------------------------------------- fluid

pub enum AnyFluid {
    Shipped(IdealGas),
    Stub(Gas),
}

pub fn make_fluid(f: &FluidSpec) -> AnyFluid {
    match f {
        FluidSpec::Helium => AnyFluid::Shipped(IdealGas::helium()),
        FluidSpec::Hydrogen => AnyFluid::Shipped(IdealGas::hydrogen()),
        _ => AnyFluid::Stub(Gas::new(f)),
    }
}

pub struct SimFluid {
    ctx: Rc<Ctx>,
    inner: AnyFluid,
}

macro_rules! prop {
    ($name:ident, $i:expr, $stub:ident) => {
        fn $name(&self, temp: f64, pres: f64) -> f64 {
            let cb = CB_PROP + $i;
            let n = self.ctx.enter(cb);
            let x = match &self.inner {
                AnyFluid::Shipped(g) => g.$name(temp, pres),
                AnyFluid::Stub(g) => g.$stub(temp, pres),
            };
            if let (Some(w), AnyFluid::Shipped(g)) = (&self.ctx.watch, &self.inner) {
                w.gas(&self.ctx.spec.fluid, g, $i, temp, pres, x);
            }
            let (x, _) = self.ctx.answer(cb, n, self.ctx.round(), x);
            self.ctx.prop_calls.set(self.ctx.prop_calls.get() + 1);
            self.ctx.note(cb, &[temp], x);
            x
        }
    };
}

impl Fluid for SimFluid {
    prop!(dens, 0, dens);
    prop!(inte, 1, inte);
    prop!(enth, 2, enth);
    prop!(cp, 3, cp);
    prop!(dd_dP_T, 4, dd_dP);
    prop!(dd_dT_P, 5, dd_dT);
    prop!(du_dP_T, 6, du_dP);
    prop!(du_dT_P, 7, du_dT);
}

// ---------------------------------------------------------------- linear solver

type Matrix = na::SMatrix<f64, 10, 10>;
type Vector = na::SVector<f64, 10>;

pub struct SimSolver;

thread_local! {
    static NO_CTX: RefCell<u64> = const { RefCell::new(0) };
}

/// Relative residual of a solution
pub fn residual(a: &Matrix, b: &Vector, x: &Vector) -> f64 {
    let r = a * x - b;
    let mut worst: f64 = 0.0;
    // round-off that a backward stable solver may leave in any row
    let noise = 1e7 * f64::EPSILON * a.amax() * x.amax();
    for i in 0..10 {
        let mut scale = b[i].abs() + noise;
        for j in 0..10 {
            scale += (a[(i, j)] * x[j]).abs();
        }
        if scale > 0.0 {
            worst = worst.max(r[i].abs() / scale);
        }
    }
    if worst.is_nan() || !x.iter().all(|v| v.is_finite()) {
        f64::INFINITY
    } else {
        worst
    }
}

impl MatrixDecomposition for SimSolver {
    fn solve(a: &Matrix, b: &Vector) -> anyhow::Result<Vector> {
        let Some(ctx) = current() else {
            return LuSolver::solve(a, b);
        };
        let n = ctx.enter(CB_SOLVE);
        ctx.solves.set(ctx.solves.get() + 1);
        let fault = ctx.solve_fault(n);
        if let Some(How::Fail) = fault {
            ctx.note(CB_SOLVE, &[], f64::NAN);
            anyhow::bail!("injected failure of the linear solver");
        }
        let pick = match &ctx.spec.solver {
            SolverSpec::Lu => 0,
            SolverSpec::Qr => 1,
            SolverSpec::Svd => 2,
            SolverSpec::Switch { svd_in, .. } => {
                let r = ctx.next_switch();
                if *svd_in > 0 && (r >> 8) % svd_in == 0 {
                    2
                } else {
                    r & 1
                }
            }
        };
        let (mut a2, mut b2);
        let (a, b) = if let Some(How::Singular) = fault {
            // one equation without unknowns that can't hold, one unknown without equations
            ctx.note(CB_SOLVE, &[0.0], f64::NAN);
            (a2, b2) = (*a, *b);
            let (i, j) = ((n % 10) as usize, (7 + n % 3) as usize);
            a2.row_mut(i).fill(0.0);
            a2.column_mut(j).fill(0.0);
            b2[i] = b.amax().max(1.0);
            (&a2, &b2)
        } else {
            (a, b)
        };
        let mut x = match pick {
            0 => LuSolver::solve(a, b)?,
            1 => QrSolver::solve(a, b)?,
            _ => SvdDefaultSolver::solve(a, b)?,
        };
        if let Some(How::Singular) = fault {
            if x.iter().all(|v| v.is_finite()) {
                ctx.singular_solved.set(ctx.singular_solved.get() + 1);
            }
            return Ok(x);
        }
        if matches!(ctx.spec.solver, SolverSpec::Switch { .. }) {
            let r = residual(a, b, &x);
            if r > ctx.worst_residual.get() {
                ctx.worst_residual.set(r);
                let name = ["LU", "QR", "SVD"][pick as usize];
                *ctx.worst_system.borrow_mut() = Some((name.into(), a.iter().copied().collect(), b.iter().copied().collect()));
            }
        }
        match fault {
            Some(How::Nan) => x[(n % 10) as usize] = f64::NAN,
            Some(How::Inf) => x[(n % 10) as usize] = f64::INFINITY,
            Some(How::Crash) => std::panic::panic_any(Injected),
            _ => {}
        }
        ctx.note(CB_SOLVE, &[x[0], x[3]], x[9]);
        Ok(x)
    }
}

// ---------------------------------------------------------------- assembly

pub fn make_components(ctx: &Rc<Ctx>) -> Components {
    let s = ctx.spec.clone();
    Components {
        ws: Box::new(WsProxy { ctx: ctx.clone(), inner: make_ws(&s.ws, s.pres_zero) }),
        chx: Box::new(Proxy { ctx: ctx.clone(), which: 0, memo: Cell::new(None), inner: make_chx(&s.chx) }),
        regen: Box::new(Proxy { ctx: ctx.clone(), which: 1, memo: Cell::new(None), inner: make_regen(&s.regen) }),
        hhx: Box::new(Proxy { ctx: ctx.clone(), which: 2, memo: Cell::new(None), inner: make_hhx(&s.hhx) }),
    }
}

pub fn make_sim_fluid(ctx: &Rc<Ctx>) -> SimFluid {
    SimFluid { ctx: ctx.clone(), inner: make_fluid(&ctx.spec.fluid) }
}
