//! Invariants of the shipped components, checked in every answer they give during a run
//!
//! The run decides which states, instants and iterations a component is asked about and the
//! faults of the schedule drive it to odd ones. Between the questions of the run other users
//! ask the same component about something else.

use std::cell::{Cell, RefCell};

use sett_rs::fluid::{Fluid, IdealGas};

use crate::{comps::*, ctx::*, oracle::Report, rng::*, spec::*};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Gas,
    Drive,
    Conductance,
}

pub fn kind(prop: &str) -> Option<Kind> {
    match prop {
        "C16" => Some(Kind::Gas),
        "C17" => Some(Kind::Drive),
        "C18" => Some(Kind::Conductance),
        _ => None,
    }
}

thread_local! {
    static NEXT: Cell<Option<Kind>> = const { Cell::new(None) };
}

/// Runs that start while `f` runs are watched
pub fn watching<T>(kind: Option<Kind>, f: impl FnOnce() -> T) -> T {
    let before = NEXT.replace(kind);
    let x = f();
    NEXT.set(before);
    x
}

pub struct Watch {
    kind: Kind,
    pub report: RefCell<Report>,
    rng: RefCell<Rng>,
    calls: Cell<u64>,
    taken: Cell<u64>,
    /// enthalpy less internal energy and flow work, where it was first seen
    reference: Cell<Option<f64>>,
    closures: Cell<u64>,
}

/// The coefficients of the heat capacity of hydrogen, for the recorded finding
const H2: [f64; 6] =
    [12471.4839, 13.319_443_2, -3.477_828_06e-2, 4.317_848_38e-5, -2.428_833_35e-8, 5.142_898_38e-12];

/// By how much the derivative of hydrogen's enthalpy is known to miss its heat capacity
fn hydrogen_defect(t: f64) -> f64 {
    // h = (T - 250) sum c_i T^i / (i + 1)
    let mut d = 0.0;
    for i in (0..6).rev() {
        let c = H2[i] / (i as f64 + 1.0);
        d += c * t.powi(i as i32) + if i > 0 { (t - 250.0) * c * i as f64 * t.powi(i as i32 - 1) } else { 0.0 };
        d -= H2[i] * t.powi(i as i32);
    }
    d
}

/// Derivative at 0 of a function known around 0
fn slope(f: impl Fn(f64) -> f64, h: f64) -> f64 {
    (8.0 * (f(h) - f(-h)) - (f(2.0 * h) - f(-2.0 * h))) / (12.0 * h)
}

fn ask(g: &IdealGas, i: usize, t: f64, p: f64) -> f64 {
    match i {
        0 => g.dens(t, p),
        1 => g.inte(t, p),
        2 => g.enth(t, p),
        3 => g.cp(t, p),
        4 => g.dd_dP_T(t, p),
        5 => g.dd_dT_P(t, p),
        6 => g.du_dP_T(t, p),
        _ => g.du_dT_P(t, p),
    }
}

impl Watch {
    pub fn new(spec: &RunSpec) -> Option<Self> {
        let kind = NEXT.get()?;
        let mut h = Hasher::new();
        h.s(&serde_json::to_string(spec).unwrap_or_default());
        Some(Self {
            kind,
            report: RefCell::default(),
            rng: RefCell::new(Rng::new(h.0)),
            calls: Cell::new(0),
            taken: Cell::new(0),
            reference: Cell::new(None),
            closures: Cell::new(0),
        })
    }

    /// Whether this call is looked at: all of them at first, fewer and fewer later
    fn take(&self) -> bool {
        let n = self.calls.get();
        self.calls.set(n + 1);
        let k = self.taken.get();
        let on = mix2(n, 0x5A) % (1 + k * k / 400) == 0;
        if on {
            self.taken.set(k + 1);
        }
        on
    }

    // ------------------------------------------------------------ gas

    /// The run got `x` for property `i`
    pub fn gas(&self, f: &FluidSpec, g: &IdealGas, i: usize, t: f64, p: f64, x: f64) {
        if self.kind != Kind::Gas || !self.take() {
            return;
        }
        let fresh = match f {
            FluidSpec::Hydrogen => IdealGas::hydrogen(),
            _ => IdealGas::helium(),
        };
        let r = &mut *self.report.borrow_mut();
        let want = ask(&fresh, i, t, p);
        let same = |a: f64, b: f64| a.to_bits() == b.to_bits() || a == b || (a.is_nan() && b.is_nan());
        r.ensure("gas_history", same(x, want), || {
            format!("property {i} at {t:e} K, {p:e} Pa: a run gets {x:e}, a new gas answers {want:e}")
        });
        let hydrogen = matches!(f, FluidSpec::Hydrogen);
        if (1.0..1e4).contains(&t) && (1e-2..1e11).contains(&p) {
            self.gas_at(r, g, hydrogen, t, p, "where a run went");
        } else {
            r.skip("gas asked at no physical state");
        }
        let (t, p) = {
            let mut rng = self.rng.borrow_mut();
            if rng.p(0.3) {
                // another user, near the same state
                (t * rng.range(0.5, 1.5), p * rng.log(0.2, 5.0))
            } else {
                (rng.log(20.0, 3000.0), rng.log(1e2, 1e9))
            }
        };
        if (1.0..1e4).contains(&t) && (1e-2..1e11).contains(&p) {
            self.gas_at(r, g, hydrogen, t, p, "where another user asked");
        }
        let again = ask(g, i, t, p);
        let want = ask(&fresh, i, t, p);
        r.ensure("gas_history", same(again, want), || {
            format!("property {i} at {t:e} K, {p:e} Pa: {again:e} after other questions, a new gas answers {want:e}")
        });
    }

    fn gas_at(&self, r: &mut Report, g: &IdealGas, hydrogen: bool, t: f64, p: f64, place: &str) {
        let (d, u, h, cp) = (g.dens(t, p), g.inte(t, p), g.enth(t, p), g.cp(t, p));
        let place = format!("at {t:e} K, {p:e} Pa {place}");
        let scale = u.abs() + h.abs() + p / d + cp.abs() * t;
        let c = h - u - p / d;
        let c0 = self.reference.get().unwrap_or(c);
        self.reference.set(Some(c0));
        r.eq("flow_work", c, c0, 1e-10, scale, &format!("enthalpy less internal energy less p/rho {place}, first value"));
        let (dt, dp) = (1e-3 * t, 1e-3 * p);
        let mut deriv = |class: &'static str, x: f64, want: f64, scale: f64, known: f64| {
            let tol = 1e-9 * scale;
            if known != 0.0 && (x - want).abs() > tol && (want - x - known).abs() <= tol {
                *r.findings.entry("hydrogen-enthalpy").or_default() += 1;
                return;
            }
            r.eq(class, x, want, 1e-9, scale, &format!("{class} {place}"));
        };
        deriv("dd_dP", g.dd_dP_T(t, p), slope(|e| g.dens(t, p + e), dp), d / p, 0.0);
        deriv("dd_dT", g.dd_dT_P(t, p), slope(|e| g.dens(t + e, p), dt), d / t, 0.0);
        deriv("du_dP", g.du_dP_T(t, p), slope(|e| g.inte(t, p + e), dp), (u.abs() + cp.abs() * t) / p, 0.0);
        let known = if hydrogen { hydrogen_defect(t) } else { 0.0 };
        let s = (u.abs() + h.abs()) / t + cp.abs();
        deriv("du_dT", g.du_dT_P(t, p), slope(|e| g.inte(t + e, p), dt), s, known);
        deriv("cp", cp, slope(|e| g.enth(t + e, p), dt), s, known);
        deriv("dh_dP", 1.0 / d + (p / d) * -g.dd_dP_T(t, p) / d + g.du_dP_T(t, p), slope(|e| g.enth(t, p + e), dp), s * t / p, 0.0);
    }

    // ------------------------------------------------------------ drive

    /// Whether the closures of this run are watched
    pub fn drive(&self) -> bool {
        self.kind == Kind::Drive
    }

    /// A run was given the volumes `f` of a drive that turns `freq` times a second
    pub fn volumes(&self, w: &WsSpec, f: &Vols, freq: f64) {
        let n = self.closures.get();
        self.closures.set(n + 1);
        if n >= 12 || !(freq.is_finite() && freq > 0.0) {
            return;
        }
        let r = &mut *self.report.borrow_mut();
        r.eq("speed", freq, w.freq, 1e-12, w.freq, "frequency of the drive");
        // a whole period
        let steps = 720;
        let (mut min, mut max) = ([f64::INFINITY; 2], [f64::NEG_INFINITY; 2]);
        for i in 0..steps {
            let t = (i as f64 + 0.37) / steps as f64 / freq;
            let (c, e) = f(t);
            for (k, v) in [c.value, e.value].into_iter().enumerate() {
                min[k] = min[k].min(v);
                max[k] = max[k].max(v);
                if v.is_nan() {
                    r.fail("clearance", format!("volume {k} of {:?} at {t:e} s is not a number", w.kin));
                }
            }
        }
        let clearance = clearance(&w.kin);
        for k in 0..2 {
            let amp = max[k] - min[k];
            r.le("clearance", clearance[k] - min[k], 1e-11 * (amp + clearance[k]), || {
                format!("space {k} falls to {:e}, its clearance is {:e}", min[k], clearance[k])
            });
            r.le("smallest", min[k] - clearance[k], 2e-3 * amp + 1e-11 * clearance[k], || {
                format!("space {k} never gets below {:e}, its clearance is {:e}", min[k], clearance[k])
            });
            if let Kin::Sin { sw_c, sw_e, .. } = w.kin {
                let swept = [sw_c, sw_e][k];
                r.eq("swept", amp, swept, 1e-4, swept + 1e-9 * clearance[k], &format!("volume swept in space {k}"));
            }
        }
    }

    /// The run got `x` for the volumes at `t`; `fresh` belongs to a drive nobody else asked
    #[allow(clippy::too_many_arguments)]
    pub fn instant(&self, w: &WsSpec, f: &Vols, fresh: &Vols, freq: f64, t: f64, x: [f64; 4]) {
        if self.kind != Kind::Drive || !self.take() {
            return;
        }
        if !(t.is_finite() && freq.is_finite() && freq > 0.0) {
            return;
        }
        let r = &mut *self.report.borrow_mut();
        let flat = |(c, e): (sett_rs::ws::CompVolume, sett_rs::ws::ExpVolume)| [c.value, c.deriv, e.value, e.deriv];
        let want = flat(fresh(t));
        r.ensure("drive_history", x.map(f64::to_bits) == want.map(f64::to_bits), || {
            format!("at {t:e} s a run gets {x:?}, a new drive answers {want:?}")
        });
        self.instant_at(r, w, f, freq, t, x);
        let (t, n) = {
            let mut rng = self.rng.borrow_mut();
            (rng.range(-3.0, 5.0) / freq, rng.int(1, 40) as f64)
        };
        let y = flat(f(t));
        self.instant_at(r, w, f, freq, t, y);
        let z = flat(f(t + n / freq));
        let amp = amplitude(&w.kin);
        let omega = std::f64::consts::TAU * freq;
        let clearance = clearance(&w.kin);
        for k in 0..2 {
            let (s, c) = (amp[k], clearance[k]);
            r.eq("period", z[2 * k], y[2 * k], 1e-10, s + 1e-4 * c, &format!("volume {k} {n} periods after {t:e} s"));
            r.eq("period_rate", z[2 * k + 1], y[2 * k + 1], 1e-9, s * omega, &format!("rate {k} {n} periods after {t:e} s"));
        }
    }

    fn instant_at(&self, r: &mut Report, w: &WsSpec, f: &Vols, freq: f64, t: f64, x: [f64; 4]) {
        let amp = amplitude(&w.kin);
        let clearance = clearance(&w.kin);
        let omega = std::f64::consts::TAU * freq;
        let h = 4e-4 / freq;
        let comp = slope(|e| f(t + e).0.value, h);
        let exp = slope(|e| f(t + e).1.value, h);
        for (k, want) in [comp, exp].into_iter().enumerate() {
            let scale = omega * (amp[k] + 1e-4 * clearance[k]);
            r.eq("rate", x[2 * k + 1], want, 1e-7, scale, &format!("volume rate {k} at {t:e} s, its difference quotient"));
            r.le("clearance", clearance[k] - x[2 * k], 1e-11 * (amp[k] + clearance[k]), || {
                format!("space {k} has {:e} at {t:e} s, its clearance is {:e}", x[2 * k], clearance[k])
            });
        }
    }

    // ------------------------------------------------------------ conductance

    /// The run got `x` from a heat exchanger shown `s`
    pub fn approach(&self, h: &HxSpec, which: usize, s: &Shown, x: f64, probe: &dyn Fn(&Shown) -> f64) {
        let Answer::Ua { ua } = h.answer else {
            return;
        };
        if self.kind != Kind::Conductance || !h.is_real() || !self.take() {
            return;
        }
        let r = &mut *self.report.borrow_mut();
        let same = |a: f64, b: f64| a.to_bits() == b.to_bits() || a == b || (a.is_nan() && b.is_nan());
        let want = ask_bare(h, which, s);
        r.ensure("conductance_history", same(x, want), || {
            format!("exchanger {which} shown {s:?}: a run gets {x:e}, a new one answers {want:e}")
        });
        self.approach_at(r, h, which, s, x, "during a run");
        for _ in 0..3 {
            let mut o = *s;
            {
                let mut rng = self.rng.borrow_mut();
                let c = ua / rng.log(1e-3, 1e3);
                if rng.p(0.5) {
                    o.cp = rng.log(500.0, 2e4);
                }
                o.m = c / o.cp;
                o.q = rng.sign() * c * rng.log(1e-3, 300.0);
                match rng.below(4) {
                    0 => o.temp = rng.range(200.0, 1200.0),
                    1 => o.pres = rng.log(1e4, 1e8),
                    2 => o.dens = rng.log(1e-2, 1e2),
                    _ => {}
                }
                if rng.p(0.5) {
                    o.t1 = rng.range(200.0, 500.0);
                    o.t2 = if which == 1 { o.t1 + rng.range(-50.0, 800.0) } else { o.t2 };
                }
            }
            let y = probe(&o);
            self.approach_at(r, h, which, &o, y, "asked by another user");
        }
        let y = probe(s);
        r.ensure("conductance_history", same(y, want), || {
            format!("exchanger {which} shown {s:?}: {y:e} after other questions, a new one answers {want:e}")
        });
    }

    fn approach_at(&self, r: &mut Report, h: &HxSpec, which: usize, s: &Shown, x: f64, how: &str) {
        let (Answer::Ua { ua }, c) = (&h.answer, s.cp * s.m) else {
            return;
        };
        let ntu = ua / c;
        let want = approach_truth(h, which, s).unwrap_or(f64::NAN);
        if !(ntu > 1e-9 && ntu < 1e9 && want.is_finite()) {
            r.skip("no capacity rate or heat flow to speak of");
            return;
        }
        let slack = if which == 1 { (s.t2 - s.t1).abs() * 1e-13 } else { (s.q / c).abs() * 1e-14 * (1.0 + 1.0 / (ntu * ntu)) };
        r.le("effectiveness", (x - want).abs(), 1e-9 * want.abs() + slack, || {
            format!("exchanger {which} with UA {ua:e} shown {s:?} {how} answers {x:e}, effectiveness-NTU says {want:e}")
        });
    }
}

pub type Vols = dyn Fn(f64) -> (sett_rs::ws::CompVolume, sett_rs::ws::ExpVolume);

fn clearance(k: &Kin) -> [f64; 2] {
    match k {
        Kin::Sin { cl_c, cl_e, .. } | Kin::Rhombic { cl_c, cl_e, .. } | Kin::Harm { cl_c, cl_e, .. } => [*cl_c, *cl_e],
    }
}

/// Volumes swept
fn amplitude(k: &Kin) -> [f64; 2] {
    match k {
        Kin::Sin { sw_c, sw_e, .. } | Kin::Harm { sw_c, sw_e, .. } => [*sw_c, *sw_e],
        Kin::Rhombic { ecc, r, l, d_p, d_d, .. } => {
            let a = |d: &f64| std::f64::consts::PI * d * d / 4.0;
            let b = |c: f64| (l * l - c * c).sqrt();
            [2.0 * a(d_p) * (b(ecc - r) - b(ecc + r)), a(d_d) * 2.0 * r]
        }
    }
}
