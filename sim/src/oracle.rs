//! The properties, evaluated over the recorded history and the result of a run

#![allow(non_snake_case)]

use std::collections::BTreeMap;

use crate::{
    comps::*,
    ctx::*,
    model::*,
    spec::*,
    world::{Outcome, Rec, RunOut},
};

/// Only record how close comparisons come to their limits
pub static CALIBRATE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}

/// Collects verdicts, and how close every comparison came to its limit
#[derive(Default, Clone, Debug)]
pub struct Report {
    pub violations: Vec<Violation>,
    pub worst: BTreeMap<&'static str, f64>,
    pub checks: u64,
    pub findings: BTreeMap<&'static str, u64>,
    pub skipped: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<String, u64>,
}

impl Report {
    /// Require `value <= limit`; NaN is a violation
    pub fn le(&mut self, class: &'static str, value: f64, limit: f64, detail: impl FnOnce() -> String) -> bool {
        self.checks += 1;
        let ratio = if value == 0.0 { 0.0 } else { value / limit };
        let w = self.worst.entry(class).or_insert(0.0);
        if ratio > *w || ratio.is_nan() {
            *w = if ratio.is_nan() { f64::MAX } else { ratio.min(f64::MAX) };
        }
        if value <= limit || CALIBRATE.load(std::sync::atomic::Ordering::Relaxed) {
            return true;
        }
        self.fail(class, format!("{} ({value:e} > {limit:e})", detail()));
        false
    }
    /// Require two numbers to agree within `tol` times `scale`
    pub fn eq(&mut self, class: &'static str, a: f64, b: f64, tol: f64, scale: f64, what: &str) -> bool {
        if a.to_bits() == b.to_bits() || a == b {
            self.checks += 1;
            self.worst.entry(class).or_insert(0.0);
            return true;
        }
        self.le(class, (a - b).abs(), tol * scale.abs().max(f64::MIN_POSITIVE), || {
            format!("{what}: reported {a:e}, expected {b:e}")
        })
    }
    pub fn ensure(&mut self, class: &'static str, ok: bool, detail: impl FnOnce() -> String) -> bool {
        self.checks += 1;
        if !ok {
            self.fail(class, detail());
        }
        ok
    }
    pub fn fail(&mut self, class: &str, detail: String) {
        if self.violations.iter().filter(|v| v.class == class).count() < 2 {
            self.violations.push(Violation { class: class.to_string(), detail });
        }
    }
    pub fn absorb(&mut self, o: &Report) {
        self.checks += o.checks;
        for (k, v) in &o.worst {
            let w = self.worst.entry(k).or_insert(0.0);
            *w = w.max(*v);
        }
        for (k, v) in &o.findings {
            *self.findings.entry(k).or_default() += v;
        }
        for (k, v) in &o.skipped {
            *self.skipped.entry(k).or_default() += v;
        }
        for (k, v) in &o.probes {
            *self.probes.entry(k.clone()).or_default() += v;
        }
        for v in &o.violations {
            self.fail(&v.class, v.detail.clone());
        }
    }
    pub fn skip(&mut self, why: &'static str) {
        *self.skipped.entry(why).or_default() += 1;
    }
    pub fn probe(&mut self, what: &str) {
        *self.probes.entry(what.to_string()).or_default() += 1;
    }
}

/// Context of a finished run that several properties need
pub struct View<'a> {
    pub spec: &'a RunSpec,
    pub ctx: &'a Ctx,
    pub rec: &'a Rec,
    /// consultations by outer iteration; the returned cycle is that of iteration `rounds - 1`
    pub rounds: u64,
    pub freq: f64,
    pub model: CycleModel,
    /// a fault changed the physics of the returned cycle in a way the model does not know
    pub murky: bool,
}

pub fn view<'a>(spec: &'a RunSpec, ctx: &'a Ctx, rec: &'a Rec) -> View<'a> {
    let rounds = ctx.round();
    let last = rounds.saturating_sub(1);
    let log = ctx.ws_asked.borrow();
    let find = |cb: Cb| log.iter().rev().find(|a| a.phase == Phase::Run && a.cb == cb && a.round <= last);
    // What the drive answers in the last iteration does not depend on whether it was asked:
    // it follows from the pressure the components were shown at the end of the iteration before
    // (for faults that hit single calls only the log tells).
    let p_before = if last == 0 {
        Some(spec.pres_zero)
    } else {
        let asked = ctx.asked.borrow();
        asked
            .iter()
            .find(|(_, cb, a)| *cb < CB_INITIAL && a.phase == Phase::Run && a.round + 1 == last)
            .map(|(_, _, a)| a.shown.pres)
    };
    let known = |cb: Cb| {
        !ctx.faults_on(cb).any(|f| matches!(f.when, When::Calls { .. }) || matches!(f.how, How::Stuck | How::Noise(_) | How::Crash))
    };
    let truth = |cb: Cb, f: &dyn Fn(f64) -> f64| match (p_before, known(cb)) {
        (Some(p), true) => ctx.peek(cb, last, f(p)),
        _ => find(cb).map_or(f(spec.pres_zero), |a| a.answer),
    };
    let freq = truth(CB_FREQ, &|p| freq_truth(&spec.ws, p, spec.pres_zero));
    let q_c = match (p_before, find(CB_WSPAR)) {
        (Some(p), _) => ws_par_truth(&spec.ws, p, spec.pres_zero).0[0],
        (None, Some(a)) => ws_par_truth(&spec.ws, a.pres[0], spec.pres_zero).0[0],
        (None, None) => spec.ws.par_c[0],
    };
    let q_e = truth(CB_WSPAR, &|p| ws_par_truth(&spec.ws, p, spec.pres_zero).1[0]);
    let r_c = truth(CB_THERM, &|_| resistance(spec.ws.r_c));
    let vol = |which: usize| ctx.peek(CB_VOLUME + which, last, spec.hx(which).vol);
    let murky = spec.faults.iter().any(|f| {
        let active = match f.when {
            When::Rounds { from, to } => last >= from && last < to,
            When::Calls { .. } => true,
        };
        let finite = matches!(f.how, How::Add(_) | How::Mul(_) | How::Set(_) | How::Noise(_) | How::Stuck);
        active
            && finite
            && matches!(f.what, What::Volumes | What::AnyProp | What::Prop(_) | What::Volume | What::Frequency)
            && !(matches!(f.when, When::Rounds { .. }) && matches!(f.what, What::Volume | What::Frequency))
    });
    let t = &rec.temp;
    let model = CycleModel {
        gas: Gas::new(&spec.fluid),
        kin: spec.ws.kin.clone(),
        freq,
        t_k: t[1],
        t_rc: t[2],
        t_r: t[3],
        t_rh: t[4],
        t_l: t[5],
        v_k: vol(0),
        v_r: vol(1),
        v_l: vol(2),
        r_c,
        r_e: resistance(spec.ws.r_e),
        q_c,
        q_e,
    };
    View { spec, ctx, rec, rounds, freq, model, murky }
}

fn max_abs(v: &[f64]) -> f64 {
    v.iter().fold(0.0, |m: f64, x| m.max(x.abs()))
}

/// Relative accuracy the integration tolerance promises for pressure and temperatures
pub fn promise(s: &RunSpec) -> f64 {
    s.ode.rel + s.ode.abs / 250.0
}

// ------------------------------------------------------------------ C01

/// What the components answer to the reported state, and whether that is a pure function of it
pub fn implied_answers(v: &View) -> [f64; 3] {
    let st = true_states(v);
    std::array::from_fn(|w| {
        let h = v.spec.hx(w);
        let log = v.ctx.asked.borrow();
        let last = log.iter().rev().find(|(i, cb, a)| {
            usize::from(*i) == w && *cb == CB_APPROACH + w && a.phase == Phase::Run
        });
        let faulty = last.map_or(false, |l| l.2.faulty);
        if h.is_script() || faulty {
            // the component answers by consultation: the answer it gave is the one that counts
            last.map_or(f64::NAN, |l| l.2.answer)
        } else {
            ask_bare(h, w, &st[w])
        }
    })
}

/// The states of the returned cycle, rebuilt from the returned series
pub fn true_states(v: &View) -> [Shown; 3] {
    let s = summaries(v);
    let t = &v.rec.temp;
    let g = &v.model.gas;
    let mk = |i: usize, temp: f64, t1: f64, t2: f64| Shown {
        temp,
        pres: s.p_avg,
        dens: g.dens(temp, s.p_avg),
        cp: g.cp(temp, s.p_avg),
        m: s.m[i],
        q: s.q[i],
        t1,
        t2,
    };
    [mk(0, t[1], t[0], 0.0), mk(1, t[3], t[1], t[5]), mk(2, t[5], t[6], 0.0)]
}

pub fn c01(v: &View, r: &mut Report) {
    let t = &v.rec.temp;
    r.ensure("inputs_kept", t[0] == v.spec.temp_sink && t[6] == v.spec.temp_source, || {
        format!("sink/source reported as {} and {}", t[0], t[6])
    });
    let a = implied_answers(v);
    let chx = t[0] + a[0];
    let hhx = t[6] - a[2];
    // regenerator temperatures follow from the new heat exchanger temperatures
    let imb = v.rec.imbalance;
    let (cold_a, hot_a) = if imb >= 0.0 { (a[1], a[1] + imb) } else { (a[1] - imb, a[1]) };
    let (lo, hi) = (chx + 0.5 * cold_a, hhx - 0.5 * hot_a);
    let avg = (hi - lo) / (hi / lo).ln();
    let pairs = [
        ("chx", t[1], chx),
        ("regen.cold", t[2], chx + cold_a),
        ("regen.avg", t[3], avg),
        ("regen.hot", t[4], hhx - hot_a),
        ("hhx", t[5], hhx),
    ];
    let tol = v.spec.outer;
    for (name, used, implied) in pairs {
        let d = (implied - used).abs();
        let slack = 1e-9 * used.abs();
        r.le("agree_abs", d, tol.abs * (1.0 + 1e-6) + slack, || {
            format!("{name}: engine reports {used} K, its components imply {implied} K, absolute tolerance {}", tol.abs)
        });
        r.le("agree_rel", d / used.abs(), tol.rel * (1.0 + 1e-6) + 1e-9, || {
            format!("{name}: engine reports {used} K, its components imply {implied} K, relative tolerance {}", tol.rel)
        });
    }
}

// ------------------------------------------------------------------ C02

pub fn c02(v: &View, r: &mut Report) {
    let s = &v.rec.ser;
    if s.P.is_empty() || s.T_c.is_empty() || s.T_e.is_empty() {
        r.fail("series_missing", "a returned series is empty".into());
        return;
    }
    let tol = v.spec.inner;
    // disturbed evaluations: the integration that was found to close and the one that is
    // returned only agree to integration accuracy
    let disturbed = matches!(v.spec.solver, SolverSpec::Switch { .. })
        || v.spec.faults.iter().zip(&v.ctx.fired).any(|(f, n)| n.get() > 0 && matches!(f.when, When::Calls { .. }));
    let loose = if disturbed { K_MASS * promise(v.spec) } else { 0.0 };
    let mut worst: f64 = 0.0;
    for (name, x) in [("compression", &s.T_c), ("expansion", &s.T_e)] {
        let (a, b) = (x[0], x[x.len() - 1]);
        let d = (b - a).abs();
        worst = worst.max(d / a.abs());
        r.le(if disturbed { "close_integration" } else { "close_abs" }, d, tol.abs * (1.0 + 1e-6) + (1e-9 + loose) * a.abs(), || {
            format!("{name} space starts at {a} K and ends at {b} K, absolute tolerance {}", tol.abs)
        });
        r.le(if disturbed { "close_integration" } else { "close_rel" }, d / a.abs(), tol.rel * (1.0 + 1e-6) + 1e-9 + loose, || {
            format!("{name} space starts at {a} K and ends at {b} K, relative tolerance {}", tol.rel)
        });
    }
    r.eq("pres_zero", s.P[0], v.spec.pres_zero, 1e-12, v.spec.pres_zero, "pressure at time zero");
    let dp = (s.P[s.P.len() - 1] / s.P[0] - 1.0).abs();
    r.le("pres_returns", dp, 3.0 * worst + K_MASS * promise(v.spec) + 1e-9, || {
        format!("pressure starts at {} and ends at {}", s.P[0], s.P[s.P.len() - 1])
    });
}

pub const K_MASS: f64 = 60.0;

// ------------------------------------------------------------------ C03

pub fn c03(v: &View, r: &mut Report) {
    let s = &v.rec.ser;
    if !s.consistent() {
        r.fail("series_missing", "series differ in length".into());
        return;
    }
    let (m, g) = (&v.model, &v.model.gas);
    let n = s.time.len();
    let m_scale = s.m.iter().map(|x| max_abs(x)).fold(0.0, f64::max);
    let mut m0 = 0.0;
    let mut cum = [0.0f64; 2];
    let mut first = [0.0f64; 2];
    let period = s.time[n - 1];
    for i in 0..n {
        let (p, tc, te) = (s.P[i], s.T_c[i], s.T_e[i]);
        let sk = m.v_k * g.dd_dP(m.t_k, p);
        let sr = m.v_r * g.dd_dP(m.t_r, p);
        let sl = m.v_l * g.dd_dP(m.t_l, p);
        let flows = [s.m[0][i], s.m[1][i], s.m[2][i], s.m[3][i]];
        let d = (flows[0] - flows[3]) / (sk + sr + sl);
        for (j, (name, c)) in [("chx", sk), ("regenerator", sr), ("hhx", sl)].into_iter().enumerate() {
            let stored = c * d;
            r.le("mass_hx", (flows[j] - flows[j + 1] - stored).abs(), 1e-9 * m_scale, || {
                format!("{name} at point {i}: in {} out {} but stores {stored} kg/s", flows[j], flows[j + 1])
            });
        }
        let masses = m.mass(s.time[i], [p, tc, te]);
        let total: f64 = masses.iter().sum();
        if i == 0 {
            m0 = total;
            first = [masses[0], masses[4]];
        } else {
            let dt = s.time[i] - s.time[i - 1];
            cum[0] -= 0.5 * dt * (s.m[0][i] + s.m[0][i - 1]);
            cum[1] += 0.5 * dt * (s.m[3][i] + s.m[3][i - 1]);
        }
        r.le("mass_total", (total / m0 - 1.0).abs(), K_MASS * promise(v.spec) + 1e-9, || {
            format!("engine holds {m0} kg at the start and {total} kg at point {i}")
        });
        if n >= 120 {
            let lim = 60.0 / (n as f64).powi(2) * m_scale * period + (K_MASS * promise(v.spec) + 1e-9) * m0;
            for (k, name) in ["compression", "expansion"].into_iter().enumerate() {
                let stored = masses[4 * k] - first[k];
                r.le("mass_space", (stored - cum[k]).abs(), lim, || {
                    format!("{name} space gained {stored} kg by point {i}, its flow adds up to {}", cum[k])
                });
            }
        }
    }
}

// ------------------------------------------------------------------ C04

pub fn c04(v: &View, r: &mut Report) {
    let s = &v.rec.ser;
    if !s.consistent() {
        r.fail("series_missing", "series differ in length".into());
        return;
    }
    let (m, g) = (&v.model, &v.model.gas);
    let n = s.time.len();
    let period = s.time[n - 1];
    let mut heat = Vec::with_capacity(n); // net heat into the gas
    let mut gross = Vec::with_capacity(n);
    let mut work = Vec::with_capacity(n);
    let mut shift = Vec::with_capacity(n); // heat the shipped hydrogen model loses
    let mut phys_gap: f64 = 0.0; // gap of the physical balance, explained by the shipped ideal gas reference
    // rows may be small at an instant: judge them against the largest terms of the cycle
    let mut rows: Vec<([f64; 5], [f64; 5])> = Vec::with_capacity(n);
    for i in 0..n {
        let (p, tc, te) = (s.P[i], s.T_c[i], s.T_e[i]);
        let vol = volumes(&m.kin, m.freq, s.time[i]);
        let sk = m.v_k * g.dd_dP(m.t_k, p);
        let sr = m.v_r * g.dd_dP(m.t_r, p);
        let sl = m.v_l * g.dd_dP(m.t_l, p);
        let [ck, kr, rl, le] = [s.m[0][i], s.m[1][i], s.m[2][i], s.m[3][i]];
        let dp = (ck - le) / (sk + sr + sl);
        let h_ck = if ck >= 0.0 { g.enth(tc, p) } else { g.enth(m.t_k, p) };
        let h_kr = if kr >= 0.0 { g.enth(m.t_k, p) } else { g.enth(m.t_rc, p) };
        let h_rl = if rl >= 0.0 { g.enth(m.t_rh, p) } else { g.enth(m.t_l, p) };
        let h_le = if le >= 0.0 { g.enth(m.t_l, p) } else { g.enth(te, p) };
        let q_c = m.q_c + if m.r_c.is_finite() { (tc - m.t_k) / m.r_c } else { 0.0 };
        let q_e = m.q_e + if m.r_e.is_finite() { (te - m.t_l) / m.r_e } else { 0.0 };
        let mut row = [0.0; 5];
        let mut size = [0.0; 5];
        let mut space = |k: usize, t: f64, vo: f64, dvo: f64, out: f64, h: f64, q: f64| {
            let (d, u) = (g.dens(t, p), g.inte(t, p));
            // temperature rate from the mass balance
            let dt = (-out - d * dvo - vo * g.dd_dP(t, p) * dp) / (vo * g.dd_dT(t, p));
            let terms = [
                vo * (d * g.du_dT(t, p) + u * g.dd_dT(t, p)) * dt,
                vo * (d * g.du_dP(t, p) + u * g.dd_dP(t, p)) * dp,
                d * u * dvo,
                out * h,
                p * dvo,
                q,
            ];
            row[k] = terms.iter().sum();
            size[k] = terms.iter().map(|x| x.abs()).sum::<f64>() + (d * dvo).abs() * u.abs();
            dt
        };
        let dtc = space(0, tc, vol.vc, vol.dvc, ck, h_ck, q_c);
        let dte = space(4, te, vol.ve, vol.dve, -le, h_le, q_e);
        let hx = |t: f64, vo: f64| vo * (g.dens(t, p) * g.du_dP(t, p) + g.inte(t, p) * g.dd_dP(t, p)) * dp;
        // the energy that flows on is measured from a hot reference for a well scaled comparison
        let terms_k = [-ck * h_ck, kr * h_kr, hx(m.t_k, m.v_k), s.q[0][i]];
        let terms_r = [-kr * h_kr, rl * h_rl, hx(m.t_r, m.v_r), s.q[1][i]];
        let terms_l = [-rl * h_rl, le * h_le, hx(m.t_l, m.v_l), -s.q[2][i]];
        for (k, t) in [(1, terms_k), (2, terms_r), (3, terms_l)] {
            row[k] = t.iter().sum();
            size[k] = t.iter().map(|x| x.abs()).sum();
        }
        rows.push((row, size));
        heat.push(s.q[2][i] - s.q[0][i] - s.q[1][i] - q_c - q_e);
        gross.push(s.q[2][i].abs() + s.q[0][i].abs() + s.q[1][i].abs() + q_c.abs() + q_e.abs());
        work.push(p * (vol.dvc + vol.dve));
        if v.spec.fluid == FluidSpec::Hydrogen {
            let gap = |t: f64| g.du_dT(t, p) - (g.dh_dT_shipped(t) - g.r());
            shift.push(vol.vc * g.dens(tc, p) * gap(tc) * dtc + vol.ve * g.dens(te, p) * gap(te) * dte);
        } else {
            shift.push(0.0);
        }
        if v.spec.fluid.is_real() {
            // flow work is P/rho, the shipped model makes it R (T - 250 K)
            let dm = -ck;
            phys_gap = phys_gap.max((g.r() * 250.0 * dm).abs());
        }
    }
    let names = ["compression space", "chx", "regenerator", "hhx", "expansion space"];
    let mut cycle_size = [0.0f64; 5];
    for (_, size) in &rows {
        for k in 0..5 {
            cycle_size[k] = cycle_size[k].max(size[k]);
        }
    }
    for (i, (row, size)) in rows.iter().enumerate() {
        for k in 0..5 {
            let class = if k == 0 || k == 4 { "energy_space" } else { "energy_hx" };
            let scale = size[k].max(1e-3 * cycle_size[k]);
            r.le(class, row[k].abs(), 1e-8 * scale, || {
                format!("energy balance of the {} is off by {} W of {} W at point {i}", names[k], row[k], size[k])
            });
        }
    }
    if n >= 150 {
        let scale = trapz(&s.time, &gross) / period + trapz(&s.time, &work.iter().map(|x| x.abs()).collect::<Vec<_>>()) / period;
        let gap = (trapz(&s.time, &heat) - trapz(&s.time, &work)) / period;
        let explained = trapz(&s.time, &shift) / period;
        // a cycle only closes as well as its end temperatures do
        let open = cycle_opening(v, period);
        let lim = (40.0 / (n as f64).powi(2) + K_MASS * promise(v.spec) + 1e-7) * scale + open;
        r.le("energy_cycle", (gap - explained).abs(), lim, || {
            format!("over the cycle heat minus work is {gap} W of {scale} W (of which {explained} W is the known hydrogen shift)")
        });
        if v.spec.fluid == FluidSpec::Hydrogen && gap.abs() > 3.0 * lim && gap.abs() > 1e-4 * scale {
            *r.findings.entry("hydrogen-enthalpy").or_default() += 1;
        }
    }
    if v.spec.fluid.is_real() && phys_gap > 1e-3 * cycle_size[0] {
        // does the shipped fluid still behave that way?
        if let AnyFluid::Shipped(f) = make_fluid(&v.spec.fluid) {
            use sett_rs::fluid::Fluid;
            let (t, p) = (v.model.t_k, s.P[0]);
            let off = f.enth(t, p) - f.inte(t, p) - p / f.dens(t, p);
            if off.abs() > 1e-3 * g.r() * t {
                *r.findings.entry("ideal-gas-flow-work").or_default() += 1;
            }
        }
    }
}

/// Power that corresponds to the difference in stored energy between end and start
fn cycle_opening(v: &View, period: f64) -> f64 {
    let s = &v.rec.ser;
    let n = s.time.len();
    let g = &v.model.gas;
    let e = |i: usize| {
        let ms = v.model.mass(s.time[i], [s.P[i], s.T_c[i], s.T_e[i]]);
        let ts = [s.T_c[i], v.model.t_k, v.model.t_r, v.model.t_l, s.T_e[i]];
        (0..5).map(|k| ms[k] * g.inte(ts[k], s.P[i])).sum::<f64>()
    };
    ((e(n - 1) - e(0)) / period).abs() * 1.5
}

// ------------------------------------------------------------------ C05

pub fn c05(v: &View, r: &mut Report) {
    let s = &v.rec.ser;
    let n = v.spec.resolution as usize;
    r.ensure("point_count", s.lens().iter().all(|l| *l == n), || {
        format!("{n} points requested, series have {:?}", s.lens())
    });
    let res = v.rec.res();
    r.ensure(
        "point_count_results",
        res.ser.lens().iter().all(|l| *l == n) && res.P_c.len() == n && res.P_e.len() == n,
        || format!("{n} points requested, result series have {:?}, {}, {}", res.ser.lens(), res.P_c.len(), res.P_e.len()),
    );
    r.ensure("resolution_spans", n >= 2, || format!("an engine was returned for a resolution of {n}"));
    let period = 1.0 / v.freq;
    for time in [&s.time, &res.ser.time] {
        if time.len() == n && n >= 2 {
            r.ensure("starts_at_zero", time[0] == 0.0, || format!("first point at {} s", time[0]));
            for (i, t) in time.iter().enumerate() {
                let want = period * i as f64 / (n - 1) as f64;
                r.le("spacing", (t - want).abs(), 2e-9 * period, || format!("point {i} of {n} is at {t} s instead of {want} s"));
            }
        } else if let (Some(first), Some(last)) = (time.first(), time.last()) {
            r.le("span", (last - first - period).abs(), 2e-9 * period, || {
                format!("series spans {first} s to {last} s, the period is {period} s")
            });
        }
    }
}

// ------------------------------------------------------------------ C06

pub struct Summaries {
    pub p_avg: f64,
    pub p_max: f64,
    pub p_min: f64,
    pub m: [f64; 3],
    pub q: [f64; 3],
    pub m_scale: f64,
    pub q_scale: [f64; 3],
}

pub fn summaries(v: &View) -> Summaries {
    summaries_of(&v.rec.ser, &v.model)
}

pub fn summaries_of(s: &crate::world::Series, model: &CycleModel) -> Summaries {
    let n = s.time.len();
    let end = s.time.last().copied().unwrap_or(f64::NAN);
    let avg = |y: &[f64]| trapz(&s.time, y) / end;
    let pair = |a: usize| -> Vec<f64> { (0..n).map(|i| (0.5 * (s.m[a][i] + s.m[a + 1][i])).abs()).collect() };
    let m = [avg(&pair(0)), avg(&pair(1)), avg(&pair(2))];
    let q_c: Vec<f64> = s.T_c.iter().map(|t| if model.r_c.is_finite() { (t - model.t_k) / model.r_c } else { 0.0 }).collect();
    let q_e: Vec<f64> = s.T_e.iter().map(|t| if model.r_e.is_finite() { (model.t_l - t) / model.r_e } else { 0.0 }).collect();
    let abs = |y: &[f64]| y.iter().map(|x| x.abs()).sum::<f64>() / n as f64;
    Summaries {
        p_avg: avg(&s.P),
        p_max: s.P.iter().copied().fold(f64::NEG_INFINITY, f64::max),
        p_min: s.P.iter().copied().fold(f64::INFINITY, f64::min),
        m,
        q: [avg(&s.q[0]) + avg(&q_c), avg(&s.q[1]), avg(&s.q[2]) + avg(&q_e)],
        m_scale: s.m.iter().map(|x| max_abs(x)).fold(0.0, f64::max),
        q_scale: [abs(&s.q[0]) + abs(&q_c), abs(&s.q[1]), abs(&s.q[2]) + abs(&q_e)],
    }
}

pub fn c06(v: &View, r: &mut Report) {
    if !v.rec.ser.consistent() {
        r.fail("series_missing", "series differ in length".into());
        return;
    }
    let s = summaries(v);
    let rec = v.rec;
    let res = rec.res();
    for (who, pres, m, q) in [("engine", &rec.pres, &rec.m, &rec.q), ("results", &res.pres, &res.m, &res.q)] {
        for (name, x, want) in [
            ("average", pres[0], s.p_avg),
            ("maximum", pres[1], s.p_max),
            ("minimum", pres[2], s.p_min),
            ("time zero", pres[3], rec.ser.P[0]),
        ] {
            r.eq("pressure", x, want, 1e-10, s.p_max, &format!("{who}: {name} pressure"));
        }
        for (i, name) in ["chx", "regenerator", "hhx"].into_iter().enumerate() {
            r.eq("mass_flow", m[i], s.m[i], 1e-10, s.m_scale, &format!("{who}: average mass flow of the {name}"));
            r.eq("heat_flow", q[i], s.q[i], 1e-10, s.q_scale[i], &format!("{who}: average heat flow of the {name}"));
        }
    }
    for (i, name) in ["sink", "chx", "regen cold", "regen avg", "regen hot", "hhx", "source"].into_iter().enumerate() {
        r.eq("temperature", res.temp[i], rec.temp[i], 1e-14, 1e3, &format!("results: {name} temperature"));
    }
    r.eq("imbalance", res.imbalance, rec.imbalance, 1e-14, 1.0, "regenerator imbalance");
    r.ensure("same_series", res.ser == rec.ser, || "results carry other series than the engine".into());
}

// ------------------------------------------------------------------ C07

pub fn c07(v: &View, r: &mut Report) {
    let s = &v.rec.ser;
    let res = v.rec.res();
    if !s.consistent() || res.P_c.len() != s.P.len() || res.P_e.len() != s.P.len() {
        r.fail("series_missing", "series differ in length".into());
        return;
    }
    let n = s.time.len();
    let (t, g) = (&v.rec.temp, &v.model.gas);
    let st = true_states(v);
    let p_avg = st[0].pres;
    // the drive as it is in the reported state
    let freq = freq_truth(&v.spec.ws, p_avg, v.spec.pres_zero);
    let (par_c, par_e) = ws_par_truth(&v.spec.ws, p_avg, v.spec.pres_zero);
    let (r_c, r_e) = (resistance(v.spec.ws.r_c), resistance(v.spec.ws.r_e));
    let rh: [f64; 3] = std::array::from_fn(|w| r_hyd_truth(v.spec.hx(w), &st[w]));
    let par: [[f64; 3]; 3] = std::array::from_fn(|w| par_truth(v.spec.hx(w), &st[w]));
    let temps = [t[1], t[3], t[5]];
    let mut ind = Vec::with_capacity(n);
    let mut ideal = Vec::with_capacity(n);
    let mut mag = Vec::with_capacity(n);
    let (mut qc, mut qe) = (Vec::new(), Vec::new());
    for i in 0..n {
        let p = s.P[i];
        let vol = volumes(&v.spec.ws.kin, freq, s.time[i]);
        let mut drop = 0.0;
        let mut size = p;
        for k in 0..3 {
            let d = rh[k] * 0.5 * (s.m[k][i] + s.m[k + 1][i]) / g.dens(temps[k], p);
            drop += d;
            size += d.abs();
        }
        r.eq("pressure_drop", res.P_c[i], p + 0.5 * drop, 1e-10, size, &format!("P_c at point {i}"));
        r.eq("pressure_drop", res.P_e[i], p - 0.5 * drop, 1e-10, size, &format!("P_e at point {i}"));
        ind.push((p + 0.5 * drop) * vol.dvc + (p - 0.5 * drop) * vol.dve);
        ideal.push(p * (vol.dvc + vol.dve));
        mag.push(size * (vol.dvc.abs() + vol.dve.abs()));
        qc.push(if r_c.is_finite() { (s.T_c[i] - t[1]) / r_c } else { 0.0 });
        qe.push(if r_e.is_finite() { (t[5] - s.T_e[i]) / r_e } else { 0.0 });
    }
    let mean = |y: &[f64]| trapz(&s.time, y) * freq;
    let amag = |y: &[f64]| y.iter().map(|x| x.abs()).sum::<f64>() / n as f64;
    let indicated = mean(&ind);
    let ideal = mean(&ideal);
    let shaft = indicated - par_c[1] - par_e[1];
    let net = shaft - par[0][1] - par[2][1];
    let external = par[2][0] + par[1][0] + par_e[0];
    let input = mean(&s.q[2]) + mean(&qe) + external;
    let rejected = mean(&s.q[0]) + mean(&qc) + (ideal - indicated) + par_c[1] + par_e[1] + external;
    let w = mean(&mag).abs();
    let ws_mech = par_c[1].abs() + par_e[1].abs();
    let in_scale = amag(&s.q[2]) + amag(&qe) + external.abs() + par[2][0].abs() + par[1][0].abs();
    let rej_scale = amag(&s.q[0]) + amag(&qc) + w + ws_mech + external.abs();
    let tol = 1e-9;
    r.eq("indicated", res.ideal, ideal, tol, w, "ideal indicated power");
    r.eq("indicated", res.indicated, indicated, tol, w, "indicated power");
    r.eq("shaft", res.shaft, shaft, tol, w + ws_mech, "shaft power");
    r.eq("net", res.net, net, tol, w + ws_mech + par[0][1].abs() + par[2][1].abs(), "net power");
    let torque = shaft / (2.0 * std::f64::consts::PI * freq);
    r.eq("torque", res.torque, torque, tol, (w + ws_mech) / freq, "shaft torque");
    r.eq("heat_input", res.heat_input, input, tol, in_scale, "heat input");
    r.eq("heat_rejection", res.heat_rejection, rejected, tol, rej_scale, "heat rejection");
    let eff = net / input;
    let eff_scale = (w + ws_mech + par[0][1].abs() + par[2][1].abs()) / input.abs() * (1.0 + in_scale / input.abs());
    r.eq("efficiency", res.eff, eff, tol, eff_scale.max(eff.abs()), "efficiency");
}

// ------------------------------------------------------------------ C13

/// Follow the balances from the first returned point with an independent integration
pub fn c13(v: &View, r: &mut Report, budget: usize) {
    let s = &v.rec.ser;
    if !s.consistent() || s.time.len() < 2 {
        r.fail("series_missing", "series differ in length".into());
        return;
    }
    let n = s.time.len();
    let y0 = [s.P[0], s.T_c[0], s.T_e[0]];
    if y0.iter().any(|x| !x.is_finite() || *x <= 0.0) {
        r.fail("start", format!("the cycle starts at {y0:?}"));
        return;
    }
    let sub = (budget / (n - 1)).max(1);
    let mut tracks: Vec<Vec<[f64; 3]>> = Vec::new();
    for k in [sub, 2 * sub] {
        let mut y = y0;
        let sol = v.model.solve(0.0, y, (true, true));
        let mut hint = (sol.m[0] >= 0.0, sol.m[3] >= 0.0);
        let mut track = vec![y];
        for i in 1..n {
            let (yn, _) = v.model.advance(s.time[i - 1], s.time[i], y, k, &mut hint);
            y = yn;
            track.push(y);
        }
        tracks.push(track);
    }
    let err = (0..n)
        .flat_map(|i| (0..3).map(move |j| (i, j)))
        .map(|(i, j)| (tracks[0][i][j] / tracks[1][i][j] - 1.0).abs())
        .fold(0.0, |m: f64, x| if x.is_nan() { f64::INFINITY } else { m.max(x) });
    if !(err < 1e-3) {
        r.skip("reference trajectory not accurate");
        return;
    }
    let lim = K_TRAJ * promise(v.spec) + 4.0 * err + 1e-8;
    for i in 1..n {
        let want = tracks[1][i];
        for (name, x, y) in [("P", s.P[i], want[0]), ("T_c", s.T_c[i], want[1]), ("T_e", s.T_e[i], want[2])] {
            if !r.le("trajectory", (x / y - 1.0).abs(), lim, || {
                format!("{name} at point {i} of {n} ({} s) is {x}, the balances lead to {y}", s.time[i])
            }) {
                return;
            }
        }
    }
}

pub const K_TRAJ: f64 = 3000.0;

// ------------------------------------------------------------------ C15 (end of run)

/// What components are shown for the results
pub fn c15_results(v: &View, r: &mut Report) {
    if !v.rec.ser.consistent() {
        r.fail("series_missing", "series differ in length".into());
        return;
    }
    let want = true_states(v);
    let s = summaries(v);
    for (w, cb, a) in v.ctx.asked.borrow().iter() {
        if a.phase == Phase::Results {
            let which = usize::from(*w);
            let kind = if *cb >= CB_PAR { "parasitics" } else if *cb >= CB_RHYD { "hydraulic resistance" } else { "approach" };
            compare_shown(r, &a.shown, &want[which], &s, which, &format!("asked for its {kind} for the results"));
        }
    }
    for a in v.ctx.ws_asked.borrow().iter() {
        if a.phase == Phase::Results {
            for (x, y, name) in [
                (a.pres[0], s.p_avg, "average"),
                (a.pres[1], s.p_max, "maximum"),
                (a.pres[2], s.p_min, "minimum"),
                (a.pres[3], v.rec.ser.P[0], "time zero"),
            ] {
                r.eq("shown_ws", x, y, 1e-9, s.p_max, &format!("working spaces are shown a {name} pressure for the results"));
            }
        }
    }
}

pub fn compare_shown(r: &mut Report, got: &Shown, want: &Shown, s: &Summaries, which: usize, when: &str) {
    let name = ["chx", "regenerator", "hhx"][which];
    let t = 1e-9;
    r.eq("shown_temp", got.temp, want.temp, t, 1e3, &format!("{name} {when}: temperature"));
    r.eq("shown_neighbour", got.t1, want.t1, t, 1e3, &format!("{name} {when}: sink, source or chx temperature"));
    r.eq("shown_neighbour", got.t2, want.t2, t, 1e3, &format!("{name} {when}: hhx temperature"));
    r.eq("shown_pres", got.pres, want.pres, t, s.p_max, &format!("{name} {when}: pressure"));
    r.eq("shown_dens", got.dens, want.dens, t, want.dens, &format!("{name} {when}: density"));
    r.eq("shown_cp", got.cp, want.cp, t, want.cp, &format!("{name} {when}: heat capacity"));
    r.eq("shown_m", got.m, want.m, t, s.m_scale, &format!("{name} {when}: mass flow"));
    r.eq("shown_q", got.q, want.q, t, s.q_scale[which], &format!("{name} {when}: heat flow"));
}

// ------------------------------------------------------------------ general

/// Things no run may ever do, whatever the property
pub fn sane(out: &RunOut, r: &mut Report) {
    match &out.outcome {
        Outcome::Panic(msg) => r.fail("panic", format!("the run panicked: {msg}")),
        Outcome::Endless => r.fail("endless", "the run does not end".into()),
        Outcome::TooLong => r.skip("run given up"),
        _ => {}
    }
}

pub fn finite(rec: &Rec, r: &mut Report) {
    let ok = rec.pres.iter().chain(&rec.temp).chain(&rec.m).chain(&rec.q).all(|x| x.is_finite())
        && rec.imbalance.is_finite()
        && rec.ser.all().all(|x| x.is_finite());
    r.ensure("finite", ok, || "an engine with values that are not finite was returned".into());
}
