//! The executable reference model: fluids, kinematics and the balances of one cycle,
//! written independently of the code under test

#![allow(non_snake_case)]

use crate::spec::*;

/// Reference fluid
#[derive(Clone, Debug)]
pub struct Gas {
    spec: FluidSpec,
}

const H2: [f64; 6] = [
    12471.4839,
    13.319_443_2,
    -3.477_828_06e-2,
    4.317_848_38e-5,
    -2.428_833_35e-8,
    5.142_898_38e-12,
];
const H2_R: f64 = 4124.2;
const HE_R: f64 = 2077.23;
const HE_CP: f64 = 5193.17;
const TREF: f64 = 250.0;

impl Gas {
    pub fn new(spec: &FluidSpec) -> Self {
        Self { spec: spec.clone() }
    }
    pub fn r(&self) -> f64 {
        match self.spec {
            FluidSpec::Helium => HE_R,
            FluidSpec::Hydrogen => H2_R,
            FluidSpec::Perfect { r, .. } | FluidSpec::Virial { r, .. } => r,
        }
    }
    pub fn dens(&self, t: f64, p: f64) -> f64 {
        match self.spec {
            FluidSpec::Virial { r, b0, b1, .. } => 1.0 / (r * t / p + b0 - b1 / t),
            _ => p / (self.r() * t),
        }
    }
    pub fn enth(&self, t: f64, p: f64) -> f64 {
        match self.spec {
            FluidSpec::Helium => HE_CP * (t - TREF),
            FluidSpec::Hydrogen => {
                // as shipped: the polynomial of the mean, not the integral of cp
                let mut s = 0.0;
                for (i, c) in H2.iter().enumerate() {
                    s += c / (i as f64 + 1.0) * t.powi(i as i32);
                }
                s * (t - TREF)
            }
            FluidSpec::Perfect { cp, tref, .. } => cp * (t - tref),
            FluidSpec::Virial { c0, c1, b0, b1, tref, .. } => {
                c0 * (t - tref) + 0.5 * c1 * (t * t - tref * tref) + p * (b0 - 2.0 * b1 / t)
            }
        }
    }
    pub fn inte(&self, t: f64, p: f64) -> f64 {
        match self.spec {
            // as shipped: zero at the reference temperature, like enthalpy
            FluidSpec::Helium | FluidSpec::Hydrogen => self.enth(t, p) - self.r() * (t - TREF),
            _ => self.enth(t, p) - p / self.dens(t, p),
        }
    }
    pub fn cp(&self, t: f64, p: f64) -> f64 {
        match self.spec {
            FluidSpec::Helium => HE_CP,
            FluidSpec::Hydrogen => {
                let mut s = 0.0;
                for c in H2.iter().rev() {
                    s = s * t + c;
                }
                s
            }
            FluidSpec::Perfect { cp, .. } => cp,
            FluidSpec::Virial { c0, c1, b1, .. } => c0 + c1 * t + 2.0 * p * b1 / (t * t),
        }
    }
    pub fn dd_dP(&self, t: f64, p: f64) -> f64 {
        match self.spec {
            FluidSpec::Virial { r, .. } => {
                let d = self.dens(t, p);
                d * d * r * t / (p * p)
            }
            _ => 1.0 / (self.r() * t),
        }
    }
    pub fn dd_dT(&self, t: f64, p: f64) -> f64 {
        match self.spec {
            FluidSpec::Virial { r, b1, .. } => {
                let d = self.dens(t, p);
                -d * d * (r / p + b1 / (t * t))
            }
            _ => -p / (self.r() * t * t),
        }
    }
    pub fn du_dP(&self, t: f64, p: f64) -> f64 {
        match self.spec {
            // u = h - P v, v = RT/P + B, so du/dP = (B - T B') - B = -T B' = -b1/T
            FluidSpec::Virial { b1, .. } => {
                let _ = p;
                -b1 / t
            }
            _ => 0.0,
        }
    }
    pub fn du_dT(&self, t: f64, p: f64) -> f64 {
        match self.spec {
            FluidSpec::Virial { r, b1, .. } => self.cp(t, p) - p * (r / p + b1 / (t * t)),
            _ => self.cp(t, p) - self.r(),
        }
    }
    /// Derivative of the shipped enthalpy (differs from cp for hydrogen)
    pub fn dh_dT_shipped(&self, t: f64) -> f64 {
        match self.spec {
            FluidSpec::Hydrogen => {
                let mut s = 0.0;
                let mut ds = 0.0;
                for (i, c) in H2.iter().enumerate() {
                    let k = c / (i as f64 + 1.0);
                    s += k * t.powi(i as i32);
                    if i > 0 {
                        ds += k * i as f64 * t.powi(i as i32 - 1);
                    }
                }
                s + ds * (t - TREF)
            }
            _ => self.cp(t, 1e5),
        }
    }
}

/// value, derivative
#[derive(Clone, Copy, Debug)]
pub struct Vols {
    pub vc: f64,
    pub dvc: f64,
    pub ve: f64,
    pub dve: f64,
}

pub fn volumes(kin: &Kin, freq: f64, t: f64) -> Vols {
    let w = 2.0 * std::f64::consts::PI * freq;
    let th = w * t;
    match *kin {
        Kin::Sin { phase, cl_c, sw_c, cl_e, sw_e } => {
            let ph = th + phase * std::f64::consts::PI / 180.0;
            Vols {
                vc: cl_c + sw_c * 0.5 * (1.0 + th.cos()),
                dvc: -w * sw_c * 0.5 * th.sin(),
                ve: cl_e + sw_e * 0.5 * (1.0 + ph.cos()),
                dve: -w * sw_e * 0.5 * ph.sin(),
            }
        }
        Kin::Harm { phase, cl_c, sw_c, cl_e, sw_e, h2 } => {
            let ph = th + phase * std::f64::consts::PI / 180.0;
            // 0.5 (1 + cos x) + h2 (1 - cos 2x)/2 stays within [0, 1 + h2]
            let s = |x: f64| 0.5 * (1.0 + x.cos()) + h2 * 0.5 * (1.0 - (2.0 * x).cos());
            let ds = |x: f64| w * (-0.5 * x.sin() + h2 * (2.0 * x).sin());
            Vols {
                vc: cl_c + sw_c * s(th),
                dvc: sw_c * ds(th),
                ve: cl_e + sw_e * s(ph),
                dve: sw_e * ds(ph),
            }
        }
        Kin::Rhombic { cl_c, cl_e, ecc, r, l, d_p, d_d } => {
            // Crank pin at (ecc + r cos, r sin); the power piston hangs on connecting
            // rods of length l on one side and the displacer on the other
            let ap = std::f64::consts::FRAC_PI_4 * d_p * d_p;
            let ad = std::f64::consts::FRAC_PI_4 * d_d * d_d;
            let x = ecc + r * th.cos();
            let dx = -r * th.sin() * w;
            let b = (l * l - x * x).sqrt();
            let db = -x * dx / b;
            let b_min = (l * l - (ecc - r) * (ecc - r)).sqrt();
            let b_top = ((l - r) * (l - r) - ecc * ecc).sqrt();
            Vols {
                vc: cl_c + 2.0 * ap * (b_min - b),
                dvc: -2.0 * ap * db,
                ve: cl_e + ad * (b - b_top - r * th.sin()),
                dve: ad * (db - r * th.cos() * w),
            }
        }
    }
}

/// Constants of one cycle
#[derive(Clone, Debug)]
pub struct CycleModel {
    pub gas: Gas,
    pub kin: Kin,
    pub freq: f64,
    pub t_k: f64,
    pub t_rc: f64,
    pub t_r: f64,
    pub t_rh: f64,
    pub t_l: f64,
    pub v_k: f64,
    pub v_r: f64,
    pub v_l: f64,
    pub r_c: f64,
    pub r_e: f64,
    pub q_c: f64,
    pub q_e: f64,
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Sol {
    pub dp: f64,
    pub dtc: f64,
    pub dte: f64,
    pub m: [f64; 4],
    pub q: [f64; 3],
    /// more than one or no consistent flow pattern at the working spaces
    pub doubtful: bool,
}

impl CycleModel {
    /// Solve the balances for given directions at the working spaces
    fn with_dirs(&self, t: f64, y: [f64; 3], pos_c: bool, pos_e: bool) -> (f64, f64, f64, f64, f64) {
        let [p, tc, te] = y;
        let g = &self.gas;
        let v = volumes(&self.kin, self.freq, t);
        // gas leaving (m > 0 leaves comp) carries its own enthalpy
        let h_ck = if pos_c { g.enth(tc, p) } else { g.enth(self.t_k, p) };
        // m_le > 0 enters exp
        let h_le = if pos_e { g.enth(self.t_l, p) } else { g.enth(te, p) };
        let heat_c = self.q_c + if self.r_c.is_finite() { (tc - self.t_k) / self.r_c } else { 0.0 };
        let heat_e = self.q_e + if self.r_e.is_finite() { (te - self.t_l) / self.r_e } else { 0.0 };

        // Each working space: stored mass M = rho V, M' = sigma m with m = out of comp / into exp
        // energy: (M u)' = -P V' - heat + sigma m h
        let space = |temp: f64, vol: f64, dvol: f64, h: f64, heat: f64| {
            let (d, u) = (g.dens(temp, p), g.inte(temp, p));
            let (d_t, d_p) = (g.dd_dT(temp, p), g.dd_dP(temp, p));
            let (u_t, u_p) = (g.du_dT(temp, p), g.du_dP(temp, p));
            // V (d u_t + (u - h) d_t) T' = -P V' - heat - (u - h) d V' - V (d u_p + (u - h) d_p) P'
            let den = vol * (d * u_t + (u - h) * d_t);
            let t0 = (-p * dvol - heat - (u - h) * d * dvol) / den;
            let t1 = -vol * (d * u_p + (u - h) * d_p) / den;
            // M' = d V' + V d_t T' + V d_p P'
            let m0 = d * dvol + vol * d_t * t0;
            let m1 = vol * (d_t * t1 + d_p);
            (t0, t1, m0, m1)
        };
        let (c_t0, c_t1, c_m0, c_m1) = space(tc, v.vc, v.dvc, h_ck, heat_c);
        let (e_t0, e_t1, e_m0, e_m1) = space(te, v.ve, v.dve, h_le, heat_e);
        let s = self.v_k * g.dd_dP(self.t_k, p) + self.v_r * g.dd_dP(self.t_r, p) + self.v_l * g.dd_dP(self.t_l, p);
        // total mass is constant
        let dp = -(c_m0 + e_m0) / (c_m1 + e_m1 + s);
        let m_ck = -(c_m0 + c_m1 * dp);
        let m_le = e_m0 + e_m1 * dp;
        (dp, c_t0 + c_t1 * dp, e_t0 + e_t1 * dp, m_ck, m_le)
    }

    /// `hint` is the pattern used if several are consistent
    pub fn solve(&self, t: f64, y: [f64; 3], hint: (bool, bool)) -> Sol {
        let [p, _, _] = y;
        let mut found: Option<(f64, f64, f64, f64, f64)> = None;
        let mut count = 0;
        let mut fallback = None;
        for k in 0..4u8 {
            let (pc, pe) = ((k & 1 == 0) == hint.0, (k & 2 == 0) == hint.1);
            let s = self.with_dirs(t, y, pc, pe);
            if (s.3 >= 0.0) == pc && (s.4 >= 0.0) == pe {
                count += 1;
                if found.is_none() {
                    found = Some(s);
                }
            }
            if fallback.is_none() {
                fallback = Some(s);
            }
        }
        let (dp, dtc, dte, m_ck, m_le) = found.or(fallback).unwrap();
        let g = &self.gas;
        let m_kr = m_ck - self.v_k * g.dd_dP(self.t_k, p) * dp;
        let m_rl = m_le + self.v_l * g.dd_dP(self.t_l, p) * dp;
        let mut sol = Sol { dp, dtc, dte, m: [m_ck, m_kr, m_rl, m_le], q: [0.0; 3], doubtful: count != 1 };
        self.heat(y, &mut sol);
        sol
    }

    /// Heat flows of the three heat exchangers, from their energy balances
    fn heat(&self, y: [f64; 3], s: &mut Sol) {
        let [p, tc, te] = y;
        let g = &self.gas;
        let [ck, kr, rl, le] = s.m;
        let h_ck = if ck >= 0.0 { g.enth(tc, p) } else { g.enth(self.t_k, p) };
        let h_kr = if kr >= 0.0 { g.enth(self.t_k, p) } else { g.enth(self.t_rc, p) };
        let h_rl = if rl >= 0.0 { g.enth(self.t_rh, p) } else { g.enth(self.t_l, p) };
        let h_le = if le >= 0.0 { g.enth(self.t_l, p) } else { g.enth(te, p) };
        let store = |v: f64, t: f64| v * (g.dens(t, p) * g.du_dP(t, p) + g.inte(t, p) * g.dd_dP(t, p)) * s.dp;
        // heat leaves the gas in chx and regenerator, enters it in hhx
        s.q[0] = ck * h_ck - kr * h_kr - store(self.v_k, self.t_k);
        s.q[1] = kr * h_kr - rl * h_rl - store(self.v_r, self.t_r);
        s.q[2] = -(rl * h_rl - le * h_le - store(self.v_l, self.t_l));
    }

    pub fn mass(&self, t: f64, y: [f64; 3]) -> [f64; 5] {
        let g = &self.gas;
        let v = volumes(&self.kin, self.freq, t);
        [
            v.vc * g.dens(y[1], y[0]),
            self.v_k * g.dens(self.t_k, y[0]),
            self.v_r * g.dens(self.t_r, y[0]),
            self.v_l * g.dens(self.t_l, y[0]),
            v.ve * g.dens(y[2], y[0]),
        ]
    }

    /// Advance with classical Runge-Kutta steps and return (y, steps were doubtful)
    pub fn advance(&self, t0: f64, t1: f64, y0: [f64; 3], n: usize, hint: &mut (bool, bool)) -> ([f64; 3], bool) {
        let h = (t1 - t0) / n as f64;
        let mut y = y0;
        let mut doubtful = false;
        for i in 0..n {
            let t = t0 + h * i as f64;
            let mut f = |t: f64, y: [f64; 3], hint: &mut (bool, bool)| {
                let s = self.solve(t, y, *hint);
                doubtful |= s.doubtful;
                *hint = (s.m[0] >= 0.0, s.m[3] >= 0.0);
                [s.dp, s.dtc, s.dte]
            };
            let ax = |y: [f64; 3], k: [f64; 3], c: f64| [y[0] + c * k[0], y[1] + c * k[1], y[2] + c * k[2]];
            let k1 = f(t, y, hint);
            let k2 = f(t + 0.5 * h, ax(y, k1, 0.5 * h), hint);
            let k3 = f(t + 0.5 * h, ax(y, k2, 0.5 * h), hint);
            let k4 = f(t + h, ax(y, k3, h), hint);
            for j in 0..3 {
                y[j] += h / 6.0 * (k1[j] + 2.0 * k2[j] + 2.0 * k3[j] + k4[j]);
            }
        }
        (y, doubtful)
    }
}

/// Log-mean style average temperature of a balanced regenerator
pub fn regen_temps(t_chx: f64, t_hhx: f64, approach: f64) -> (f64, f64, f64) {
    let lo = t_chx + 0.5 * approach;
    let hi = t_hhx - 0.5 * approach;
    let avg = (hi - lo) / (hi / lo).ln();
    (t_chx + approach, avg, t_hhx - approach)
}

pub fn trapz(x: &[f64], y: &[f64]) -> f64 {
    let mut s = 0.0;
    for i in 1..x.len().min(y.len()) {
        s += 0.5 * (y[i] + y[i - 1]) * (x[i] - x[i - 1]);
    }
    s
}
