//! Everything that decides a simulated run, in a form that can be written to a file

use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum FluidSpec {
    /// The shipped helium model
    Helium,
    /// The shipped hydrogen model
    Hydrogen,
    /// Stub: thermally and calorically perfect gas
    Perfect { r: f64, cp: f64, tref: f64 },
    /// Stub: gas with a second virial coefficient B(T) = b0 - b1/T and cp0(T) = c0 + c1 T
    Virial { r: f64, c0: f64, c1: f64, b0: f64, b1: f64, tref: f64 },
}

impl FluidSpec {
    pub fn is_real(&self) -> bool {
        matches!(self, FluidSpec::Helium | FluidSpec::Hydrogen)
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Kin {
    /// The shipped sinusoidal drive
    Sin { phase: f64, cl_c: f64, sw_c: f64, cl_e: f64, sw_e: f64 },
    /// The shipped rhombic drive
    Rhombic { cl_c: f64, cl_e: f64, ecc: f64, r: f64, l: f64, d_p: f64, d_d: f64 },
    /// Stub drive with a second harmonic
    Harm { phase: f64, cl_c: f64, sw_c: f64, cl_e: f64, sw_e: f64, h2: f64 },
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct WsSpec {
    pub kin: Kin,
    pub freq: f64,
    /// Relative change of speed per relative change of average pressure (stub drive only)
    pub freq_dep: f64,
    /// None means adiabatic
    pub r_c: Option<f64>,
    pub r_e: Option<f64>,
    /// thermal, mechanical, electrical
    pub par_c: [f64; 3],
    pub par_e: [f64; 3],
    /// Relative change of the parasitics with average pressure (stub drive only)
    pub par_dep: f64,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Answer {
    /// The shipped fixed approach model
    Fixed { a: f64 },
    /// The shipped fixed conductance model
    Ua { ua: f64 },
    /// Stub: smooth function of everything in the state
    Smooth { a: f64, ct: f64, cm: f64, cq: f64, cd: f64, ms: f64, qs: f64 },
    /// Stub: answers by consultation, the last one is repeated
    Script { seq: Vec<f64> },
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct HxSpec {
    pub answer: Answer,
    pub initial: Option<f64>,
    pub vol: f64,
    pub r_hyd: f64,
    /// thermal, mechanical, electrical
    pub par: [f64; 3],
    /// How strongly r_hyd and par depend on the state shown (stubs only)
    pub dep: f64,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub struct Tol {
    pub abs: f64,
    pub rel: f64,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum SolverSpec {
    Lu,
    Qr,
    Svd,
    /// Every solve picks one by the parity of a seeded stream; svd with 1 in `svd_in`
    Switch { seed: u64, svd_in: u64 },
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Target {
    Chx,
    Regen,
    Hhx,
    Ws,
    Fluid,
    Solver,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum What {
    Approach,
    Initial,
    Volume,
    RHyd,
    Parasitics,
    Frequency,
    Volumes,
    ThermalRes,
    /// Any fluid property
    AnyProp,
    /// One fluid property
    Prop(u8),
    Solve,
    /// Any callback at all, counted over the whole run
    Event,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum When {
    /// Outer iterations from..to
    Rounds { from: u64, to: u64 },
    /// Calls from..from+len of this callback
    Calls { from: u64, len: u64 },
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum How {
    Add(f64),
    Mul(f64),
    Set(f64),
    Nan,
    Inf,
    NegInf,
    /// Repeat the previous answer
    Stuck,
    /// Alternating +/- offset
    Noise(f64),
    /// Linear solve reports failure
    Fail,
    /// The linear solver is given a system without a solution
    Singular,
    /// The callback never returns: its thread panics
    Crash,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub struct Fault {
    pub target: Target,
    pub what: What,
    pub when: When,
    pub how: How,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct RunSpec {
    pub fluid: FluidSpec,
    pub ws: WsSpec,
    pub chx: HxSpec,
    pub regen: HxSpec,
    pub hhx: HxSpec,
    pub pres_zero: f64,
    pub temp_sink: f64,
    pub temp_source: f64,
    pub resolution: u32,
    pub inner: Tol,
    pub outer: Tol,
    pub ode: Tol,
    pub max_inner: u64,
    pub max_outer: u64,
    pub solver: SolverSpec,
    pub faults: Vec<Fault>,
}

impl HxSpec {
    pub fn is_real(&self) -> bool {
        matches!(self.answer, Answer::Fixed { .. } | Answer::Ua { .. }) && self.dep == 0.0
    }
    pub fn is_script(&self) -> bool {
        matches!(self.answer, Answer::Script { .. })
    }
}

impl RunSpec {
    pub fn hx(&self, which: usize) -> &HxSpec {
        match which {
            0 => &self.chx,
            1 => &self.regen,
            _ => &self.hhx,
        }
    }
    pub fn hx_mut(&mut self, which: usize) -> &mut HxSpec {
        match which {
            0 => &mut self.chx,
            1 => &mut self.regen,
            _ => &mut self.hhx,
        }
    }
}

pub fn fault_kind(f: &Fault) -> String {
    let how = match f.how {
        How::Add(_) | How::Mul(_) | How::Set(_) => "wrong",
        How::Nan => "nan",
        How::Inf | How::NegInf => "infinite",
        How::Stuck => "stuck",
        How::Noise(_) => "noise",
        How::Fail => "error",
        How::Singular => "singular system",
        How::Crash => "crash",
    };
    let what = match f.what {
        What::Approach => "approach",
        What::Initial => "initial_approach",
        What::Volume => "hx_volume",
        What::RHyd => "hydraulic_resistance",
        What::Parasitics => "parasitics",
        What::Frequency => "clock",
        What::Volumes => "piston_volume",
        What::ThermalRes => "thermal_resistance",
        What::AnyProp | What::Prop(_) => "fluid_property",
        What::Solve => "linear_solve",
        What::Event => "any_callback",
    };
    let t = match f.target {
        Target::Chx => "chx.",
        Target::Regen => "regen.",
        Target::Hhx => "hhx.",
        _ => "",
    };
    format!("{t}{what}_{how}")
}
