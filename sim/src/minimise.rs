//! Shrink a failing session while it keeps failing the same way

use std::fs;

use crate::{
    check::{guarded, Replay},
    multi::Plan,
    oracle::Violation,
    session::{Exec, Session},
    spec::*,
};

/// The violation of `e` that is the one recorded
pub fn same<'a>(r: &Replay, e: &'a Exec) -> Option<&'a Violation> {
    e.report.violations.iter().find(|v| v.class == r.class)
}

fn specs(s: &mut Session) -> Vec<&mut RunSpec> {
    match s {
        Session::Single { spec }
        | Session::Witness { spec, .. }
        | Session::Limits { spec, .. }
        | Session::Solvers { spec, .. }
        | Session::Failure { spec } => vec![spec],
        Session::Pair { calm, disturbed } => vec![calm, disturbed],
        Session::Multi { specs, .. } => specs.iter_mut().collect(),
        Session::Doc(_) => vec![],
    }
}

type Edit = (String, Box<dyn Fn(&mut Session)>);

/// All single simplifications of a session
fn edits(s: &Session) -> Vec<Edit> {
    let mut out: Vec<Edit> = Vec::new();
    let mut add = |name: String, f: Box<dyn Fn(&mut Session)>| out.push((name, f));
    match s {
        Session::Multi { specs, plan } => {
            for i in (1..specs.len()).rev() {
                add(
                    format!("run {i}"),
                    Box::new(move |s| {
                        if let Session::Multi { specs, plan } = s {
                            if specs.len() > i {
                                specs.remove(i);
                            }
                            if let Plan::Sequence(o) = plan {
                                o.retain(|x| *x != i);
                                for x in o.iter_mut() {
                                    *x -= usize::from(*x > i);
                                }
                            }
                        }
                    }),
                );
            }
            if let Plan::Sequence(o) = plan {
                for i in 0..o.len() {
                    add(
                        format!("step {i}"),
                        Box::new(move |s| {
                            if let Session::Multi { plan: Plan::Sequence(o), .. } = s {
                                if o.len() > i {
                                    o.remove(i);
                                }
                            }
                        }),
                    );
                }
            }
            if let Plan::Nested { at } = plan {
                for i in 0..at.len() {
                    add(
                        format!("suspension {i}"),
                        Box::new(move |s| {
                            if let Session::Multi { plan: Plan::Nested { at }, .. } = s {
                                if at.len() > i {
                                    at.remove(i);
                                }
                            }
                        }),
                    );
                }
            }
        }
        Session::Witness { rounds, .. } => {
            for i in 0..rounds.len() {
                add(
                    format!("witness {i}"),
                    Box::new(move |s| {
                        if let Session::Witness { rounds, .. } = s {
                            if rounds.len() > i {
                                rounds.remove(i);
                            }
                        }
                    }),
                );
            }
        }
        Session::Doc(_) => return out,
        _ => {}
    }
    let mut copy = s.clone();
    let faults: Vec<usize> = specs(&mut copy).iter().map(|s| s.faults.len()).collect();
    for (k, n) in faults.into_iter().enumerate() {
        for i in (0..n).rev() {
            add(
                format!("fault {i} of run {k}"),
                Box::new(move |s| {
                    if let Some(x) = specs(s).get_mut(k) {
                        if x.faults.len() > i {
                            x.faults.remove(i);
                        }
                    }
                }),
            );
            add(
                format!("length of fault {i} of run {k}"),
                Box::new(move |s| {
                    if let Some(f) = specs(s).get_mut(k).and_then(|x| x.faults.get_mut(i)) {
                        f.when = match f.when {
                            When::Rounds { from, .. } => When::Rounds { from, to: from + 1 },
                            When::Calls { from, .. } => When::Calls { from, len: 1 },
                        };
                    }
                }),
            );
        }
    }
    let mut all = |name: &str, f: fn(&mut RunSpec)| {
        add(
            name.to_string(),
            Box::new(move |s| {
                for x in specs(s) {
                    f(x);
                }
            }),
        );
    };
    all("fluid", |s| s.fluid = FluidSpec::Perfect { r: 2077.0, cp: 5193.0, tref: 0.0 });
    all("helium", |s| {
        if !s.fluid.is_real() {
            s.fluid = FluidSpec::Helium;
        }
    });
    all("solver", |s| s.solver = SolverSpec::Lu);
    all("compression insulation", |s| s.ws.r_c = None);
    all("expansion insulation", |s| s.ws.r_e = None);
    all("compression parasitics", |s| s.ws.par_c = [0.0; 3]);
    all("expansion parasitics", |s| s.ws.par_e = [0.0; 3]);
    all("speed", |s| s.ws.freq_dep = 0.0);
    all("losses", |s| s.ws.par_dep = 0.0);
    all("resolution 2", |s| s.resolution = 2);
    all("resolution", |s| s.resolution = s.resolution.min(10));
    all("resolution 200", |s| s.resolution = s.resolution.min(200));
    all("chx dependence", |s| s.chx.dep = 0.0);
    all("regen dependence", |s| s.regen.dep = 0.0);
    all("hhx dependence", |s| s.hhx.dep = 0.0);
    all("chx parasitics", |s| s.chx.par = [0.0; 3]);
    all("regen parasitics", |s| s.regen.par = [0.0; 3]);
    all("hhx parasitics", |s| s.hhx.par = [0.0; 3]);
    all("chx pressure drop", |s| s.chx.r_hyd = 0.0);
    all("regen pressure drop", |s| s.regen.r_hyd = 0.0);
    all("hhx pressure drop", |s| s.hhx.r_hyd = 0.0);
    all("chx", |s| s.chx.answer = Answer::Fixed { a: 40.0 });
    all("regen", |s| s.regen.answer = Answer::Fixed { a: 10.0 });
    all("hhx", |s| s.hhx.answer = Answer::Fixed { a: 50.0 });
    all("chx start", |s| s.chx.initial = None);
    all("regen start", |s| s.regen.initial = None);
    all("hhx start", |s| s.hhx.initial = None);
    all("inner limit", |s| s.max_inner = 500);
    all("outer limit", |s| s.max_outer = 60);
    all("sink", |s| s.temp_sink = 300.0);
    all("source", |s| s.temp_source = 900.0);
    all("pressure", |s| s.pres_zero = 1e6);
    all("frequency", |s| s.ws.freq = 50.0);
    out
}

pub fn minimise(from: &str, to: &str) -> i32 {
    let Some(mut r) = fs::read_to_string(from).ok().and_then(|t| serde_json::from_str::<Replay>(&t).ok()) else {
        return 2;
    };
    let fails = |r: &Replay, s: &Session| -> Option<(String, u64)> {
        let e = guarded(&r.property, s);
        same(r, &e).map(|v| (v.detail.clone(), e.hash))
    };
    // with a prelude only the prelude can be shortened, and that was done
    if !r.prelude.is_empty() {
        return 0;
    }
    loop {
        let mut progress = false;
        for (_, edit) in edits(&r.session) {
            let mut s = r.session.clone();
            edit(&mut s);
            let text = |s: &Session| serde_json::to_string(s).unwrap_or_default();
            if text(&s) == text(&r.session) {
                continue;
            }
            if let Some((detail, hash)) = fails(&r, &s) {
                r.session = s;
                r.detail = detail;
                r.hash = hash;
                r.minimised = true;
                progress = true;
                if fs::write(to, serde_json::to_string_pretty(&r).unwrap_or_default()).is_err() {
                    return 2;
                }
            }
        }
        if !progress {
            break;
        }
    }
    0
}
