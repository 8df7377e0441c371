//! Stored engine descriptions on a simulated disk

#![allow(non_snake_case)]

use std::{
    collections::BTreeMap,
    panic::{catch_unwind, AssertUnwindSafe},
};

use serde::{Deserialize, Serialize};
use sett_rs::{
    api::{run_engine, RunResults},
    chx,
    fluid::IdealGas,
    hhx, regen,
    types::{ParasiticPower, RunError},
    Components, Config, Engine, Legacy, LuSolver,
};

use crate::{
    comps::{resistance, stub_ws},
    rng::*,
    session::{distance, Exec},
    spec::*,
    world::{inputs, panic_outcome, settings, Outcome, Rec, Res},
};

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Format {
    Toml,
    Json,
    Yaml,
    /// JSON straight through the strict deserialiser
    Strict,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct DocSession {
    pub format: Format,
    pub legacy: bool,
    /// What was on its way to the disk
    pub intended: Doc,
    /// What is on the disk
    pub text: String,
    pub damage: String,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct HxDoc {
    /// approach or conductance
    pub ua: bool,
    pub x: f64,
    pub vol: f64,
    pub r_hyd: f64,
    pub w: f64,
    pub q: f64,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Doc {
    pub helium: bool,
    pub chx: HxDoc,
    pub regen: HxDoc,
    pub hhx: HxDoc,
    pub ws: WsDoc,
    pub inner: (f64, f64, u32),
    pub outer: (f64, f64, u32),
    pub ode: (f64, f64, u32),
    pub sink: f64,
    pub source: f64,
    pub p0: f64,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct WsDoc {
    pub freq: f64,
    pub cl_c: f64,
    pub cl_e: f64,
    /// None is infinite
    pub r_c: Option<f64>,
    pub r_e: Option<f64>,
    pub w_c: f64,
    pub w_e: f64,
    pub q_e: f64,
    pub kind: KinDoc,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum KinDoc {
    Sin { phase: f64, sw_c: f64, sw_e: f64 },
    Rhombic { ecc: f64, r: f64, l: f64, d_p: f64, d_d: f64 },
}

// ------------------------------------------------------------------ generic documents

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Null,
    Bool(bool),
    Int(i64),
    Num(f64),
    Str(String),
    List(Vec<Val>),
    Map(Vec<(String, Val)>),
}

fn map(items: Vec<(&str, Val)>) -> Val {
    Val::Map(items.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

fn num(x: f64) -> Val {
    Val::Num(x)
}

fn hx_val(h: &HxDoc, which: usize) -> Val {
    let mut v = vec![("vol", num(h.vol)), (if h.ua { "UA" } else { "DT" }, num(h.x)), ("R_hyd", num(h.r_hyd))];
    if which != 1 {
        v.push(("W_parasitic", num(h.w)));
    }
    if which != 0 {
        v.push(("Q_parasitic", num(h.q)));
    }
    map(v)
}

fn ws_val(w: &WsDoc) -> Val {
    let inf = |r: Option<f64>| num(resistance(r));
    let mut v = vec![
        ("frequency", num(w.freq)),
        ("V_clearance_c", num(w.cl_c)),
        ("R_c", inf(w.r_c)),
        ("W_parasitic_c", num(w.w_c)),
        ("V_clearance_e", num(w.cl_e)),
        ("R_e", inf(w.r_e)),
        ("W_parasitic_e", num(w.w_e)),
        ("Q_parasitic_e", num(w.q_e)),
    ];
    match &w.kind {
        KinDoc::Sin { phase, sw_c, sw_e } => {
            v.extend([("phase_angle", num(*phase)), ("V_swept_c", num(*sw_c)), ("V_swept_e", num(*sw_e))]);
        }
        KinDoc::Rhombic { ecc, r, l, d_p, d_d } => v.extend([
            ("eccentricity", num(*ecc)),
            ("r_crank", num(*r)),
            ("L_conn", num(*l)),
            ("D_p", num(*d_p)),
            ("D_d", num(*d_d)),
        ]),
    }
    map(v)
}

fn tol_val(t: (f64, f64, u32)) -> Val {
    map(vec![("abs", num(t.0)), ("rel", num(t.1))])
}

pub fn tree(d: &Doc, legacy: bool) -> Val {
    let kind = |ua: bool, legacy: bool| match (ua, legacy) {
        (false, false) => "fixed_approach",
        (true, false) => "fixed_conductance",
        (false, true) => "FixedApproach",
        (true, true) => "FixedConductance",
    };
    let sin = matches!(d.ws.kind, KinDoc::Sin { .. });
    if legacy {
        let part = |model: &str, params: Val| map(vec![("model", Val::Str(model.into())), ("params", params)]);
        let name = if d.helium { "Helium" } else { "Hydrogen" };
        map(vec![
            ("fluid", part("IdealGas", map(vec![("name", Val::Str(name.into()))]))),
            ("ws", part(if sin { "Sinusoidal" } else { "Rhombic" }, ws_val(&d.ws))),
            ("chx", part(kind(d.chx.ua, true), hx_val(&d.chx, 0))),
            ("regen", part(kind(d.regen.ua, true), hx_val(&d.regen, 1))),
            ("hhx", part(kind(d.hhx.ua, true), hx_val(&d.hhx, 2))),
            (
                "solver",
                map(vec![
                    ("innerLoopTolerance", tol_val(d.inner)),
                    ("outerLoopTolerance", tol_val(d.outer)),
                    ("odeTolerance", tol_val(d.ode)),
                    ("odeSolver", Val::Str("ode45".into())),
                    ("timeResolution", Val::Int(i64::from(d.ode.2))),
                ]),
            ),
            ("conditions", map(vec![("T_cold", num(d.sink)), ("T_hot", num(d.source)), ("P_0", num(d.p0))])),
        ])
    } else {
        let one = |k: &str, v: Val| map(vec![(k, v)]);
        map(vec![
            (
                "engine",
                map(vec![
                    (
                        "fluid",
                        one(
                            if d.helium { "helium" } else { "hydrogen" },
                            map(vec![("model", Val::Str("ideal_gas".into()))]),
                        ),
                    ),
                    (
                        "components",
                        map(vec![
                            ("chx", one(kind(d.chx.ua, false), hx_val(&d.chx, 0))),
                            ("hhx", one(kind(d.hhx.ua, false), hx_val(&d.hhx, 2))),
                            ("regen", one(kind(d.regen.ua, false), hx_val(&d.regen, 1))),
                            ("ws", one(if sin { "sinusoidal" } else { "rhombic" }, ws_val(&d.ws))),
                        ]),
                    ),
                ]),
            ),
            (
                "solver",
                map(vec![
                    (
                        "inner_loop",
                        map(vec![("tolerance", tol_val(d.inner)), ("max_iterations", Val::Int(i64::from(d.inner.2)))]),
                    ),
                    (
                        "outer_loop",
                        map(vec![("tolerance", tol_val(d.outer)), ("max_iterations", Val::Int(i64::from(d.outer.2)))]),
                    ),
                    (
                        "ode",
                        map(vec![("tolerance", tol_val(d.ode)), ("num_timesteps", Val::Int(i64::from(d.ode.2)))]),
                    ),
                ]),
            ),
            (
                "conditions",
                map(vec![("temp_sink", num(d.sink)), ("temp_source", num(d.source)), ("pres_zero", num(d.p0))]),
            ),
        ])
    }
}

// ------------------------------------------------------------------ writing

fn show_num(x: f64, f: Format, g: &mut Rng) -> String {
    if x.is_infinite() {
        return match f {
            Format::Toml => "inf".into(),
            // the reader doesn't know YAML's own word for it
            Format::Yaml | Format::Json => if g.p(0.5) { "\"inf\"".into() } else { "1e300".into() },
            Format::Strict => "1e300".into(),
        };
    }
    if x == x.trunc() && x.abs() < 1e15 {
        return if g.p(0.5) { format!("{}", x as i64) } else { format!("{x:.1}") };
    }
    if g.p(0.5) {
        format!("{x:e}")
    } else {
        format!("{x:?}")
    }
}

fn shuffle<T>(v: &mut [T], g: &mut Rng) {
    for i in (1..v.len()).rev() {
        v.swap(i, g.below(i as u64 + 1) as usize);
    }
}

fn show_scalar(v: &Val, f: Format, g: &mut Rng) -> String {
    match v {
        Val::Null => if f == Format::Toml { "\"\"".into() } else { "null".into() },
        Val::Bool(b) => b.to_string(),
        Val::Int(i) => i.to_string(),
        Val::Num(x) => show_num(*x, f, g),
        Val::Str(s) => format!("\"{s}\""),
        Val::List(l) => {
            let items: Vec<String> = l.iter().map(|x| show_scalar(x, f, g)).collect();
            format!("[{}]", items.join(", "))
        }
        Val::Map(m) => {
            let items: Vec<String> = m
                .iter()
                .map(|(k, x)| {
                    let x = show_scalar(x, f, g);
                    if f == Format::Toml { format!("{k} = {x}") } else { format!("\"{k}\": {x}") }
                })
                .collect();
            format!("{{{}}}", items.join(", "))
        }
    }
}

fn write_json(v: &Val, f: Format, depth: usize, g: &mut Rng, out: &mut String) {
    match v {
        Val::Map(m) => {
            let mut m: Vec<_> = m.iter().collect();
            shuffle(&mut m, g);
            out.push_str("{\n");
            for (i, (k, x)) in m.iter().enumerate() {
                out.push_str(&"  ".repeat(depth + 1));
                out.push_str(&format!("\"{k}\": "));
                write_json(x, f, depth + 1, g, out);
                out.push_str(if i + 1 < m.len() { ",\n" } else { "\n" });
            }
            out.push_str(&"  ".repeat(depth));
            out.push('}');
        }
        _ => out.push_str(&show_scalar(v, f, g)),
    }
}

fn write_yaml(v: &Val, depth: usize, g: &mut Rng, out: &mut String) {
    if let Val::Map(m) = v {
        let mut m: Vec<_> = m.iter().collect();
        shuffle(&mut m, g);
        for (k, x) in m {
            out.push_str(&"  ".repeat(depth));
            match x {
                Val::Map(inner) if !inner.is_empty() => {
                    out.push_str(&format!("{k}:\n"));
                    write_yaml(x, depth + 1, g, out);
                }
                _ => out.push_str(&format!("{k}: {}\n", show_scalar(x, Format::Yaml, g))),
            }
        }
    }
}

fn write_toml(v: &Val, path: &str, g: &mut Rng, out: &mut String) {
    if let Val::Map(m) = v {
        let mut m: Vec<_> = m.iter().collect();
        shuffle(&mut m, g);
        let mut later = Vec::new();
        let mut lines = String::new();
        for (k, x) in m {
            match x {
                Val::Map(inner) => {
                    let flat = inner.iter().all(|(_, v)| !matches!(v, Val::Map(_)));
                    if flat && !path.is_empty() && g.p(0.4) {
                        lines.push_str(&format!("{k} = {}\n", show_scalar(x, Format::Toml, g)));
                    } else {
                        later.push((k, x));
                    }
                }
                _ => lines.push_str(&format!("{k} = {}\n", show_scalar(x, Format::Toml, g))),
            }
        }
        if !path.is_empty() && (!lines.is_empty() || later.is_empty()) {
            out.push_str(&format!("\n[{path}]\n"));
        }
        out.push_str(&lines);
        for (k, x) in later {
            let p = if path.is_empty() { k.clone() } else { format!("{path}.{k}") };
            write_toml(x, &p, g, out);
        }
    }
}

pub fn write(v: &Val, f: Format, g: &mut Rng) -> String {
    let mut out = String::new();
    match f {
        Format::Toml => write_toml(v, "", g, &mut out),
        Format::Yaml => write_yaml(v, 0, g, &mut out),
        _ => write_json(v, f, 0, g, &mut out),
    }
    out
}

// ------------------------------------------------------------------ reading (reference)

fn from_json(v: serde_json::Value) -> Val {
    use serde_json::Value as J;
    match v {
        J::Null => Val::Null,
        J::Bool(b) => Val::Bool(b),
        J::Number(n) => match n.as_i64() {
            Some(i) => Val::Int(i),
            None => Val::Num(n.as_f64().unwrap_or(f64::NAN)),
        },
        J::String(s) => Val::Str(s),
        J::Array(a) => Val::List(a.into_iter().map(from_json).collect()),
        J::Object(m) => Val::Map(m.into_iter().map(|(k, v)| (k, from_json(v))).collect()),
    }
}

fn from_toml(v: toml::Value) -> Val {
    use toml::Value as T;
    match v {
        T::String(s) => Val::Str(s),
        T::Integer(i) => Val::Int(i),
        T::Float(x) => Val::Num(x),
        T::Boolean(b) => Val::Bool(b),
        T::Datetime(d) => Val::Str(d.to_string()),
        T::Array(a) => Val::List(a.into_iter().map(from_toml).collect()),
        T::Table(t) => Val::Map(t.into_iter().map(|(k, v)| (k, from_toml(v))).collect()),
    }
}

fn from_yaml(v: &yaml_rust::Yaml) -> Option<Val> {
    use yaml_rust::Yaml as Y;
    Some(match v {
        Y::Real(s) => match s.parse() {
            Ok(x) => Val::Num(x),
            // words like .inf that the reader takes for text
            Err(_) => Val::Str(s.clone()),
        },
        Y::Integer(i) => Val::Int(*i),
        Y::String(s) => Val::Str(s.clone()),
        Y::Boolean(b) => Val::Bool(*b),
        Y::Array(a) => Val::List(a.iter().map(from_yaml).collect::<Option<_>>()?),
        Y::Hash(h) => {
            let mut m = BTreeMap::new();
            for (k, v) in h {
                m.insert(k.as_str()?.to_string(), from_yaml(v)?);
            }
            Val::Map(m.into_iter().collect())
        }
        Y::Null => Val::Null,
        _ => return None,
    })
}

/// The document as any reader of that notation sees it
fn generic(text: &str, f: Format) -> Option<Val> {
    match f {
        Format::Toml => text.parse::<toml::Value>().ok().map(from_toml),
        Format::Yaml => {
            let docs = yaml_rust::YamlLoader::load_from_str(text).ok()?;
            if docs.len() == 1 {
                from_yaml(&docs[0])
            } else {
                None
            }
        }
        _ => serde_json::from_str(text).ok().map(from_json),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum No {
    /// must be refused
    Refuse,
    /// readers of this notation may convert or ignore: no expectation
    Unsure,
}

type Yes<T> = Result<T, No>;

struct Reader {
    strict: bool,
}

impl Reader {
    /// All parts are read before deciding: refusal of any part outweighs doubt about another
    fn get<'a>(&self, m: &'a Val, key: &str) -> Yes<&'a Val> {
        let Val::Map(m) = m else {
            return Err(No::Refuse);
        };
        if let Some((_, v)) = m.iter().find(|(k, _)| k == key) {
            return Ok(v);
        }
        if !self.strict && m.iter().any(|(k, _)| k.eq_ignore_ascii_case(key)) {
            return Err(No::Unsure);
        }
        Err(No::Refuse)
    }
    fn num(&self, m: &Val, key: &str) -> Yes<f64> {
        match self.get(m, key)? {
            Val::Int(i) => Ok(*i as f64),
            Val::Num(x) => Ok(*x),
            Val::Bool(_) if !self.strict => Err(No::Unsure),
            Val::Str(s) if !self.strict => {
                let t = s.trim().to_lowercase();
                // "inf" is how infinity is written where numbers can't say it
                if s == "inf" && (key == "R_c" || key == "R_e") {
                    return Ok(f64::INFINITY);
                }
                if t.parse::<f64>().is_ok() || ["true", "false", "yes", "no", "on", "off"].contains(&t.as_str()) {
                    return Err(No::Unsure);
                }
                Err(No::Refuse)
            }
            Val::Str(s) if (key == "R_c" || key == "R_e") && s.parse::<f64>().is_ok() => Err(No::Unsure),
            _ => Err(No::Refuse),
        }
    }
    fn count(&self, m: &Val, key: &str) -> Yes<u32> {
        match self.get(m, key)? {
            Val::Int(i) => u32::try_from(*i).map_err(|_| if self.strict { No::Refuse } else { No::Unsure }),
            Val::Num(_) | Val::Bool(_) if !self.strict => Err(No::Unsure),
            Val::Str(s) if !self.strict => {
                let t = s.trim().to_lowercase();
                if t.parse::<f64>().is_ok() || ["true", "false", "yes", "no", "on", "off"].contains(&t.as_str()) {
                    return Err(No::Unsure);
                }
                Err(No::Refuse)
            }
            _ => Err(No::Refuse),
        }
    }
    fn word<'a>(&self, m: &'a Val, key: &str, known: &[&'static str]) -> Yes<&'static str> {
        match self.get(m, key)? {
            Val::Str(s) => {
                if let Some(k) = known.iter().find(|k| *k == s) {
                    return Ok(k);
                }
                if !self.strict && known.iter().any(|k| k.eq_ignore_ascii_case(s)) {
                    return Err(No::Unsure);
                }
                Err(No::Refuse)
            }
            // a tagged part may also be written as a map with the tag as its only key
            Val::Map(_) => Err(No::Unsure),
            Val::Null => Err(No::Refuse),
            _ => Err(No::Refuse),
        }
    }
    /// A part that is one of several variants, written as a map from the name to its fields
    fn variant<'a>(&self, m: &'a Val, known: &[&'static str], other: &[&str]) -> Yes<(&'static str, &'a Val)> {
        let Val::Map(items) = m else {
            return Err(No::Refuse);
        };
        let near = |k: &str| known.iter().chain(other).any(|x| x.eq_ignore_ascii_case(k));
        if items.len() != 1 {
            return Err(if self.strict || items.is_empty() || !items.iter().any(|(k, _)| near(k)) { No::Refuse } else { No::Unsure });
        }
        let (k, v) = &items[0];
        if let Some(x) = known.iter().find(|x| *x == k) {
            return Ok((x, v));
        }
        Err(if near(k) { No::Unsure } else { No::Refuse })
    }
    fn hx(&self, v: &Val, ua: bool, which: usize) -> Yes<HxDoc> {
        both(vec![
            self.num(v, "vol"),
            self.num(v, if ua { "UA" } else { "DT" }),
            self.num(v, "R_hyd"),
            if which == 1 { Ok(0.0) } else { self.num(v, "W_parasitic") },
            if which == 0 { Ok(0.0) } else { self.num(v, "Q_parasitic") },
        ])
        .map(|n| HxDoc { ua, vol: n[0], x: n[1], r_hyd: n[2], w: n[3], q: n[4] })
    }
    fn ws(&self, v: &Val, sin: bool) -> Yes<WsDoc> {
        let mut keys = vec![
            "frequency", "V_clearance_c", "V_clearance_e", "R_c", "R_e", "W_parasitic_c", "W_parasitic_e", "Q_parasitic_e",
        ];
        if sin {
            keys.extend(["phase_angle", "V_swept_c", "V_swept_e"]);
        } else {
            keys.extend(["eccentricity", "r_crank", "L_conn", "D_p", "D_d"]);
        }
        let n = both(keys.iter().map(|k| self.num(v, k)).collect())?;
        let r = |x: f64| if x == f64::INFINITY { None } else { Some(x) };
        Ok(WsDoc {
            freq: n[0],
            cl_c: n[1],
            cl_e: n[2],
            r_c: r(n[3]),
            r_e: r(n[4]),
            w_c: n[5],
            w_e: n[6],
            q_e: n[7],
            kind: if sin {
                KinDoc::Sin { phase: n[8], sw_c: n[9], sw_e: n[10] }
            } else {
                KinDoc::Rhombic { ecc: n[8], r: n[9], l: n[10], d_p: n[11], d_d: n[12] }
            },
        })
    }
    fn tol(&self, m: Yes<&Val>, n: Yes<u32>) -> Yes<(f64, f64, u32)> {
        let t = m.and_then(|m| both(vec![self.num(m, "abs"), self.num(m, "rel")]));
        match (t, n) {
            (Ok(t), Ok(n)) => Ok((t[0], t[1], n)),
            (Err(No::Refuse), _) | (_, Err(No::Refuse)) => Err(No::Refuse),
            _ => Err(No::Unsure),
        }
    }
    fn hx_part(&self, m: &Val, key: &str, which: usize, legacy: bool) -> Yes<HxDoc> {
        let part = self.get(m, key)?;
        if legacy {
            let kind = self.word(part, "model", &["FixedApproach", "FixedConductance"]);
            let kind = self.other_model(part, kind)?;
            self.hx(self.get(part, "params")?, kind == "FixedConductance", which)
        } else {
            let (kind, v) =
                self.variant(part, &["fixed_approach", "fixed_conductance"], &["gpu3", "mod2", "g_p_u3", "mod2_n_i", "gpu3_ni", "mod2_ni", "g_p_u3_n_i", "gpu3_n_i"])?;
            self.hx(v, kind == "fixed_conductance", which)
        }
    }
    /// Other models exist but can't be run
    fn other_model<'a>(&self, part: &Val, kind: Yes<&'a str>) -> Yes<&'a str> {
        if kind == Err(No::Refuse) {
            if let Ok(Val::Str(s)) = self.get(part, "model") {
                if ["GPU3", "Mod2", "GPU3NI", "Mod2NI", "Hydrogen", "RealGasRefprop"].iter().any(|x| x.eq_ignore_ascii_case(s)) {
                    return Err(No::Unsure);
                }
            }
        }
        kind
    }
    fn ws_part(&self, m: &Val, legacy: bool) -> Yes<WsDoc> {
        let part = self.get(m, "ws")?;
        if legacy {
            let kind = self.word(part, "model", &["Sinusoidal", "Rhombic"]);
            let kind = self.other_model(part, kind)?;
            self.ws(self.get(part, "params")?, kind == "Sinusoidal")
        } else {
            let (kind, v) = self.variant(part, &["sinusoidal", "rhombic"], &["gpu3", "mod2", "g_p_u3"])?;
            self.ws(v, kind == "sinusoidal")
        }
    }
    fn doc(&self, v: &Val, legacy: bool) -> Yes<Doc> {
        let conditions = self.get(v, "conditions");
        let solver = self.get(v, "solver");
        let cond = |k: &str| conditions.and_then(|c| self.num(c, k));
        let sub = |k: &str| solver.and_then(|s| self.get(s, k));
        let (helium, parts, inner, outer, ode, cond);
        let cond_keys = if legacy { ["T_cold", "T_hot", "P_0"] } else { ["temp_sink", "temp_source", "pres_zero"] };
        cond = both(cond_keys.iter().map(|k| conditions.and_then(|c| self.num(c, k))).collect());
        let _ = &cond;
        if legacy {
            helium = self.get(v, "fluid").and_then(|f| {
                let kind = self.word(f, "model", &["IdealGas"]);
                self.other_model(f, kind)?;
                let p = self.get(f, "params")?;
                self.word(p, "name", &["Helium", "Hydrogen"]).map(|n| n == "Helium")
            });
            parts = v.clone();
            inner = self.tol(sub("innerLoopTolerance"), Ok(20));
            outer = self.tol(sub("outerLoopTolerance"), Ok(20));
            let n = solver.and_then(|s| self.count(s, "timeResolution"));
            let n = match solver.and_then(|s| self.word(s, "odeSolver", &["ode45"])) {
                Ok(_) => n,
                Err(No::Refuse) => Err(No::Refuse),
                Err(No::Unsure) => n.and(Err(No::Unsure)),
            };
            ode = self.tol(sub("odeTolerance"), n);
        } else {
            let engine = self.get(v, "engine");
            helium = engine.and_then(|e| self.get(e, "fluid")).and_then(|f| {
                let (kind, m) = self.variant(f, &["helium", "hydrogen"], &[])?;
                match self.word(m, "model", &["ideal_gas"]) {
                    Ok(_) => Ok(kind == "helium"),
                    Err(No::Refuse) => match self.get(m, "model") {
                        Ok(Val::Str(s)) if ["custom", "fit", "ref_prop"].iter().any(|x| x.eq_ignore_ascii_case(s)) => Err(No::Unsure),
                        _ => Err(No::Refuse),
                    },
                    Err(e) => Err(e),
                }
            });
            parts = engine.and_then(|e| self.get(e, "components")).cloned().unwrap_or(Val::Null);
            if parts == Val::Null {
                if let Err(No::Unsure) = engine.and_then(|e| self.get(e, "components")) {
                    return Err(No::Unsure);
                }
            }
            let looped = |k: &str, n: &str| self.tol(sub(k).and_then(|l| self.get(l, "tolerance")), sub(k).and_then(|l| self.count(l, n)));
            inner = looped("inner_loop", "max_iterations");
            outer = looped("outer_loop", "max_iterations");
            ode = looped("ode", "num_timesteps");
        }
        let hx = [
            self.hx_part(&parts, "chx", 0, legacy),
            self.hx_part(&parts, "regen", 1, legacy),
            self.hx_part(&parts, "hhx", 2, legacy),
        ];
        let ws = self.ws_part(&parts, legacy);
        let errs: Vec<No> = [
            helium.as_ref().err(),
            hx[0].as_ref().err(),
            hx[1].as_ref().err(),
            hx[2].as_ref().err(),
            ws.as_ref().err(),
            inner.as_ref().err(),
            outer.as_ref().err(),
            ode.as_ref().err(),
            cond.as_ref().err(),
        ]
        .into_iter()
        .flatten()
        .copied()
        .collect();
        if errs.contains(&No::Refuse) {
            return Err(No::Refuse);
        }
        if !errs.is_empty() {
            return Err(No::Unsure);
        }
        let [chx, regen, hhx] = hx;
        let c = cond?;
        Ok(Doc {
            helium: helium?,
            chx: chx?,
            regen: regen?,
            hhx: hhx?,
            ws: ws?,
            inner: inner?,
            outer: outer?,
            ode: ode?,
            sink: c[0],
            source: c[1],
            p0: c[2],
        })
    }
}

fn both(v: Vec<Yes<f64>>) -> Yes<Vec<f64>> {
    if v.iter().any(|x| *x == Err(No::Refuse)) {
        return Err(No::Refuse);
    }
    v.into_iter().collect()
}

// ------------------------------------------------------------------ generation

fn gen_doc(g: &mut Rng) -> Doc {
    let swept = g.log(2e-5, 1e-3);
    let freq = g.range(10.0, 80.0);
    let p0 = g.log(5e5, 1.2e7);
    let sink = g.range(280.0, 330.0);
    let source = sink + g.range(250.0, 600.0);
    let dt = source - sink;
    let helium = g.p(0.5);
    let sc = crate::gen::scale_of(
        if helium { &FluidSpec::Helium } else { &FluidSpec::Hydrogen },
        swept,
        freq,
        p0,
        0.5 * (sink + source),
    );
    let mut hx = |which: usize, g: &mut Rng| {
        let ua = g.p(0.5);
        let cap = sc.cp * sc.m;
        let x = match (ua, which) {
            (false, 1) => g.range(2.0, 0.08 * dt),
            (false, _) => g.range(0.0, 0.15 * dt),
            (true, 1) => cap * g.log(20.0, 300.0),
            (true, _) => cap * g.log(1.0, 20.0),
        };
        HxDoc {
            ua,
            x,
            vol: swept * g.log(0.1, 2.0),
            r_hyd: if g.p(0.3) { 0.0 } else { p0 / sc.flow * g.log(1e-4, 3e-2) },
            w: if which == 1 || g.p(0.3) { 0.0 } else { sc.power * g.log(1e-4, 3e-2) },
            q: if which == 0 || g.p(0.3) { 0.0 } else { sc.power * g.log(1e-4, 3e-2) },
        }
    };
    let (chx, regen, hhx) = (hx(0, g), hx(1, g), hx(2, g));
    let res = |g: &mut Rng| if g.p(0.5) { None } else { Some(60.0 / (sc.power * g.log(3e-3, 0.2))) };
    let kind = match crate::gen::kin(g, swept) {
        Kin::Rhombic { ecc, r, l, d_p, d_d, .. } => KinDoc::Rhombic { ecc, r, l, d_p, d_d },
        Kin::Sin { phase, sw_c, sw_e, .. } | Kin::Harm { phase, sw_c, sw_e, .. } => KinDoc::Sin { phase, sw_c, sw_e },
    };
    let tol = |g: &mut Rng, lo: f64, hi: f64| {
        let a = g.log(lo, hi);
        (a, a / 400.0 * g.log(0.1, 10.0))
    };
    let (ia, ir) = tol(g, 1e-3, 5.0);
    let (oa, or) = tol(g, 1e-4, 1.0);
    let (da, dr) = tol(g, 1e-5, 1e-3);
    Doc {
        helium,
        chx,
        regen,
        hhx,
        ws: WsDoc {
            freq,
            cl_c: swept * g.log(0.05, 0.5),
            cl_e: swept * g.log(0.05, 0.5),
            r_c: res(g),
            r_e: res(g),
            w_c: if g.p(0.3) { 0.0 } else { sc.power * g.log(1e-4, 2e-2) },
            w_e: if g.p(0.3) { 0.0 } else { sc.power * g.log(1e-4, 2e-2) },
            q_e: if g.p(0.3) { 0.0 } else { sc.power * g.log(1e-4, 2e-2) },
            kind,
        },
        inner: (ia, ir, g.logint(10, 300) as u32),
        outer: (oa, or, g.logint(3, 60) as u32),
        ode: (da, dr, g.logint(2, 120) as u32),
        sink,
        source,
        p0,
    }
}

/// Paths of all entries of a document
fn paths(v: &Val, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    if let Val::Map(m) = v {
        for (k, x) in m {
            at.push(k.clone());
            out.push(at.clone());
            paths(x, at, out);
            at.pop();
        }
    }
}

fn edit(v: &mut Val, path: &[String], f: &mut dyn FnMut(&mut Vec<(String, Val)>, usize)) {
    if let Val::Map(m) = v {
        if let Some(i) = m.iter().position(|(k, _)| *k == path[0]) {
            if path.len() == 1 {
                f(m, i);
            } else {
                edit(&mut m[i].1, &path[1..], f);
            }
        }
    }
}

/// A disk that writes sectors and can lose power at any of them
struct Disk {
    sector: usize,
    data: Vec<u8>,
}

impl Disk {
    /// Overwrite the file with `new`; `kept` says which of the sector writes became durable
    fn write(&mut self, new: &[u8], kept: &dyn Fn(usize) -> bool, cut: bool) {
        let n = new.len().div_ceil(self.sector);
        let mut data = self.data.clone();
        for i in 0..n {
            let (a, b) = (i * self.sector, ((i + 1) * self.sector).min(new.len()));
            if kept(i) {
                if data.len() < b {
                    data.resize(b, 0);
                }
                data[a..b].copy_from_slice(&new[a..b]);
            }
        }
        if cut {
            data.truncate(new.len());
        }
        self.data = data;
    }
}

pub fn generate(g: &mut Rng) -> DocSession {
    let intended = gen_doc(g);
    let legacy = g.p(0.4);
    let format = *g.pick(&[Format::Toml, Format::Toml, Format::Json, Format::Yaml, Format::Strict]);
    let v = tree(&intended, legacy);
    let style = g.next();
    let clean = write(&v, format, &mut Rng::new(style));
    let mut all = Vec::new();
    paths(&v, &mut Vec::new(), &mut all);
    let is_section = |p: &[String]| {
        let mut cur = &v;
        for k in p {
            if let Val::Map(m) = cur {
                cur = &m.iter().find(|(x, _)| x == k).unwrap().1;
            }
        }
        matches!(cur, Val::Map(_))
    };
    let (text, damage): (String, &str) = match g.below(20) {
        0..=6 => (clean, "none"),
        7..=10 => {
            // the machine dies while the description is saved
            let sector = *g.pick(&[1, 4, 16, 32, 64, 128, 512]);
            let old = match g.below(4) {
                0 => Vec::new(),
                1 => vec![0; clean.len()],
                2 => {
                    let d = gen_doc(g);
                    write(&tree(&d, legacy), format, &mut Rng::new(style)).into_bytes()
                }
                _ => {
                    let mut d = intended.clone();
                    d.p0 *= 1.5;
                    d.ode.2 += 3;
                    d.chx.x *= 1.25;
                    write(&tree(&d, legacy), format, &mut Rng::new(style)).into_bytes()
                }
            };
            let new = clean.as_bytes();
            let n = new.len().div_ceil(sector);
            let stop = if g.p(0.3) { n.saturating_sub(g.below(4) as usize) } else { g.below(n as u64 + 1) as usize };
            let salt = g.next();
            let lossy = g.p(0.3);
            let mut disk = Disk { sector, data: old };
            disk.write(new, &|i| if lossy { mix2(salt, i as u64) % 8 != 0 } else { i < stop }, g.p(0.5));
            (String::from_utf8_lossy(&disk.data).into_owned(), if lossy { "lost sectors" } else { "torn write" })
        }
        11..=13 => {
            let p = g.pick(&all).clone();
            let mut w = v.clone();
            edit(&mut w, &p, &mut |m, i| {
                m.remove(i);
            });
            (write(&w, format, &mut Rng::new(style)), if is_section(&p) { "lost section" } else { "lost field" })
        }
        14 | 15 => {
            let p = g.pick(&all).clone();
            let bad = match g.below(6) {
                0 => Val::Str("none".into()),
                1 => Val::List(vec![Val::Num(1.5)]),
                2 => Val::Map(vec![("value".into(), Val::Num(1.5))]),
                3 => Val::Null,
                4 => Val::Str("12 K".into()),
                _ => Val::Bool(true),
            };
            let mut w = v.clone();
            edit(&mut w, &p, &mut |m, i| m[i].1 = bad.clone());
            (write(&w, format, &mut Rng::new(style)), "wrong kind")
        }
        16 => {
            let p = g.pick(&all).clone();
            let mut w = v.clone();
            let salt = g.next();
            edit(&mut w, &p, &mut |m, i| {
                let k = &m[i].0;
                m[i].0 = match salt % 3 {
                    0 => format!("{k}_"),
                    1 => format!("x{k}"),
                    _ => k[..k.len() - 1].to_string() + "q",
                };
            });
            (write(&w, format, &mut Rng::new(style)), "misspelled field")
        }
        17 => {
            // fields of one variant under the name of another
            let other = gen_doc(g);
            let w2 = tree(&other, legacy);
            let key = *g.pick(&["chx", "regen", "hhx", "ws"]);
            let mut w = v.clone();
            let path: Vec<String> = if legacy { vec![key.into()] } else { vec!["engine".into(), "components".into(), key.into()] };
            let mut theirs = Val::Null;
            let mut w2c = w2;
            edit(&mut w2c, &path, &mut |m, i| theirs = m[i].1.clone());
            let merge = g.p(0.5);
            edit(&mut w, &path, &mut |m, i| {
                if let (Val::Map(a), Val::Map(b)) = (&mut m[i].1, &theirs) {
                    if a.is_empty() || b.is_empty() {
                        return;
                    }
                    if legacy {
                        // their fields, our name
                        if let (Some(x), Some(y)) = (a.iter().position(|e| e.0 == "params"), b.iter().find(|e| e.0 == "params")) {
                            a[x].1 = y.1.clone();
                        }
                    } else if merge && a[0].0 != b[0].0 {
                        a.push(b[0].clone());
                    } else {
                        a[0].1 = b[0].1.clone();
                    }
                }
            });
            (write(&w, format, &mut Rng::new(style)), "mixed variants")
        }
        18 => {
            let mut bytes = clean.into_bytes();
            for _ in 0..g.int(1, 2) {
                let i = g.below(bytes.len() as u64) as usize;
                bytes[i] = (bytes[i] ^ (1 << g.below(7))) & 0x7f;
            }
            (String::from_utf8_lossy(&bytes).into_owned(), "flipped bits")
        }
        _ => {
            let p = g.pick(&all).clone();
            let mut w = v.clone();
            edit(&mut w, &p, &mut |m, i| {
                let e = m[i].clone();
                m.push(e);
            });
            (write(&w, format, &mut Rng::new(style)), "written twice")
        }
    };
    DocSession { format, legacy, intended, text, damage: damage.into() }
}

// ------------------------------------------------------------------ execution

/// Read a description the way users do
fn load(text: &str, f: Format, legacy: bool) -> Result<Config, String> {
    if f == Format::Strict {
        return if legacy {
            serde_json::from_str::<Legacy>(text).map(Into::into).map_err(|e| e.to_string())
        } else {
            serde_json::from_str::<Config>(text).map_err(|e| e.to_string())
        };
    }
    let kind = match f {
        Format::Toml => config::FileFormat::Toml,
        Format::Yaml => config::FileFormat::Yaml,
        _ => config::FileFormat::Json,
    };
    let read = config::Config::builder()
        .add_source(config::File::from_str(text, kind))
        .build()
        .map_err(|e| e.to_string())?;
    if legacy {
        read.try_deserialize::<Legacy>().map(Into::into).map_err(|e| e.to_string())
    } else {
        read.try_deserialize::<Config>().map_err(|e| e.to_string())
    }
}

/// The same on a thread of its own with simulated entropy, on which the order depends in
/// which the reader visits the fields
fn load_as(text: &str, f: Format, legacy: bool, entropy: u64) -> (Result<Config, String>, u64) {
    std::thread::scope(|s| {
        s.spawn(|| {
            crate::seams::first_run(entropy);
            let simulated = crate::seams::simulated(2);
            let got = catch_unwind(AssertUnwindSafe(|| load(text, f, legacy)));
            let reads = crate::seams::reads();
            drop(simulated);
            let got = got.unwrap_or_else(|p| {
                Err(match panic_outcome(p.as_ref()) {
                    Outcome::Panic(m) => format!("panic: {m}"),
                    o => format!("panic: {}", o.name()),
                })
            });
            (got, reads)
        })
        .join()
        .unwrap_or_else(|_| (Err("panic: on its thread".into()), 0))
    })
}

fn sane_to_run(d: &Doc) -> bool {
    let ok = |x: f64, a: f64, b: f64| (a..=b).contains(&x);
    let hx = |h: &HxDoc| ok(h.vol, 1e-7, 1e-1) && ok(h.x, 0.0, if h.ua { 1e9 } else { 200.0 }) && ok(h.r_hyd, 0.0, 1e16) && ok(h.w, 0.0, 1e9) && ok(h.q, 0.0, 1e9);
    let r = |x: Option<f64>| x.map_or(true, |x| ok(x, 1e-6, 1e301));
    let w = &d.ws;
    hx(&d.chx)
        && hx(&d.regen)
        && hx(&d.hhx)
        && ok(w.freq, 1.0, 500.0)
        && ok(w.cl_c, 1e-8, 1e-2)
        && ok(w.cl_e, 1e-8, 1e-2)
        && r(w.r_c)
        && r(w.r_e)
        && ok(w.w_c, 0.0, 1e9)
        && ok(w.w_e, 0.0, 1e9)
        && ok(w.q_e, 0.0, 1e9)
        && match w.kind {
            KinDoc::Sin { phase, sw_c, sw_e } => ok(phase, 20.0, 160.0) && ok(sw_c, 1e-6, 1e-1) && ok(sw_e, 1e-6, 1e-1),
            KinDoc::Rhombic { ecc, r, l, d_p, d_d } => {
                ok(ecc, 1e-4, 1.0) && ok(r, 1e-4, 1.0) && l > (ecc + r) * 1.05 && ok(l, 1e-3, 3.0) && ok(d_p, 1e-3, 1.0) && ok(d_d, 1e-3, 1.0)
            }
        }
        && d.inner.2 <= 1000
        && d.outer.2 <= 200
        && d.ode.2 <= 3000
        && ok(d.ode.0, 1e-9, 1.0)
        && ok(d.ode.1, 1e-11, 1e-3)
        && ok(d.sink, 200.0, 500.0)
        && ok(d.source, d.sink + 100.0, 2000.0)
        && ok(d.p0, 1e5, 1e8)
}

fn equivalent(d: &Doc) -> RunSpec {
    let hx = |h: &HxDoc| HxSpec {
        answer: if h.ua { Answer::Ua { ua: h.x } } else { Answer::Fixed { a: h.x } },
        initial: None,
        vol: h.vol,
        r_hyd: h.r_hyd,
        par: [h.q, h.w, 0.0],
        dep: 0.0,
    };
    let w = &d.ws;
    RunSpec {
        fluid: if d.helium { FluidSpec::Helium } else { FluidSpec::Hydrogen },
        ws: WsSpec {
            kin: match w.kind {
                KinDoc::Sin { phase, sw_c, sw_e } => Kin::Sin { phase, cl_c: w.cl_c, sw_c, cl_e: w.cl_e, sw_e },
                KinDoc::Rhombic { ecc, r, l, d_p, d_d } => Kin::Rhombic { cl_c: w.cl_c, cl_e: w.cl_e, ecc, r, l, d_p, d_d },
            },
            freq: w.freq,
            freq_dep: 0.0,
            r_c: w.r_c,
            r_e: w.r_e,
            par_c: [0.0, w.w_c, 0.0],
            par_e: [w.q_e, w.w_e, 0.0],
            par_dep: 0.0,
        },
        chx: hx(&d.chx),
        regen: hx(&d.regen),
        hhx: hx(&d.hhx),
        pres_zero: d.p0,
        temp_sink: d.sink,
        temp_source: d.source,
        resolution: d.ode.2,
        inner: Tol { abs: d.inner.0, rel: d.inner.1 },
        outer: Tol { abs: d.outer.0, rel: d.outer.1 },
        ode: Tol { abs: d.ode.0, rel: d.ode.1 },
        max_inner: u64::from(d.inner.2),
        max_outer: u64::from(d.outer.2),
        solver: SolverSpec::Lu,
        faults: vec![],
    }
}

enum Ran {
    Ok(Box<Res>),
    Inner,
    Outer,
    Panic(String),
}

impl Ran {
    fn name(&self) -> &'static str {
        match self {
            Ran::Ok(_) => "ok",
            Ran::Inner => "inner_loop",
            Ran::Outer => "outer_loop",
            Ran::Panic(_) => "panic",
        }
    }
}

fn ran(f: impl FnOnce() -> Result<RunResults, RunError>) -> Ran {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(r)) => Ran::Ok(Box::new(Res::from_results(r))),
        Ok(Err(RunError::InnerLoop)) => Ran::Inner,
        Ok(Err(RunError::OuterLoop)) => Ran::Outer,
        Err(p) => match panic_outcome(p.as_ref()) {
            Outcome::Panic(m) => Ran::Panic(m),
            o => Ran::Panic(o.name().into()),
        },
    }
}

/// The engine assembled from the parameter values through the API
fn assembled(d: &Doc) -> Ran {
    let spec = equivalent(d);
    ran(|| {
        let power = |h: &HxDoc| ParasiticPower { thermal: h.q, mechanical: h.w, electrical: 0.0 };
        let ws: Box<dyn sett_rs::ws::WorkingSpaces> = match spec.ws.kin {
            Kin::Sin { .. } => crate::comps::make_ws(&spec.ws, spec.pres_zero),
            _ => stub_ws(&spec.ws, spec.pres_zero),
        };
        let components = Components {
            ws,
            chx: if d.chx.ua {
                Box::new(chx::FixedConductance::new(d.chx.vol, d.chx.r_hyd, d.chx.x, power(&d.chx)))
            } else {
                Box::new(chx::FixedApproach::new(d.chx.vol, d.chx.r_hyd, d.chx.x, power(&d.chx)))
            },
            regen: if d.regen.ua {
                Box::new(regen::FixedConductance::new(d.regen.vol, d.regen.r_hyd, d.regen.x, power(&d.regen)))
            } else {
                Box::new(regen::FixedApproach::new(d.regen.vol, d.regen.r_hyd, d.regen.x, power(&d.regen)))
            },
            hhx: if d.hhx.ua {
                Box::new(hhx::FixedConductance::new(d.hhx.vol, d.hhx.r_hyd, d.hhx.x, power(&d.hhx)))
            } else {
                Box::new(hhx::FixedApproach::new(d.hhx.vol, d.hhx.r_hyd, d.hhx.x, power(&d.hhx)))
            },
        };
        let gas = if d.helium { IdealGas::helium() } else { IdealGas::hydrogen() };
        Engine::run::<LuSolver>(components, gas, inputs(&spec), settings(&spec)).map(RunResults::from)
    })
}

fn as_rec(r: &Res) -> Rec {
    Rec {
        pres: r.pres,
        temp: r.temp,
        m: r.m,
        q: r.q,
        imbalance: r.imbalance,
        ser: r.ser.clone(),
        res: Some(Box::new(r.clone())),
    }
}

pub fn execute(d: &DocSession, e: &mut Exec) {
    let mut h = Hasher::new();
    h.s(&d.text);
    e.sigs.push(h.0);
    *e.fired.entry(format!("description_{}", d.damage.replace(' ', "_"))).or_default() += u64::from(d.damage != "none");
    e.scheduled += u64::from(d.damage != "none");
    *e.parts.entry("shipped description reader".into()).or_default() += 1;
    let reader = Reader { strict: d.format == Format::Strict };
    let seen = generic(&d.text, d.format);
    let mut want = match &seen {
        // not even well formed
        None => Err(No::Refuse),
        Some(v) => reader.doc(v, d.legacy),
    };
    if let Some(Val::Map(m)) = &seen {
        // the reader takes these for paths
        if d.format != Format::Strict && m.iter().any(|(k, _)| k.contains(['.', '[', ']'])) {
            want = Err(No::Unsure);
        }
    }
    if d.damage == "written twice" && want != Err(No::Refuse) {
        // notations differ in whether this is well formed
        want = want.or(Err(No::Unsure));
    }
    let r = &mut e.report;
    if d.damage == "none" {
        r.ensure("oracle", want.is_ok() && want == Ok(expected(d)), || {
            format!("the reference reader misunderstands the intact description: {want:?}")
        });
    }
    let (got, reads) = load_as(&d.text, d.format, d.legacy, 0);
    *e.parts.entry("simulated entropy read".into()).or_default() += reads;
    if let Err(msg) = &got {
        if msg.starts_with("panic: ") {
            if msg.contains("/config-") {
                // a bug of the notation reader itself: the description is not accepted
                r.probe("reader of the notation panicked");
            } else {
                r.fail("reader_panics", format!("reading the description panics: {msg}"));
                return;
            }
        }
    }
    // it is read again, as after a crash, by a reader that visits the fields in other orders
    for i in 1..=3 {
        let (again, _) = load_as(&d.text, d.format, d.legacy, i);
        if want == Err(No::Unsure) {
            // what a reader converts or ignores is its own business
            continue;
        }
        r.ensure("reload", got.is_ok() == again.is_ok() && got.as_ref().ok() == again.as_ref().ok(), || {
            format!("reading the same description twice gives {got:?} and {again:?}")
        });
    }
    h.word(u64::from(got.is_ok()));
    r.probe(match (&want, &got) {
        (Ok(_), Ok(_)) => "complete description accepted",
        (Ok(_), Err(_)) => "complete description refused",
        (Err(No::Refuse), Err(_)) => "incomplete description refused",
        (Err(No::Refuse), Ok(_)) => "incomplete description accepted",
        (Err(No::Unsure), _) => "no expectation",
    });
    e.nontrivial = want != Err(No::Unsure);
    match (want, got) {
        (Err(No::Refuse), Ok(c)) => {
            r.fail("accepted_incomplete", format!("a description with a {} is accepted as {c:?}", d.damage));
        }
        (Err(_), _) => {}
        (Ok(doc), Err(msg)) => {
            if d.damage != "written twice" {
                r.fail("refused_complete", format!("a complete description is refused ({}): {msg}: {doc:?}", d.damage));
            }
        }
        (Ok(doc), Ok(config)) => {
            if !sane_to_run(&doc) {
                r.skip("description not sensible to run");
                return;
            }
            let a = ran(|| run_engine(config));
            let b = assembled(&doc);
            e.runs += 2;
            for x in [&a, &b] {
                *e.outcomes.entry(x.name().into()).or_default() += 1;
                if let Ran::Ok(x) = x {
                    e.sim_time += x.ser.time.last().copied().unwrap_or(0.0);
                    h.word(x.hash());
                }
                h.s(x.name());
            }
            let sin = matches!(doc.ws.kind, KinDoc::Sin { .. });
            if let Ran::Panic(m) = &a {
                r.fail("panic", format!("running the description panics: {m}"));
                return;
            }
            if !sin && a.name() != b.name() {
                r.skip("rounding decides the verdict");
                return;
            }
            r.ensure("verdict", a.name() == b.name(), || {
                format!("the description ends with {}, the engine assembled from its values with {}", a.name(), b.name())
            });
            if let (Ran::Ok(a), Ran::Ok(b)) = (&a, &b) {
                let spec = equivalent(&doc);
                let (dist, what) = distance(&as_rec(a), &as_rec(b), &spec);
                if sin {
                    r.ensure("same_run", a.hash() == b.hash(), || {
                        format!("the description and the engine assembled from its values differ: {what} (by {dist:e})")
                    });
                } else {
                    // this drive can only be built from a description: same to the tolerances
                    let lim = 100.0 * (doc.inner.0.min(doc.inner.1 * 400.0) + doc.outer.0.min(doc.outer.1 * 400.0)) / 300.0 + 1e-5;
                    r.le("similar_run", dist, lim, || {
                        format!("the description and the engine assembled from its values differ: {what}")
                    });
                }
            }
        }
    }
    e.hash = h.0;
}

/// What the intact description says (some notations write infinity as a large number)
fn expected(d: &DocSession) -> Doc {
    let mut x = d.intended.clone();
    if d.legacy {
        x.inner.2 = 20;
        x.outer.2 = 20;
    }
    let reader = Reader { strict: d.format == Format::Strict };
    if let Some(Ok(y)) = generic(&d.text, d.format).map(|v| reader.doc(&v, d.legacy)) {
        if x.ws.r_c.is_none() && y.ws.r_c == Some(1e300) {
            x.ws.r_c = y.ws.r_c;
        }
        if x.ws.r_e.is_none() && y.ws.r_e == Some(1e300) {
            x.ws.r_e = y.ws.r_e;
        }
    }
    x
}
