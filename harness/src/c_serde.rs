//! C16 (round trips) and C17 (malformed data, failing destinations).
use crate::alloc;
use crate::c_hist::HistState;
use crate::c_num::{cut, random_run, SAVED_BUDGET};
use crate::ctx::{guarded, Case, Ctx};
use crate::ensure;
use crate::net::*;
use crate::rng::Rng;
use crate::sys::*;
use crate::trace;
use dess::prelude::*;
use dess_examples::components::*;
use serde_json::json;
use std::fmt::Debug;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fmt {
    Json,
    Yaml,
    Bin,
}
pub const FMTS: [Fmt; 3] = [Fmt::Json, Fmt::Yaml, Fmt::Bin];

/// any value with the serialization interface
pub trait Thing {
    fn name(&self) -> String;
    fn dbg(&self) -> String;
    fn enc(&self, f: Fmt) -> Vec<u8>;
    fn dec(&self, f: Fmt, b: &[u8]) -> Result<Box<dyn Thing>, String>;
    fn out_file(&self, path: &str) -> Result<(), String>;
    fn in_file(&self, path: &str) -> Result<Box<dyn Thing>, String>;
    fn into_ode(self: Box<Self>) -> Option<Box<dyn Ode>>;
}
/// makes a random value
pub type SerdeFn = fn(&mut Rng) -> Box<dyn Thing>;

pub struct W<T>(pub T);
impl<T: SerdeAPI + Debug + 'static> Thing for W<T> {
    fn name(&self) -> String {
        std::any::type_name::<T>().rsplit("::").next().unwrap().to_string()
    }
    fn dbg(&self) -> String {
        format!("{:?}", self.0)
    }
    fn enc(&self, f: Fmt) -> Vec<u8> {
        match f {
            Fmt::Json => self.0.to_json().into_bytes(),
            Fmt::Yaml => self.0.to_yaml().into_bytes(),
            Fmt::Bin => self.0.to_bincode(),
        }
    }
    fn dec(&self, f: Fmt, b: &[u8]) -> Result<Box<dyn Thing>, String> {
        let e = |e: &dyn std::fmt::Display| e.to_string();
        let v = match f {
            Fmt::Json => T::from_json(std::str::from_utf8(b).map_err(|x| e(&x))?).map_err(|x| e(&x))?,
            Fmt::Yaml => T::from_yaml(std::str::from_utf8(b).map_err(|x| e(&x))?).map_err(|x| e(&x))?,
            Fmt::Bin => T::from_bincode(b).map_err(|x| e(&x))?,
        };
        Ok(Box::new(W(v)))
    }
    fn out_file(&self, path: &str) -> Result<(), String> {
        self.0.to_file(path).map_err(|e| e.to_string())
    }
    fn in_file(&self, path: &str) -> Result<Box<dyn Thing>, String> {
        Ok(Box::new(W(T::from_file(path).map_err(|e| e.to_string())?)))
    }
    fn into_ode(self: Box<Self>) -> Option<Box<dyn Ode>> {
        None
    }
}
pub struct WO(pub Box<dyn Ode>);
impl Thing for WO {
    fn name(&self) -> String {
        let d = self.0.dbg();
        d.split([' ', '{']).next().unwrap().to_string()
    }
    fn dbg(&self) -> String {
        self.0.dbg()
    }
    fn enc(&self, f: Fmt) -> Vec<u8> {
        match f {
            Fmt::Json => self.0.json().into_bytes(),
            Fmt::Yaml => self.0.yaml().into_bytes(),
            Fmt::Bin => self.0.bin(),
        }
    }
    fn dec(&self, f: Fmt, b: &[u8]) -> Result<Box<dyn Thing>, String> {
        let text = || std::str::from_utf8(b).map_err(|e| e.to_string());
        Ok(Box::new(WO(match f {
            Fmt::Json => self.0.unjson(text()?)?,
            Fmt::Yaml => self.0.unyaml(text()?)?,
            Fmt::Bin => self.0.unbin(b)?,
        })))
    }
    fn out_file(&self, path: &str) -> Result<(), String> {
        self.0.out_file(path)
    }
    fn in_file(&self, path: &str) -> Result<Box<dyn Thing>, String> {
        Ok(Box::new(WO(self.0.in_file(path)?)))
    }
    fn into_ode(self: Box<Self>) -> Option<Box<dyn Ode>> {
        Some(self.0)
    }
}

pub fn comp<T: Comp + Default + SerdeAPI + 'static>(r: &mut Rng) -> Box<dyn Thing> {
    let mut v = T::default();
    let rows = r.below(4);
    if r.bool(0.95) {
        v.scramble(r, rows);
    }
    Box::new(W(v))
}
pub fn hist<T: HistState + 'static>(r: &mut Rng) -> Box<dyn Thing> {
    if r.bool(0.3) {
        return Box::new(W(T::any_rand(r)));
    }
    let mut h = T::h_new();
    for _ in 0..*r.pick(&[0, 1, 2, 3, 8, 40]) {
        T::h_push(&mut h, T::any_rand(r));
    }
    Box::new(W(h))
}
pub fn random_config(r: &mut Rng) -> AdaptiveSolverConfig {
    let mut history = SolverStateHistoryVec::default();
    for _ in 0..r.below(4) {
        history.push(AnyRand::any_rand(r));
    }
    AdaptiveSolverConfig {
        dt_max: AnyRand::any_rand(r),
        max_iter: AnyRand::any_rand(r),
        atol: AnyRand::any_rand(r),
        rtol: AnyRand::any_rand(r),
        save: AnyRand::any_rand(r),
        save_states: AnyRand::any_rand(r),
        state: AnyRand::any_rand(r),
        history,
    }
}
pub fn random_solver(r: &mut Rng) -> SolverTypes {
    let dt: f64 = AnyRand::any_rand(r);
    match r.below(7) {
        0 => SolverTypes::EulerFixed { dt },
        1 => SolverTypes::HeunsMethod { dt },
        2 => SolverTypes::MidpointMethod { dt },
        3 => SolverTypes::RalstonsMethod { dt },
        4 => SolverTypes::RK4Fixed { dt },
        5 => SolverTypes::RK23BogackiShampine(Box::new(random_config(r))),
        _ => SolverTypes::RK45CashKarp(Box::new(random_config(r))),
    }
}

pub fn shipped_things() -> Vec<SerdeFn> {
    vec![
        comp::<ThermalMass>,
        comp::<ThermalReservoir>,
        comp::<Conductance>,
        hist::<SystemState>,
        hist::<SolverState>,
        hist::<ThermalMassState>,
        hist::<ConductanceState>,
        |r| Box::new(W(random_config(r))),
        |r| Box::new(W(random_solver(r))),
        |r| Box::new(W(random_solver(r))),
    ]
}

/// floats of a Debug text, replaced by what serde_json's own number parser makes of them; None when
/// that parser refuses one of them
fn json_lossy(dbg: &str) -> Option<String> {
    let b: Vec<char> = dbg.chars().collect();
    let mut out = String::new();
    let mut k = 0;
    let mut prev_word = false;
    while k < b.len() {
        let ch = b[k];
        if ch == '"' || (ch == '\'' && k + 2 < b.len()) {
            // quoted text is copied
            out.push(ch);
            k += 1;
            while k < b.len() && b[k] != ch {
                if b[k] == '\\' {
                    out.push(b[k]);
                    k += 1;
                }
                out.push(b[k]);
                k += 1;
            }
            out.push(ch);
            k += 1;
            prev_word = false;
            continue;
        }
        if !prev_word && (ch.is_ascii_digit() || (ch == '-' && k + 1 < b.len() && b[k + 1].is_ascii_digit())) {
            let mut j = k + 1;
            while j < b.len() && (b[j].is_ascii_digit() || b[j] == '.' || b[j] == 'e' || (b[j] == '-' && b[j - 1] == 'e')) {
                j += 1;
            }
            let tok: String = b[k..j].iter().collect();
            if tok.contains('.') || tok.contains('e') {
                let v: f64 = tok.parse().ok()?;
                let w: f64 = serde_json::from_str(&serde_json::to_string(&v).ok()?).ok()?;
                out.push_str(&format!("{w:?}"));
            } else {
                out.push_str(&tok);
            }
            k = j;
            prev_word = false;
            continue;
        }
        prev_word = ch.is_alphanumeric() || ch == '_';
        out.push(ch);
        k += 1;
    }
    Some(out)
}

pub const LOSSY: &str = "json-decoding-loses-last-bits-of-floats";

/// -> exact?
fn compare(c: &mut Case, v: &dyn Thing, got: Result<Box<dyn Thing>, String>, is_json: bool, how: &str) -> Result<bool, String> {
    let want = v.dbg();
    c.count("round_trips", 1);
    match got {
        Ok(g) if g.dbg() == want => {
            c.count(&format!("exact_{how}"), 1);
            Ok(true)
        }
        got => {
            let shown = match &got {
                Ok(g) => g.dbg(),
                Err(e) => format!("error: {e}"),
            };
            if is_json {
                // the recorded finding, and nothing but it
                match (json_lossy(&want), &got) {
                    (Some(l), Ok(g)) if g.dbg() == l => {
                        c.known(LOSSY, format!("{} through {how}: {}", v.name(), first_difference(&want, &shown)));
                        return Ok(false);
                    }
                    (None, Err(_)) => {
                        c.known(LOSSY, format!("{} through {how}: {shown}", v.name()));
                        return Ok(false);
                    }
                    _ => {}
                }
            }
            Err(format!("{} through {how} comes back different: {} (full: {want})", v.name(), first_difference(&want, &shown)))
        }
    }
}

pub fn first_difference(a: &str, b: &str) -> String {
    let (ca, cb): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect());
    let k = ca.iter().zip(&cb).take_while(|(x, y)| x == y).count();
    let from = k.saturating_sub(40);
    let cut = |v: &[char]| v[from.min(v.len())..(k + 60).min(v.len())].iter().collect::<String>();
    format!("..{} became ..{}", cut(&ca), cut(&cb))
}

fn round_trip(c: &mut Case, v: &dyn Thing, dir: &str, files: bool) -> Result<Vec<Fmt>, String> {
    let mut exact = vec![];
    for f in FMTS {
        let before = v.dbg();
        let bytes = v.enc(f);
        ensure!(v.dbg() == before, "encoding {} changed it", v.name());
        let got = guarded(|| v.dec(f, &bytes)).map_err(|m| format!("decoding {} from its own {f:?} encoding panicked: {m}", v.name()))?;
        if compare(c, v, got, f == Fmt::Json, &format!("{f:?}"))? {
            exact.push(f);
        }
        c.count("encoded_bytes", bytes.len() as u64);
    }
    if files {
        for f in [Fmt::Json, Fmt::Yaml] {
            let ext = if f == Fmt::Json { "json" } else { "yaml" };
            let path = format!("{dir}/{}-{}.{ext}", c.section, c.idx);
            let style = c.rng.below(4);
            // what is there before: nothing, something shorter, something longer, another object
            let old = match style {
                0 => None,
                1 => Some(vec![b'x'; 3]),
                2 => Some(format!("{{\"junk\": [{}]}}\n", "1, ".repeat(v.enc(f).len() + 100)).into_bytes()),
                _ => {
                    let mut b = v.enc(f);
                    b.extend_from_slice(&v.enc(f));
                    b.push(b'\n');
                    Some(b)
                }
            };
            if let Some(b) = &old {
                std::fs::write(&path, b).map_err(|e| format!("{}{e}", crate::ctx::HARNESS))?;
            }
            v.out_file(&path).map_err(|e| format!("writing {} to {path} failed: {e}", v.name()))?;
            compare(c, v, v.in_file(&path), f == Fmt::Json, &format!("{f:?}_file{}", if style == 0 { "" } else { "_overwritten" }))?;
            let text = std::fs::read(&path).map_err(|e| format!("{}{e}", crate::ctx::HARNESS))?;
            let fresh = format!("{dir}/{}-{}-fresh.{ext}", c.section, c.idx);
            v.out_file(&fresh).map_err(|e| format!("writing {} to {fresh} failed: {e}", v.name()))?;
            let text2 = std::fs::read(&fresh).map_err(|e| format!("{}{e}", crate::ctx::HARNESS))?;
            ensure!(text == text2, "writing {} over an existing file ({:?} bytes) gives {} bytes, a fresh file has {}", v.name(), old.map(|o| o.len()), text.len(), text2.len());
            let _ = std::fs::remove_file(&path);
            let _ = std::fs::remove_file(&fresh);
        }
    }
    Ok(exact)
}

/// a system at a random point of a random run: (system, what is left to be reported)
pub fn partial(c: &mut Case, systems: &[Maker]) -> Result<Option<Box<dyn Ode>>, String> {
    let kind = c.rng.below(7);
    let mut s: Box<dyn Ode> = if c.rng.bool(0.35) {
        let (rhs, y0, t0, grid, spec, _) = random_run(&mut c.rng, kind, 8);
        trace::set_budget(if spec.save { SAVED_BUDGET / 3 } else { 60_000 });
        make(&rhs, &y0, spec.build(), t0, &grid)
    } else {
        let mut s = c.rng.pick(systems)();
        let (_, _, _, spec) = crate::c_net::setup(&mut c.rng, &mut *s, kind, true);
        trace::set_budget(if spec.save { SAVED_BUDGET / 3 } else { 60_000 });
        s
    };
    let rows = s.report().len();
    let stop = c.rng.below(rows + 1);
    c.desc = s.dbg();
    if cut(c, || {
        while s.index() < stop {
            s.solve_step();
            let i = s.index() + 1;
            s.set_index(i);
            s.save_state();
        }
    })? {
        return Ok(None);
    }
    Ok(Some(s))
}

pub fn c16(ctx: &Ctx, systems: &[Maker], gen: &[SerdeFn]) {
    let dir = ctx.scratch();
    let shipped = shipped_things();
    ctx.cases("objects", ctx.n(6000, 200_000), |c| {
        c.rng.1 = c.rng.bool(0.7);
        let mk = if c.rng.bool(0.5) || gen.is_empty() { c.rng.pick(&shipped) } else { c.rng.pick(gen) };
        let v = mk(&mut c.rng);
        c.desc = v.dbg();
        let files = c.idx % 5 == 0;
        round_trip(c, &*v, &dir, files)?;
        c.distinct(&c.desc.clone());
        if c.idx < 2 {
            c.sample(json!({"type": v.name(), "json": String::from_utf8_lossy(&v.enc(Fmt::Json)).chars().take(200).collect::<String>()}));
        }
        Ok(())
    });
    ctx.cases("scrambled_systems", ctx.n(1500, 60_000), |c| {
        c.rng.1 = c.rng.bool(0.5);
        let mut s = c.rng.pick(systems)();
        let rows = c.rng.below(4);
        s.scramble(&mut c.rng, rows);
        s.set_solver(random_solver(&mut c.rng));
        let v = WO(s);
        c.desc = v.dbg();
        let files = c.idx % 5 == 0;
        round_trip(c, &v, &dir, files)?;
        c.distinct(&c.desc.clone());
        Ok(())
    });
    ctx.cases("running_systems", ctx.n(4000, 100_000), |c| {
        let Some(s) = partial(c, systems)? else { return Ok(()) };
        if s.dbg().split(|c: char| !c.is_alphanumeric()).any(|w| w == "NaN" || w == "inf") {
            return Ok(());
        }
        let at = (s.index(), s.report().len());
        let v = WO(s);
        let shown = c.desc.clone();
        let files = c.idx % 4 == 0;
        let exact = round_trip(c, &v, &dir, files)?;
        c.desc = shown;
        // continuing what came back
        let mut orig = v.0.dup();
        if cut(c, || orig.walk())? {
            return Ok(());
        }
        let want = orig.dbg();
        for f in exact {
            let mut back = v.dec(f, &v.enc(f))?.into_ode().unwrap();
            if cut(c, || back.walk())? {
                return Ok(());
            }
            ensure!(back.dbg() == want, "continuing the system restored from {f:?} at report {} of {} gives something else: {}", at.0, at.1, first_difference(&want, &back.dbg()));
            c.count("continued", 1);
            c.count(&format!("continued_{}", if at.0 == 0 { "before" } else if at.0 < at.1 { "midway" } else { "finished" }), 1);
        }
        c.distinct(&c.desc.clone());
        if c.idx < 3 {
            c.sample(json!({"system": v.name(), "stopped_at_row": at.0, "rows": at.1, "yaml_bytes": v.enc(Fmt::Yaml).len()}));
        }
        Ok(())
    });
    // text written by the released version
    let gold = format!("{}/golden", ctx.verif);
    let things = golden_things();
    ctx.cases("golden", things.len(), |c| {
        let (name, v) = &golden_things()[c.idx];
        for ext in ["json", "yaml"] {
            let path = format!("{gold}/{name}.{ext}");
            let text = std::fs::read_to_string(&path).map_err(|e| format!("{}{path}: {e}", crate::ctx::HARNESS))?;
            let f = if ext == "json" { Fmt::Json } else { Fmt::Yaml };
            let a = v.in_file(&path).map_err(|e| format!("{name} written by the released version as {ext} file cannot be read: {e}"))?;
            let b = v.dec(f, text.as_bytes()).map_err(|e| format!("{name} written by the released version as {ext} text cannot be read: {e}"))?;
            ensure!(a.dbg() == v.dbg() && b.dbg() == v.dbg(), "{name} written by the released version as {ext} reads as something else: {}", first_difference(&v.dbg(), &a.dbg()));
            c.count("golden_read", 2);
        }
        c.distinct(name);
        Ok(())
    });
    // the repository's own stored runs
    ctx.cases("fixtures", 1, |c| {
        let fx = "/repo/dess-examples/src/tests/fixtures";
        let mut n = 0;
        for e in std::fs::read_dir(fx).map_err(|e| format!("{}{e}", crate::ctx::HARNESS))?.flatten() {
            let p = e.path().display().to_string();
            if p.ends_with(".yaml") {
                let text = std::fs::read_to_string(&p).unwrap_or_default();
                macro_rules! stored {
                    ($t:ty) => {{
                        let v = <$t>::from_file(&p).map_err(|e| format!("{p} cannot be read: {e}"))?;
                        let again = <$t>::from_yaml(&v.to_yaml()).map_err(|e| format!("{p}: {e}"))?;
                        ensure!(format!("{v:?}") == format!("{again:?}"), "{p} does not survive another round trip");
                        ensure!(!text.is_empty() && !v.history.is_empty(), "{p} reads as an empty run");
                    }};
                }
                if p.contains("w_bc") {
                    stored!(dess_examples::three_thrml_mass_w_bc_sys::System3TMWithBC)
                } else {
                    stored!(dess_examples::three_thermal_mass_sys::System3TM)
                }
                n += 1;
            }
        }
        c.count("fixtures_read", n);
        Ok(())
    });
    let _ = std::fs::remove_dir_all(&dir);
    for k in ["exact_Yaml", "exact_Bin", "exact_Json", "exact_Yaml_file_overwritten", "exact_Json_file_overwritten", "continued_before", "continued_midway", "continued_finished"] {
        ctx.require(k, 50);
    }
    ctx.require("fixtures_read", 5);
    ctx.require("golden_read", 20);
}

/// fixed objects with values which JSON decodes exactly; their encodings are stored under golden/
pub fn golden_things() -> Vec<(String, Box<dyn Thing>)> {
    let mut v: Vec<(String, Box<dyn Thing>)> = vec![];
    let mut mass = ThermalMass { c: 2.5, state: ThermalMassState { temp: 1.25, dtemp: -0.5 }, ..Default::default() };
    mass.history.temp = vec![1.0, 2.5];
    mass.history.dtemp = vec![0.5, -3.0];
    let mut cond = Conductance { h: 4.0, state: ConductanceState { q: -7.5 }, ..Default::default() };
    cond.history.q = vec![1.5, 0.0, -2.0];
    let mut res = ThermalReservoir { state: ThermalMassState { temp: 3.5, dtemp: 0.0 }, ..Default::default() };
    res.history.temp = vec![3.5];
    res.history.dtemp = vec![0.0];
    let st = SolverState { dt: 0.25, n_iter: 3, norm_err: Some(0.125), norm_err_rel: None, t_curr: 1.5, states: vec![1.0, 2.0] };
    let mut cfg = AdaptiveSolverConfig {
        dt_max: 10.0, max_iter: 7, atol: 0.0625, rtol: 0.03125, save: true, save_states: true,
        state: SolverState { dt: 0.5, n_iter: 1, norm_err: Some(2.0), norm_err_rel: Some(0.5), t_curr: 2.5, states: vec![] },
        history: Default::default(),
    };
    cfg.history.dt = vec![0.25, 0.5];
    cfg.history.n_iter = vec![3, 1];
    cfg.history.norm_err = vec![Some(0.125), None];
    cfg.history.norm_err_rel = vec![None, Some(0.75)];
    cfg.history.t_curr = vec![1.5, 1.75];
    cfg.history.states = vec![vec![1.0, 2.0], vec![]];
    let solvers = vec![
        SolverTypes::EulerFixed { dt: 0.5 },
        SolverTypes::HeunsMethod { dt: 0.25 },
        SolverTypes::MidpointMethod { dt: 0.125 },
        SolverTypes::RalstonsMethod { dt: 2.0 },
        SolverTypes::RK4Fixed { dt: 1.5 },
        SolverTypes::RK23BogackiShampine(Box::new(cfg.clone())),
        SolverTypes::RK45CashKarp(Box::new(cfg.clone())),
    ];
    let mut hist = SystemStateHistoryVec::default();
    hist.i = vec![1, 2];
    hist.time = vec![0.0, 0.5];
    for (k, s) in solvers.iter().enumerate() {
        v.push((format!("solver{k}"), Box::new(W(s.clone()))));
        let sys = dess_examples::three_thermal_mass_sys::System3TM {
            solver_type: s.clone(), m1: mass.clone(), h12: cond.clone(), m2: mass.clone(), h23: cond.clone(), m3: mass.clone(),
            t_report: vec![0.0, 0.5, 1.0], state: SystemState { i: 2, time: 0.5 }, history: hist.clone(),
        };
        v.push((format!("sys3tm{k}"), Box::new(W(sys))));
        let sys = dess_examples::three_thrml_mass_w_bc_sys::System3TMWithBC {
            solver_type: s.clone(), m1: res.clone(), h12: cond.clone(), m2: mass.clone(), h23: cond.clone(), m3: mass.clone(),
            t_report: vec![0.0, 0.5, 1.0], state: SystemState { i: 2, time: 0.5 }, history: hist.clone(),
        };
        v.push((format!("sysbc{k}"), Box::new(W(sys))));
    }
    v.push(("mass_state".into(), Box::new(W(mass.state))));
    v.push(("mass_hist".into(), Box::new(W(mass.history.clone()))));
    v.push(("mass".into(), Box::new(W(mass))));
    v.push(("cond_state".into(), Box::new(W(cond.state))));
    v.push(("cond_hist".into(), Box::new(W(cond.history.clone()))));
    v.push(("cond".into(), Box::new(W(cond))));
    v.push(("res".into(), Box::new(W(res))));
    v.push(("solver_state".into(), Box::new(W(st))));
    v.push(("config".into(), Box::new(W(cfg.clone()))));
    v.push(("solver_hist".into(), Box::new(W(cfg.history))));
    v.push(("system_state".into(), Box::new(W(SystemState { i: 4, time: 2.25 }))));
    v.push(("system_hist".into(), Box::new(W(hist))));
    v
}
pub fn write_golden(dir: &str) {
    std::fs::create_dir_all(dir).unwrap();
    for (name, v) in golden_things() {
        for ext in ["json", "yaml"] {
            v.out_file(&format!("{dir}/{name}.{ext}")).unwrap();
        }
    }
}

// ---------------------------------------------------------------------------------------- C17

const BIG: usize = 192 << 20;

/// one decode of arbitrary bytes: no panic, no outsized allocation, no long time
fn hostile(c: &mut Case, v: &dyn Thing, f: Fmt, b: &[u8], what: &str) -> Result<bool, String> {
    let t = std::time::Instant::now();
    let (r, peak, biggest, _, _) = alloc::measured(|| guarded(|| v.dec(f, b).is_ok()));
    let dt = t.elapsed().as_secs_f64();
    let show = || String::from_utf8_lossy(&b[..b.len().min(300)]).to_string();
    let ok = r.map_err(|m| format!("decoding {what} as {f:?} into {} panicked: {m}; data: {:?} ({} bytes)", v.name(), show(), b.len()))?;
    let limit = BIG + 200 * b.len();
    ensure!(biggest <= limit && peak <= 4 * limit as i64, "decoding {what} ({} bytes) as {f:?} into {} asked for a block of {biggest} bytes (peak {peak}); data: {:?}", b.len(), v.name(), show());
    ensure!(dt < 20., "decoding {what} ({} bytes) as {f:?} into {} took {dt:.1} s", b.len(), v.name());
    c.count("hostile_decodes", 1);
    c.count(if ok { "hostile_accepted" } else { "hostile_rejected" }, 1);
    c.max("largest_block", biggest as f64);
    Ok(ok)
}

pub fn mutate(r: &mut Rng, b: &[u8], text: bool) -> Vec<u8> {
    let mut v = b.to_vec();
    for _ in 0..r.int(1, 4) {
        let n = v.len();
        match r.below(9) {
            0 if n > 0 => {
                let k = r.below(n);
                v[k] ^= 1 << r.below(if text { 7 } else { 8 });
            }
            1 if n > 0 => {
                let k = r.below(n);
                v[k] = if text { *r.pick(b"{}[],:\"-0129.eE+ \n\t#&*!|>'%@`~?_nulltruefalse\\/") } else { *r.pick(&[0, 1, 0x7f, 0x80, 0xff]) };
            }
            2 => {
                let k = r.below(n + 1);
                let ins: Vec<u8> = if text {
                    r.pick(&["null", "-", "1e999", "1e400", "-1", "99999999999999999999999", "\"", "[", "{", "]", "}", "NaN", ".nan", ".inf", "!!binary x", "&a [*a]", "\u{0}", "\u{feff}", "true", "'", "\\ud800", "1.", "0x10", ": ", "\n", "\t", "- ", "...\n", "---\n", "%YAML 9.9\n"]).bytes().collect()
                } else {
                    (0..r.int(1, 9)).map(|_| r.u64() as u8).collect()
                };
                v.splice(k..k, ins);
            }
            3 if n > 1 => {
                let (a, e) = (r.below(n), r.below(n));
                v.drain(a.min(e)..a.max(e));
            }
            4 if n > 1 => {
                let (a, e) = (r.below(n), r.below(n));
                let part = v[a.min(e)..a.max(e)].to_vec();
                let k = r.below(n);
                v.splice(k..k, part);
            }
            5 if !text && n >= 8 => {
                // a length or a float of eight bytes
                let k = r.below(n - 7);
                let x = *r.pick(&[u64::MAX, 1 << 63, 1 << 60, u64::MAX / 8 + 1, 1 << 32, 1 << 40, 255, (1 << 61) - 1]);
                v[k..k + 8].copy_from_slice(&x.to_le_bytes());
            }
            6 if n > 0 => v.truncate(r.below(n)),
            7 if text && n > 0 => {
                // change a number
                if let Some(k) = (0..n).cycle().skip(r.below(n)).take(n).find(|k| v[*k].is_ascii_digit()) {
                    v.splice(k..k + 1, r.pick(&["-1", "256", "1e5", "3.5", "18446744073709551616", "-0", "\"7\"", "", "null"]).bytes());
                }
            }
            _ => {}
        }
    }
    v
}

fn listing(dir: &str) -> Vec<(String, Vec<u8>)> {
    fn go(d: &std::path::Path, out: &mut Vec<(String, Vec<u8>)>) {
        let Ok(rd) = std::fs::read_dir(d) else { return };
        for e in rd.flatten() {
            let p = e.path();
            let ft = std::fs::symlink_metadata(&p);
            if ft.as_ref().map(|m| m.is_dir()).unwrap_or(false) {
                out.push((format!("{}/", p.display()), vec![]));
                go(&p, out);
            } else if ft.as_ref().map(|m| m.file_type().is_symlink()).unwrap_or(false) {
                out.push((format!("{}@", p.display()), vec![]));
            } else {
                out.push((p.display().to_string(), std::fs::read(&p).unwrap_or_default()));
            }
        }
    }
    let mut v = vec![];
    go(std::path::Path::new(dir), &mut v);
    v.sort();
    v
}

pub fn any_thing(r: &mut Rng, systems: &[Maker], shipped: &[SerdeFn], gen: &[SerdeFn]) -> Box<dyn Thing> {
    r.1 = r.bool(0.3);
    match r.below(3) {
        0 => r.pick(shipped)(r),
        1 if !gen.is_empty() => r.pick(gen)(r),
        _ => {
            let mut s = r.pick(systems)();
            let rows = r.below(3);
            s.scramble(r, rows);
            s.set_solver(random_solver(r));
            Box::new(WO(s))
        }
    }
}

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
    fn getrlimit(resource: i32, rlim: *mut [u64; 2]) -> i32;
    fn signal(sig: i32, h: usize) -> usize;
}
const RLIMIT_FSIZE: i32 = 1;
const SIGXFSZ: i32 = 25;

pub fn c17(ctx: &Ctx, systems: &[Maker], gen: &[SerdeFn]) {
    let dir = ctx.scratch();
    let shipped = shipped_things();
    ctx.cases("prefixes", ctx.n(250, 8000), |c| {
        let v = any_thing(&mut c.rng, systems, &shipped, gen);
        c.desc = v.dbg();
        for f in FMTS {
            let b = v.enc(f);
            let all = b.len() <= if c.thorough { 4000 } else { 600 };
            let cuts: Vec<usize> = if all { (0..b.len()).collect() } else { (0..120).map(|_| c.rng.below(b.len())).chain([0, 1, b.len() - 1, b.len() - 2]).collect() };
            for k in cuts {
                let ok = hostile(c, &*v, f, &b[..k], "a truncated encoding")?;
                // a YAML scalar cut short is another valid scalar
                ensure!(!ok || f == Fmt::Yaml, "the first {k} of {} bytes of {}'s {f:?} encoding decode", b.len(), v.name());
                c.count(&format!("prefixes_{f:?}"), 1);
            }
        }
        c.distinct(&c.desc.clone());
        Ok(())
    });
    ctx.cases("mutations", ctx.n(12_000, 500_000), |c| {
        let v = any_thing(&mut c.rng, systems, &shipped, gen);
        let f = FMTS[c.idx % 3];
        let b = v.enc(f);
        for _ in 0..4 {
            let m = mutate(&mut c.rng, &b, f != Fmt::Bin);
            c.desc = format!("{f:?} {} {:?}", v.name(), String::from_utf8_lossy(&m));
            hostile(c, &*v, f, &m, "a corrupted encoding")?;
            if c.rng.bool(0.05) && f != Fmt::Bin {
                let p = format!("{dir}/m{}.{}", c.idx, if f == Fmt::Json { "json" } else { "yaml" });
                std::fs::write(&p, &m).map_err(|e| format!("{}{e}", crate::ctx::HARNESS))?;
                let r = guarded(|| v.in_file(&p).is_ok()).map_err(|m| format!("reading a corrupted file panicked: {m}"))?;
                c.count(if r { "files_accepted" } else { "files_rejected" }, 1);
                let _ = std::fs::remove_file(&p);
            }
            c.distinct(&c.desc.clone());
        }
        if c.idx < 3 {
            let m = mutate(&mut c.rng, &b, f != Fmt::Bin);
            c.sample(json!({"type": v.name(), "format": format!("{f:?}"), "mutant": String::from_utf8_lossy(&m).chars().take(160).collect::<String>()}));
        }
        Ok(())
    });
    ctx.cases("arbitrary", ctx.n(6000, 300_000), |c| {
        let v = any_thing(&mut c.rng, systems, &shipped, gen);
        let n = *c.rng.pick(&[0usize, 1, 2, 7, 8, 9, 16, 24, 40, 100, 400]);
        let small = c.rng.bool(0.5);
        let b: Vec<u8> = (0..n).map(|_| if small { c.rng.below(4) as u8 } else { c.rng.u64() as u8 }).collect();
        hostile(c, &*v, Fmt::Bin, &b, "arbitrary bytes")?;
        let t: Vec<u8> = (0..n).map(|_| *c.rng.pick(b"{}[],:\"-0129.eE+ \n\t#&*!|>'%@`~?_nulltruefalse\\/")).collect();
        hostile(c, &*v, Fmt::Json, &t, "arbitrary text")?;
        hostile(c, &*v, Fmt::Yaml, &t, "arbitrary text")?;
        c.distinct(&format!("{b:?}{t:?}"));
        Ok(())
    });
    // structures meant to exhaust something
    ctx.cases("bombs", 40, |c| {
        let v = any_thing(&mut c.rng, systems, &shipped, gen);
        let d = *c.rng.pick(&[100usize, 127, 128, 129, 1000, 50_000]);
        let list: Vec<(Fmt, String)> = vec![
            (Fmt::Json, "[".repeat(d)),
            (Fmt::Json, "{\"a\":".repeat(d)),
            (Fmt::Json, format!("{}{}", "[".repeat(d), "]".repeat(d))),
            (Fmt::Json, format!("{{\"states\":{}{}}}", "[".repeat(d), "]".repeat(d))),
            (Fmt::Yaml, "[".repeat(d.min(3000))),
            (Fmt::Yaml, format!("{}{}", "[".repeat(d.min(3000)), "]".repeat(d.min(3000)))),
            (Fmt::Yaml, "- ".repeat(d.min(3000))),
            (Fmt::Yaml, (0..d.min(200)).map(|k| format!("{}a:\n", " ".repeat(k))).collect::<String>()),
            (Fmt::Yaml, {
                let mut s = "a0: &a0 [1.0,1.0,1.0,1.0,1.0,1.0,1.0,1.0,1.0]\n".to_string();
                for k in 1..20 {
                    s += &format!("a{k}: &a{k} [{}]\n", vec![format!("*a{}", k - 1); 9].join(","));
                }
                s + "c: *a19\nstate: *a19\nhistory: *a19\n"
            }),
            (Fmt::Yaml, "a: &a [*a, *a]\nc: *a\n".into()),
            (Fmt::Yaml, "&a ? *a : *a".into()),
            (Fmt::Json, format!("{{\"c\": {}}}", "9".repeat(d.max(400)))),
            (Fmt::Json, format!("{{\"c\": 0.{}1e-5000}}", "0".repeat(d))),
            (Fmt::Yaml, format!("c: {}\n", "9".repeat(d.max(400)))),
            (Fmt::Json, format!("{{\"{}\": 1}}", "k".repeat(d))),
        ];
        for (f, t) in &list {
            let t0 = std::time::Instant::now();
            hostile(c, &*v, *f, t.as_bytes(), "a structure bomb")?;
            c.max("slowest_bomb_s", t0.elapsed().as_secs_f64());
            c.count("bombs", 1);
            c.distinct(&format!("{} {f:?} {}", v.name(), crate::rng::hash_str(t)));
        }
        // every aligned eight bytes of the binary form made a huge length
        let b = v.enc(Fmt::Bin);
        for k in 0..b.len().saturating_sub(7).min(400) {
            for x in [u64::MAX, 1 << 40, u64::MAX / 8 + 1] {
                let mut m = b.clone();
                m[k..k + 8].copy_from_slice(&x.to_le_bytes());
                hostile(c, &*v, Fmt::Bin, &m, "a huge length")?;
                c.count("huge_lengths", 1);
            }
        }
        Ok(())
    });
    // the file system
    let fs = format!("{dir}/fs");
    ctx.cases("files", ctx.n(500, 5000), |c| {
        let root = format!("{fs}-{}", c.idx);
        let sub = format!("{root}/sub");
        let he = |e: std::io::Error| format!("{}{e}", crate::ctx::HARNESS);
        std::fs::create_dir_all(&sub).map_err(he)?;
        let v = any_thing(&mut c.rng, systems, &shipped, gen);
        c.desc = v.name();
        // names whose suffix is not supported; some exist already
        let bad = ["x", "x.yml", "x.bincode", "x.bin", "x.txt", "x.json.bak", "x.yaml~", "x.", ".json", ".yaml", "json", "yaml", "xjson", "x.jso", "x.jsonl", "x.yaml.", "x.json ", "x. json", "x.toml", "json.x", "sub", "x.js\u{00f6}n", "a.json/x", "x.yaml.gz", "x.csv", ""];
        for b in bad {
            let p = format!("{sub}/{b}");
            let existed = c.rng.bool(0.5) && b != "sub" && !b.is_empty() && !b.contains('/');
            if existed {
                // valid contents which a mistaken reader would accept
                let f = if c.rng.bool(0.5) { Fmt::Json } else { Fmt::Yaml };
                std::fs::write(&p, v.enc(f)).map_err(he)?;
            }
            let before = listing(&root);
            let r = guarded(|| v.out_file(&p)).map_err(|m| format!("writing {} to {b:?} panicked: {m}", v.name()))?;
            ensure!(r.is_err(), "writing {} to {b:?} (unsupported suffix) is reported as success", v.name());
            ensure!(listing(&root) == before, "writing {} to {b:?} (unsupported suffix) changed files", v.name());
            let r = guarded(|| v.in_file(&p).is_ok()).map_err(|m| format!("reading {} from {b:?} panicked: {m}", v.name()))?;
            ensure!(!r, "reading {} from {b:?} (unsupported suffix) succeeds", v.name());
            ensure!(listing(&root) == before, "reading {} from {b:?} changed files", v.name());
            c.count("unsupported_suffixes", 1);
            c.count("unsupported_suffixes_existing", existed as u64);
        }
        for ext in ["json", "yaml"] {
            std::fs::write(format!("{root}/plain"), b"x").map_err(he)?;
            let _ = std::os::unix::fs::symlink(format!("{root}/loop.{ext}"), format!("{root}/loop.{ext}"));
            let _ = std::fs::create_dir_all(format!("{root}/dir.{ext}"));
            let dests = [
                format!("{root}/missing/x.{ext}"),
                format!("{root}/plain/x.{ext}"),
                format!("{root}/dir.{ext}"),
                format!("{root}/loop.{ext}"),
                format!("{root}/{}.{ext}", "n".repeat(300)),
                format!("{root}/nul\0.{ext}"),
            ];
            let before = listing(&root);
            for p in &dests {
                let r = guarded(|| v.out_file(p)).map_err(|m| format!("writing {} to {p:?} panicked: {m}", v.name()))?;
                ensure!(r.is_err(), "writing {} to the impossible {p:?} is reported as success", v.name());
                let r = guarded(|| v.in_file(p).is_ok()).map_err(|m| format!("reading {} from {p:?} panicked: {m}", v.name()))?;
                ensure!(!r, "reading {} from the impossible {p:?} succeeds", v.name());
                c.count("impossible_files", 2);
            }
            ensure!(listing(&root) == before, "failed reads and writes of {} changed files", v.name());
            // missing, empty, not text
            let p = format!("{root}/gone.{ext}");
            ensure!(!guarded(|| v.in_file(&p).is_ok()).map_err(|m| format!("reading a missing file panicked: {m}"))?, "reading a missing file succeeds");
            ensure!(std::fs::metadata(&p).is_err(), "reading a missing file created it");
            std::fs::write(&p, b"").map_err(he)?;
            ensure!(!guarded(|| v.in_file(&p).is_ok()).map_err(|m| format!("reading an empty file panicked: {m}"))?, "{} is read from an empty file", v.name());
            std::fs::write(&p, [0xff, 0xfe, 0x00, 0xc3, 0x28]).map_err(he)?;
            ensure!(!guarded(|| v.in_file(&p).is_ok()).map_err(|m| format!("reading a binary file panicked: {m}"))?, "{} is read from binary junk", v.name());
            c.count("unreadable_files", 3);
            // a full device
            let p = format!("{root}/full.{ext}");
            if std::os::unix::fs::symlink("/dev/full", &p).is_ok() && std::fs::write("/dev/full", b"x").is_err() {
                let r = guarded(|| v.out_file(&p)).map_err(|m| format!("writing {} to a full device panicked: {m}", v.name()))?;
                ensure!(r.is_err(), "writing {} to a full device is reported as success", v.name());
                c.count("full_device", 1);
            }
        }
        let _ = std::fs::remove_dir_all(&root);
        c.distinct(&v.dbg());
        Ok(())
    });
    // writes which fail after a number of bytes (file size limit)
    ctx.cases("partial_writes", 1, |c| {
        let he = |e: std::io::Error| format!("{}{e}", crate::ctx::HARNESS);
        let n = if c.thorough { 60 } else { 16 };
        for k in 0..n {
            let v = any_thing(&mut c.rng, systems, &shipped, gen);
            for (f, ext) in [(Fmt::Json, "json"), (Fmt::Yaml, "yaml")] {
                let p = format!("{dir}/limit{k}.{ext}");
                v.out_file(&p).map_err(|e| format!("writing {p}: {e}"))?;
                let len = std::fs::metadata(&p).map_err(he)?.len();
                let whole = std::fs::read(&p).map_err(he)?;
                let step = (len / 60).max(1);
                let mut cuts: Vec<u64> = (0..len).step_by(step as usize).collect();
                cuts.extend([len - 1, len.saturating_sub(2)]);
                for lim in cuts {
                    let _ = std::fs::remove_file(&p);
                    let mut old = [0u64; 2];
                    // SAFETY: plain system calls on local memory
                    let r = unsafe {
                        signal(SIGXFSZ, 1);
                        getrlimit(RLIMIT_FSIZE, &mut old);
                        setrlimit(RLIMIT_FSIZE, &[lim, old[1]]);
                        let r = guarded(|| v.out_file(&p));
                        setrlimit(RLIMIT_FSIZE, &old);
                        r
                    };
                    let r = r.map_err(|m| format!("writing {} with a file size limit of {lim} panicked: {m}", v.name()))?;
                    ensure!(r.is_err(), "writing {} ({len} bytes of {f:?}) failed after {lim} bytes but is reported as success; the file has {} bytes", v.name(), std::fs::metadata(&p).map(|m| m.len()).unwrap_or(0));
                    c.count("writes_cut_short", 1);
                    // and the next write, without limit, is whole again
                    if lim % 7 == 0 {
                        v.out_file(&p).map_err(|e| format!("writing {p} after a failure: {e}"))?;
                        ensure!(std::fs::read(&p).map_err(he)? == whole, "the file written after a failed write differs");
                    }
                }
                let _ = std::fs::remove_file(&p);
            }
            c.distinct(&v.dbg());
        }
        Ok(())
    });
    let _ = std::fs::remove_dir_all(&dir);
    ctx.require("hostile_rejected", 1000);
    ctx.require("hostile_accepted", 100);
    ctx.require("prefixes_Json", 1000);
    ctx.require("prefixes_Bin", 1000);
    ctx.require("unsupported_suffixes_existing", 500);
    ctx.require("impossible_files", 500);
    ctx.require("full_device", 50);
    ctx.require("writes_cut_short", 500);
    ctx.require("huge_lengths", 500);
}
