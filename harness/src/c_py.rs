//! Reference for C21: `__pyref SEED N OUT` writes scenarios, inputs and the results which the Rust
//! library gives for them; the Python driver repeats them through the extension module.
use crate::c_hist::HistState;
use crate::ctx::guarded;
use crate::net::AnyRand;
use crate::rng::{mix, Rng};
use dess::prelude::*;
use dess::solver::SolverState;
use dess_examples::components::*;
use dess_examples::three_thermal_mass_sys::System3TM;
use dess_examples::three_thrml_mass_w_bc_sys::System3TMWithBC;
use serde_json::{json, Value};

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn fl(x: f64) -> Value {
    json!({"f": format!("{:016x}", x.to_bits())})
}

/// what Python code is to see
pub trait PyDump {
    fn d(&self) -> Value;
}
impl PyDump for f64 {
    fn d(&self) -> Value {
        fl(*self)
    }
}
macro_rules! plain {
    ($($t:ty),*) => { $(impl PyDump for $t { fn d(&self) -> Value { json!(self) } })* };
}
plain!(u8, usize, bool);
impl<T: PyDump> PyDump for Option<T> {
    fn d(&self) -> Value {
        self.as_ref().map(|v| v.d()).unwrap_or(Value::Null)
    }
}
impl<T: PyDump> PyDump for Vec<T> {
    fn d(&self) -> Value {
        Value::Array(self.iter().map(|v| v.d()).collect())
    }
}
macro_rules! dump {
    ($t:ident; $($f:ident),*; $s:ident => {$($m:ident: $e:expr),*}; {$($p:ident: $pe:expr),*}) => {
        impl PyDump for $t {
            fn d(&self) -> Value {
                let $s = self;
                json!({"s": stringify!($t),
                    "a": {$(stringify!($f): $s.$f.d(),)* $(stringify!($p): $pe),*},
                    "m": {$(stringify!($m): $e),*}})
            }
        }
    };
}
dump!(ThermalMassState; temp, dtemp; s => {}; {});
dump!(ConductanceState; q; s => {}; {});
dump!(SystemState; i, time; s => {}; {});
dump!(SolverState; dt, n_iter, norm_err, norm_err_rel, t_curr, states; s => {}; {});
dump!(ThermalMassStateHistoryVec; temp, dtemp; s => {len: json!(s.temp.len())}; {});
dump!(ConductanceStateHistoryVec; q; s => {len: json!(s.q.len())}; {});
dump!(SystemStateHistoryVec; i, time; s => {len: json!(s.i.len())}; {});
dump!(SolverStateHistoryVec; dt, n_iter, norm_err, norm_err_rel, t_curr, states; s => {len: json!(s.dt.len())}; {});
dump!(ThermalMass; c, state, history; s => {}; {});
dump!(ThermalReservoir; state, history; s => {}; {});
dump!(Conductance; h, state, history; s => {}; {});
dump!(AdaptiveSolverConfig; dt_max, max_iter, atol, rtol, save, save_states, state, history;
    s => {dt_mean: s.dt_mean().d()}; {});
fn conf(t: &SolverTypes) -> Value {
    match t {
        SolverTypes::RK23BogackiShampine(c) | SolverTypes::RK45CashKarp(c) => c.d(),
        _ => Value::Null,
    }
}
dump!(System3TM; m1, m2, h12, m3, h23, t_report, state, history; s => {};
    {solver_conf: conf(&s.solver_type), solver_type: json!(s.solver_type.to_json())});
dump!(System3TMWithBC; m1, m2, h12, m3, h23, t_report, state, history; s => {};
    {solver_conf: conf(&s.solver_type), solver_type: json!(s.solver_type.to_json())});

/// attributes, methods and encodings
fn full<T: PyDump + SerdeAPI>(v: &T) -> Value {
    let mut d = v.d();
    d["e"] = json!({"json": v.to_json(), "yaml": v.to_yaml(), "bincode": hex(&v.to_bincode())});
    d
}

fn nice(r: &mut Rng) -> f64 {
    // decoded exactly from JSON
    loop {
        let x = match r.below(3) {
            0 => r.int(1, 400) as f64 / 64.,
            1 => r.int(1, 2000) as f64 / 1000.,
            _ => 2f64.powi(r.int(0, 8) as i32 - 6),
        };
        if serde_json::from_str::<f64>(&format!("{x:?}")).ok() == Some(x) {
            return x;
        }
    }
}

struct Parts {
    solver: SolverTypes,
    how: &'static str,
    conf_args: Value,
    text: String,
    masses: [(f64, f64); 3],
    cond: [f64; 2],
    report: Vec<f64>,
}

fn parts(r: &mut Rng) -> Parts {
    let hostile = r.bool(0.1);
    let span = r.f(0.2, 2.);
    let mut report: Vec<f64> = match r.below(5) {
        0 => vec![span],
        1 => vec![0., span / 3., span],
        _ => {
            let n = r.int(2, 12);
            let mut v: Vec<f64> = (0..n).map(|_| r.f(0., span)).collect();
            v.sort_by(|a, b| a.partial_cmp(b).unwrap());
            if r.bool(0.5) {
                v[0] = 0.;
            }
            v
        }
    };
    report.dedup();
    if r.bool(0.05) {
        report = vec![-2., -1.];
    }
    let kind = r.below(7);
    let mut dt = nice(r).max(0.01);
    if r.bool(0.5) {
        dt = loop {
            let d = dt * span * r.f(0.02, 0.4);
            if d > 1e-3 && serde_json::from_str::<f64>(&format!("{d:?}")).ok() == Some(d) {
                break d;
            }
            dt = dt.max(0.5);
        };
    }
    let exact = r.bool(0.5);
    let val = |r: &mut Rng, lo: f64, hi: f64| if exact { 2f64.powi(r.f(lo.log2(), hi.log2()).round() as i32) } else { r.logf(lo, hi) };
    let save = r.bool(0.5);
    let cfg = AdaptiveSolverConfig {
        dt_max: val(r, 0.05, 4.),
        max_iter: *r.pick(&[0u8, 1, 2, 3, 5, 20, 255]),
        rtol: val(r, if save { 1e-3 } else { 1e-5 }, 0.1),
        atol: val(r, if save { 1e-5 } else { 1e-8 }, 1e-2),
        save,
        save_states: r.bool(0.5),
        state: SolverState { dt: val(r, 0.01, 2.), ..Default::default() },
        history: Default::default(),
    };
    let conf_args = json!({
        "dt_init": fl(cfg.state.dt), "dt_max": fl(cfg.dt_max), "max_iter": cfg.max_iter,
        "rtol": fl(cfg.rtol), "atol": fl(cfg.atol), "save": cfg.save, "save_states": cfg.save_states,
        // leaving out what is the default
        "short": r.bool(0.5), "keywords": r.bool(0.5),
    });
    let (solver, how) = match kind {
        0 => (SolverTypes::EulerFixed { dt }, "new"),
        1 => (SolverTypes::HeunsMethod { dt }, "new"),
        2 => (SolverTypes::MidpointMethod { dt }, "new"),
        3 => (SolverTypes::RalstonsMethod { dt }, "new"),
        4 => (SolverTypes::RK4Fixed { dt }, "new"),
        5 => (SolverTypes::RK23BogackiShampine(Box::new(cfg)), if exact && r.bool(0.4) { "new" } else { "new_rk23_bogacki_shampine" }),
        _ => (SolverTypes::RK45CashKarp(Box::new(cfg)), if exact && r.bool(0.4) { "new" } else { "new_rk45_cash_karp" }),
    };
    // written by hand
    let text = match &solver {
        SolverTypes::EulerFixed { dt } => format!("{{\"EulerFixed\": {{\"dt\": {dt:?}}}}}"),
        SolverTypes::HeunsMethod { dt } => format!("{{\"HeunsMethod\": {{\"dt\": {dt:?}}}}}"),
        SolverTypes::MidpointMethod { dt } => format!("{{\"MidpointMethod\": {{\"dt\": {dt:?}}}}}"),
        SolverTypes::RalstonsMethod { dt } => format!("{{\"RalstonsMethod\": {{\"dt\": {dt:?}}}}}"),
        SolverTypes::RK4Fixed { dt } => format!("{{\"RK4Fixed\": {{\"dt\": {dt:?}}}}}"),
        SolverTypes::RK23BogackiShampine(_) => format!("{{\"RK23BogackiShampine\": {}}}", conf_text(&solver)),
        SolverTypes::RK45CashKarp(_) => format!("{{\"RK45CashKarp\": {}}}", conf_text(&solver)),
    };
    // reading JSON may lose the last bits of a number, in Rust as in Python (a listed finding of C16)
    let numbers = |s: &SolverTypes| match s {
        SolverTypes::EulerFixed { dt }
        | SolverTypes::HeunsMethod { dt }
        | SolverTypes::MidpointMethod { dt }
        | SolverTypes::RalstonsMethod { dt }
        | SolverTypes::RK4Fixed { dt } => vec![*dt],
        SolverTypes::RK23BogackiShampine(c) | SolverTypes::RK45CashKarp(c) => vec![c.dt_max, c.rtol, c.atol, c.state.dt],
    };
    let solver = match (how, serde_json::from_str::<SolverTypes>(&text)) {
        ("new", Ok(read)) if numbers(&read).iter().zip(numbers(&solver)).all(|(a, b)| (a - b).abs() <= 1e-14 * b.abs()) => read,
        _ => solver,
    };
    let odd = |r: &mut Rng, x: f64| if hostile && kind < 5 { *r.pick(&[x, f64::NAN, f64::INFINITY, -1., 0., 1e308, 5e-324]) } else { x };
    let mass = |r: &mut Rng| {
        let (a, b) = (r.logf(0.3, 10.), r.f(-20., 80.));
        (odd(r, a), odd(r, b))
    };
    Parts {
        masses: [mass(r), mass(r), mass(r)],
        cond: [r.f(0., 6.), r.f(0., 6.)],
        solver,
        how,
        conf_args,
        text,
        report,
    }
}
fn conf_text(s: &SolverTypes) -> String {
    let (SolverTypes::RK23BogackiShampine(c) | SolverTypes::RK45CashKarp(c)) = s else { unreachable!() };
    format!(
        "{{\"dt_max\": {:?}, \"max_iter\": {}, \"atol\": {:?}, \"rtol\": {:?}, \"save\": {}, \"save_states\": {}, \"state\": {{\"dt\": {:?}, \"n_iter\": 0, \"norm_err\": null, \"norm_err_rel\": null, \"t_curr\": 0.0, \"states\": []}}, \"history\": {{\"dt\": [], \"n_iter\": [], \"norm_err\": [], \"norm_err_rel\": [], \"t_curr\": [], \"states\": []}}}}",
        c.dt_max, c.max_iter, c.atol, c.rtol, c.save, c.save_states, c.state.dt
    )
}

macro_rules! scenario {
    ($r:expr, $sys:ident, $first:ident, $m1:expr, $m1_args:expr) => {{
        let r: &mut Rng = $r;
        let p = parts(r);
        let mass = |k: usize| ThermalMass { c: p.masses[k].0, state: ThermalMassState { temp: p.masses[k].1, dtemp: 0. }, history: Default::default() };
        let cond = |k: usize| Conductance { h: p.cond[k], state: ConductanceState { q: 0. }, history: Default::default() };
        let m1: $first = $m1(&p);
        let (m2, m3, h12, h23) = (mass(1), mass(2), cond(0), cond(1));
        let inputs = json!({"m1": m1.d(), "m2": m2.d(), "h12": h12.d(), "m3": m3.d(), "h23": h23.d()});
        let mut s = $sys {
            solver_type: p.solver.clone(),
            m1, m2, h12, m3, h23,
            t_report: p.report.clone(),
            state: Default::default(),
            history: Default::default(),
        };
        let mut ops = vec![json!({"op": "look", "want": full(&s)})];
        for _ in 0..r.int(1, 5) {
            let op = match r.below(9) {
                0 | 1 | 2 => {
                    s.walk();
                    json!({"op": "walk"})
                }
                3 => {
                    let how = *r.pick(&["copy", "deepcopy", "clone"]);
                    json!({"op": "copy", "how": how})
                }
                4 => {
                    // the copy walks, the original does not
                    let mut t = s.clone();
                    t.walk();
                    json!({"op": "walk_copy", "how": *r.pick(&["copy", "deepcopy", "clone"]), "copy": full(&t)})
                }
                k => {
                    let fmt = ["json", "yaml", "bincode", "file.json", "file.yaml"][(k - 5 + r.below(5)) % 5];
                    let back = match fmt {
                        "json" | "file.json" => $sys::from_json(&s.to_json()),
                        "yaml" | "file.yaml" => $sys::from_yaml(&s.to_yaml()),
                        _ => $sys::from_bincode(&s.to_bincode()),
                    };
                    match back {
                        Ok(b) => {
                            s = b;
                            json!({"op": "round", "fmt": fmt})
                        }
                        Err(_) => json!({"op": "round", "fmt": fmt, "fails": true}),
                    }
                }
            };
            let mut op = op;
            op["want"] = full(&s);
            ops.push(op);
        }
        json!({
            "class": stringify!($sys), "how": p.how, "solver_type": p.text, "conf": p.conf_args,
            "args": {
                "m1": $m1_args(&p), "m2": ["ThermalMass", {"c": fl(p.masses[1].0), "temp0": fl(p.masses[1].1)}],
                "h12": ["Conductance", {"h": fl(p.cond[0])}],
                "m3": ["ThermalMass", {"c": fl(p.masses[2].0), "temp0": fl(p.masses[2].1)}],
                "h23": ["Conductance", {"h": fl(p.cond[1])}],
            },
            "report": p.report.iter().map(|t| fl(*t)).collect::<Vec<_>>(),
            "report_as": *r.pick(&["list", "tuple", "array"]),
            "inputs": inputs, "ops": ops,
        })
    }};
}

fn decode_case<T: PyDump + SerdeAPI>(r: &mut Rng, class: &str, v: T, dir: &str) -> Value {
    let fmt = *r.pick(&["json", "yaml", "bincode"]);
    let mut data = match fmt {
        "json" => v.to_json().into_bytes(),
        "yaml" => v.to_yaml().into_bytes(),
        _ => v.to_bincode(),
    };
    for _ in 0..r.below(4) {
        match r.below(4) {
            0 => data.truncate(r.below(data.len() + 1)),
            1 if !data.is_empty() => {
                let k = r.below(data.len());
                data[k] = *r.pick(&[0u8, b'0', b'9', b'-', b'"', b'{', b'}', b',', b' ', b'\n', 0xFF, 1]);
            }
            2 if !data.is_empty() => {
                let k = r.below(data.len());
                data.remove(k);
            }
            _ => {
                let k = r.below(data.len() + 1);
                data.insert(k, *r.pick(&[b'1', b'e', b'-', b':', b'[', b']', b'n', b'~']));
            }
        }
    }
    let file = fmt != "bincode" && r.bool(0.3);
    let got: Result<T, String> = match (fmt, std::str::from_utf8(&data)) {
        ("bincode", _) => T::from_bincode(&data).map_err(|e| e.to_string()),
        _ if file => {
            let p = format!("{dir}/decode.{fmt}");
            std::fs::write(&p, &data).unwrap();
            T::from_file(&p).map_err(|e| e.to_string())
        }
        (_, Err(e)) => Err(e.to_string()),
        ("json", Ok(t)) => T::from_json(t).map_err(|e| e.to_string()),
        (_, Ok(t)) => T::from_yaml(t).map_err(|e| e.to_string()),
    };
    json!({"class": class, "fmt": fmt, "file": file, "data": hex(&data), "want": got.ok().map(|v| full(&v)).unwrap_or(Value::Null)})
}

fn hist<T: HistState>(r: &mut Rng) -> T::Hist {
    let mut h = T::h_new();
    for _ in 0..r.below(6) {
        T::h_push(&mut h, T::any_rand(r));
    }
    h
}

fn decode(r: &mut Rng, dir: &str) -> Value {
    let mass = |r: &mut Rng| ThermalMass { c: AnyRand::any_rand(r), state: AnyRand::any_rand(r), history: hist::<ThermalMassState>(r) };
    let cond = |r: &mut Rng| Conductance { h: AnyRand::any_rand(r), state: AnyRand::any_rand(r), history: hist::<ConductanceState>(r) };
    match r.below(13) {
        0 => { let v = mass(r); decode_case(r, "ThermalMass", v, dir) }
        1 => { let v = ThermalReservoir { state: AnyRand::any_rand(r), history: hist::<ThermalMassState>(r) }; decode_case(r, "ThermalReservoir", v, dir) }
        2 => { let v = cond(r); decode_case(r, "Conductance", v, dir) }
        3 => { let v: ThermalMassState = AnyRand::any_rand(r); decode_case(r, "ThermalMassState", v, dir) }
        4 => { let v: ConductanceState = AnyRand::any_rand(r); decode_case(r, "ConductanceState", v, dir) }
        5 => { let v: SystemState = AnyRand::any_rand(r); decode_case(r, "SystemState", v, dir) }
        6 => { let v: SolverState = AnyRand::any_rand(r); decode_case(r, "SolverState", v, dir) }
        7 => { let v = hist::<ThermalMassState>(r); decode_case(r, "ThermalMassStateHistoryVec", v, dir) }
        8 => { let v = hist::<ConductanceState>(r); decode_case(r, "ConductanceStateHistoryVec", v, dir) }
        9 => { let v = hist::<SystemState>(r); decode_case(r, "SystemStateHistoryVec", v, dir) }
        10 => { let v = hist::<SolverState>(r); decode_case(r, "SolverStateHistoryVec", v, dir) }
        11 => { let v = crate::c_serde::random_config(r); decode_case(r, "AdaptiveSolverConfig", v, dir) }
        _ => {
            let v = System3TM {
                solver_type: crate::c_serde::random_solver(r), m1: mass(r), m2: mass(r), h12: cond(r), m3: mass(r), h23: cond(r),
                t_report: (0..r.below(4)).map(|_| AnyRand::any_rand(r)).collect(),
                state: AnyRand::any_rand(r), history: hist::<SystemState>(r),
            };
            decode_case(r, "System3TM", v, dir)
        }
    }
}

pub fn pyref(args: &[String]) {
    let seed: u64 = args[0].parse().unwrap();
    let n: usize = args[1].parse().unwrap();
    let out = &args[2];
    let mut scenarios = vec![];
    for k in 0..n {
        let mut r = Rng::new(mix(seed, 0xC21_0000 + k as u64));
        let one = guarded(|| {
            if k % 2 == 0 {
                scenario!(&mut r, System3TM, ThermalMass,
                    |p: &Parts| ThermalMass { c: p.masses[0].0, state: ThermalMassState { temp: p.masses[0].1, dtemp: 0. }, history: Default::default() },
                    |p: &Parts| json!(["ThermalMass", {"c": fl(p.masses[0].0), "temp0": fl(p.masses[0].1)}]))
            } else {
                scenario!(&mut r, System3TMWithBC, ThermalReservoir,
                    |p: &Parts| ThermalReservoir { state: ThermalMassState { temp: p.masses[0].1, dtemp: 0. }, history: Default::default() },
                    |p: &Parts| json!(["ThermalReservoir", {"temp0": fl(p.masses[0].1)}]))
            }
        });
        match one {
            Ok(v) => scenarios.push(v),
            Err(e) => panic!("scenario {k}: {e}"),
        }
    }
    let mut r = Rng::new(mix(seed, 0xC21));
    let decodes: Vec<Value> = (0..n * 4).map(|_| decode(&mut r, out)).collect();
    let defaults = json!({
        "ThermalMass": full(&ThermalMass::default()), "ThermalReservoir": full(&ThermalReservoir::default()),
        "Conductance": full(&Conductance::default()), "ThermalMassState": full(&ThermalMassState::default()),
        "ConductanceState": full(&ConductanceState::default()), "SystemState": full(&SystemState::default()),
        "SolverState": full(&SolverState::default()), "AdaptiveSolverConfig": full(&AdaptiveSolverConfig::default()),
        "ThermalMassStateHistoryVec": full(&ThermalMassStateHistoryVec::default()),
        "ConductanceStateHistoryVec": full(&ConductanceStateHistoryVec::default()),
        "SystemStateHistoryVec": full(&SystemStateHistoryVec::default()),
        "SolverStateHistoryVec": full(&SolverStateHistoryVec::default()),
        "System3TM": full(&System3TM::default()), "System3TMWithBC": full(&System3TMWithBC::default()),
    });
    let all = json!({"scenarios": scenarios, "decodes": decodes, "defaults": defaults});
    std::fs::write(format!("{out}/plan.json"), serde_json::to_string(&all).unwrap()).unwrap();
}
