//! Harness-defined systems with arbitrary right-hand sides (the user's side of the library's API).
use crate::rk;
use crate::rng::Rng;
use crate::trace;
use dess::prelude::*;
use serde::{Deserialize, Serialize};

/// a family of right-hand sides, selected by `kind` and parameterised by `p`
#[derive(Debug, Clone, PartialEq, PartialOrd, Serialize, Deserialize, Default)]
pub struct Rhs {
    pub kind: u8,
    pub n: usize,
    pub p: Vec<f64>,
}

/// the units a system computes in: powers of two, which every operation of a correct solver carries through
/// exactly. Everything outside the system (right-hand side, oracles, [Ode]) is in units of one, so that a
/// system in other units must be indistinguishable.
#[derive(Debug, Clone, PartialEq, PartialOrd, Serialize, Deserialize)]
pub struct Units {
    /// of time
    pub t: f64,
    /// of the states
    pub y: f64,
}

impl Default for Units {
    fn default() -> Self {
        Units { t: 1., y: 1. }
    }
}

impl Units {
    /// chosen by the contents of a run, so that a case is reproducible
    fn choose(rhs: &Rhs, y0: &[f64], t0: f64) -> Units {
        // overflow and underflow depend on units
        let delicate = match rhs.kind {
            BLOWUP | EXPGROW | PULSE => true,
            CONST => rhs.p.iter().any(|x| !(x.abs() < 1e100 && (x.abs() > 1e-100 || *x == 0.))),
            _ => false,
        };
        if delicate || std::env::var("VERIF_UNITS").is_ok() {
            return Units::default();
        }
        let mut r = Rng::new(crate::rng::hash_str(&format!("{rhs:?} {y0:?} {t0:?}")));
        let mut unit = || if r.bool(0.45) { 1. } else { 2f64.powi(r.int(0, 48) as i32 - 24) };
        Units { t: unit(), y: unit() }
    }
    /// `back`: from these units to units of one
    pub fn solver(&self, s: &SolverTypes, back: bool) -> SolverTypes {
        let (t, y) = if back { (1. / self.t, 1. / self.y) } else { (self.t, self.y) };
        let mut s = s.clone();
        if t == 1. && y == 1. {
            return s;
        }
        match &mut s {
            SolverTypes::EulerFixed { dt }
            | SolverTypes::HeunsMethod { dt }
            | SolverTypes::MidpointMethod { dt }
            | SolverTypes::RalstonsMethod { dt }
            | SolverTypes::RK4Fixed { dt } => *dt *= t,
            SolverTypes::RK23BogackiShampine(sc) | SolverTypes::RK45CashKarp(sc) => {
                sc.dt_max *= t;
                sc.atol *= y;
                sc.state.dt *= t;
                sc.state.t_curr *= t;
                sc.state.norm_err.iter_mut().for_each(|e| *e *= y);
                sc.state.states.iter_mut().for_each(|x| *x *= y);
                let h = &mut sc.history;
                h.dt.iter_mut().for_each(|x| *x *= t);
                h.t_curr.iter_mut().for_each(|x| *x *= t);
                h.norm_err.iter_mut().flatten().for_each(|x| *x *= y);
                h.states.iter_mut().flatten().for_each(|x| *x *= y);
            }
        }
        s
    }
}

pub const LINEAR: u8 = 1;
pub const TRIG: u8 = 2;
pub const QUADRATIC: u8 = 3;
pub const QUADRATURE: u8 = 4;
pub const LOTKA: u8 = 5;
pub const DECAY: u8 = 6;
pub const JUMP: u8 = 7;
pub const SIGN: u8 = 8;
pub const NANAT: u8 = 9;
pub const BLOWUP: u8 = 10;
pub const CONST: u8 = 11;
pub const EXPGROW: u8 = 12;
pub const OSC: u8 = 13;
pub const DORMANT: u8 = 14;
pub const PULSE: u8 = 15;
pub const FORCED: u8 = 21;
pub const LOGISTIC: u8 = 22;
pub const COSGROW: u8 = 23;
pub const RATIONAL: u8 = 25;
/// defined for non-negative states only
pub const ROOT: u8 = 26;
/// defined for positive states only
pub const LOGD: u8 = 27;

impl Rhs {
    pub fn eval(&self, t: f64, y: &[f64]) -> Vec<f64> {
        let n = self.n;
        let p = &self.p;
        match self.kind {
            0 => vec![0.; n],
            LINEAR => (0..n)
                .map(|i| {
                    let row = &p[i * (n + 4)..(i + 1) * (n + 4)];
                    let mut s = 0.;
                    for j in 0..n {
                        s += row[j] * y[j];
                    }
                    s + row[n] * (row[n + 1] * t + row[n + 2]).sin() + row[n + 3] * t
                })
                .collect(),
            TRIG => (0..n)
                .map(|i| {
                    let row = &p[i * (n + 5)..(i + 1) * (n + 5)];
                    let mut s = 0.;
                    for j in 0..n {
                        s += row[j] * y[j];
                    }
                    row[n] * (s + row[n + 1] * t + row[n + 2]).sin() + row[n + 3] * (row[n + 4] * t).cos()
                })
                .collect(),
            QUADRATIC => (0..n)
                .map(|i| {
                    let row = &p[i * (n + 2)..(i + 1) * (n + 2)];
                    let mut s = row[n] * t * t + row[n + 1];
                    for j in 0..n {
                        s += row[j] * y[i] * y[j];
                    }
                    s
                })
                .collect(),
            QUADRATURE => (0..n)
                .map(|i| {
                    let row = &p[i * 4..(i + 1) * 4];
                    row[0] * (row[1] * t + row[2]).cos() + row[3] * t * t
                })
                .collect(),
            LOTKA => (0..n)
                .map(|i| {
                    let row = &p[i * (n + 1)..(i + 1) * (n + 1)];
                    let mut s = row[n];
                    for j in 0..n {
                        s -= row[j] * y[j];
                    }
                    y[i] * s
                })
                .collect(),
            DECAY => (0..n).map(|i| -p[i] * y[i]).collect(),
            JUMP => (0..n).map(|i| -y[i] + if t > p[0] { p[1 + i] } else { 0. }).collect(),
            SIGN => (0..n).map(|i| if y[i] > p[i] { -1. } else { 1. }).collect(),
            NANAT => (0..n).map(|i| if t >= p[0] { f64::NAN } else { -y[i] }).collect(),
            BLOWUP => (0..n).map(|i| y[i] * y[i]).collect(),
            CONST => p[..n].to_vec(),
            EXPGROW => (0..n).map(|i| (p[i] * y[i]).exp()).collect(),
            OSC => (0..n)
                .map(|i| {
                    let w = p[i / 2];
                    if i % 2 == 0 {
                        if i + 1 < n {
                            w * y[i + 1]
                        } else {
                            -w * y[i]
                        }
                    } else {
                        -w * y[i - 1]
                    }
                })
                .collect(),
            DORMANT => (0..n).map(|i| if t > p[0] { -p[1 + i] * y[i] } else { 0. }).collect(),
            PULSE => (0..n)
                .map(|i| -y[i] + p[1 + i] * (-((t - p[0]) / 0.02).powi(2)).exp())
                .collect(),
            // y' = -k (y - cos(w t))
            FORCED => (0..n).map(|i| -p[2 * i] * (y[i] - (p[2 * i + 1] * t).cos())).collect(),
            LOGISTIC => (0..n).map(|i| p[i] * y[i] * (1. - y[i])).collect(),
            COSGROW => (0..n).map(|i| p[i] * y[i] * t.cos()).collect(),
            RATIONAL => (0..n).map(|i| -2. * t * y[i] * y[i]).collect(),
            ROOT => (0..n).map(|i| p[2 * i] * (p[2 * i + 1] - y[i].sqrt())).collect(),
            LOGD => (0..n).map(|i| -p[i] * y[i].ln()).collect(),
            _ => unreachable!(),
        }
    }

    /// smooth, non-trivial right-hand side with Lipschitz constant of order `l`
    pub fn random_smooth(r: &mut Rng, n: usize, l: f64) -> Rhs {
        let kind = *r.pick(&[LINEAR, LINEAR, TRIG, TRIG, QUADRATIC, QUADRATURE, LOTKA]);
        let per = match kind {
            LINEAR => n + 4,
            TRIG => n + 5,
            QUADRATIC => n + 2,
            QUADRATURE => 4,
            _ => n + 1,
        };
        let mut p = vec![];
        for _ in 0..n {
            for k in 0..per {
                let c = if kind == QUADRATURE || k >= n { r.f(-2., 2.) } else { r.f(-1., 1.) / n as f64 };
                // time frequencies are left unscaled for TRIG arguments
                p.push(match kind {
                    LINEAR => if k == n + 1 || k == n + 2 { c * l.max(0.1) } else { c * l },
                    TRIG => match k {
                        k if k < n => c,
                        k if k == n || k == n + 3 => c * l,
                        _ => c * l.min(3.),
                    },
                    QUADRATURE => if k == 0 || k == 3 { c * l } else { c },
                    _ => c * l,
                });
            }
        }
        Rhs { kind, n, p }
    }
}

/// solver choice in plain data
#[derive(Debug, Clone, PartialEq)]
pub struct Spec {
    pub kind: usize,
    /// fixed step, or initial adaptive step
    pub dt: f64,
    pub dt_max: f64,
    pub max_iter: u8,
    pub atol: f64,
    pub rtol: f64,
    pub save: bool,
    pub save_states: bool,
}

impl Spec {
    pub fn fixed(kind: usize, dt: f64) -> Spec {
        Spec { kind, dt, dt_max: 10., max_iter: 5, atol: 1e-9, rtol: 1e-5, save: false, save_states: false }
    }
    pub fn adaptive(kind: usize) -> Spec {
        Spec::fixed(kind, 0.1)
    }
    pub fn is_adaptive(&self) -> bool {
        self.kind == rk::RK23 || self.kind == rk::RK45
    }
    pub fn build(&self) -> SolverTypes {
        let sc = || {
            Box::new(AdaptiveSolverConfig {
                dt_max: self.dt_max,
                max_iter: self.max_iter,
                atol: self.atol,
                rtol: self.rtol,
                save: self.save,
                save_states: self.save_states,
                state: SolverState { dt: self.dt, ..Default::default() },
                history: Default::default(),
            })
        };
        match self.kind {
            rk::EULER => SolverTypes::EulerFixed { dt: self.dt },
            rk::HEUN => SolverTypes::HeunsMethod { dt: self.dt },
            rk::MIDPOINT => SolverTypes::MidpointMethod { dt: self.dt },
            rk::RALSTON => SolverTypes::RalstonsMethod { dt: self.dt },
            rk::RK4 => SolverTypes::RK4Fixed { dt: self.dt },
            rk::RK23 => SolverTypes::RK23BogackiShampine(sc()),
            rk::RK45 => SolverTypes::RK45CashKarp(sc()),
            _ => unreachable!(),
        }
    }
    /// a random solver for an interval of length about `span` and rates of about `l`
    pub fn random(r: &mut Rng, span: f64, l: f64) -> Spec {
        let kind = r.below(7);
        Spec::random_of(r, kind, span, l)
    }
    pub fn random_of(r: &mut Rng, kind: usize, span: f64, l: f64) -> Spec {
        if kind == rk::RK23 || kind == rk::RK45 {
            Spec {
                kind,
                dt: r.logf(span * 1e-3, span * 3.),
                dt_max: r.logf(span * 1e-2, span * 10.),
                max_iter: *r.pick(&[0, 1, 2, 3, 5, 5, 10, 40, 255]),
                atol: r.logf(1e-12, 1e-4),
                rtol: r.logf(1e-10, 1e-2),
                save: r.bool(0.5),
                save_states: r.bool(0.5),
            }
        } else {
            let dt = match r.below(4) {
                0 => span / r.int(1, 12) as f64,
                1 => span * r.f(1., 20.),
                _ => span * r.f(0.02, 1.0),
            };
            Spec::fixed(kind, dt.min(1.5 / l))
        }
    }
}

/// a history row of a whole system
#[derive(Debug, Clone, PartialEq)]
pub struct Row {
    pub i: usize,
    pub time: f64,
    pub x: Vec<f64>,
    pub dx: Vec<f64>,
}

/// state of a generic node
#[derive(HistoryVec, Copy, Default)]
#[common_derives]
#[pyo3_api]
pub struct NodeState {
    pub x: f64,
    pub dx: f64,
}

/// generic node: one potential with a storage
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
#[pyo3_api]
pub struct Node {
    pub c: f64,
    pub state: NodeState,
    pub history: NodeStateHistoryVec,
}

impl HasState for Node {
    fn state(&self) -> f64 {
        self.state.x
    }
    fn set_state(&mut self, val: f64) {
        self.state.x = val;
    }
    fn deriv(&self) -> f64 {
        self.state.dx
    }
    fn set_deriv(&mut self, val: f64) {
        self.state.dx = val;
    }
    fn storage(&self) -> f64 {
        self.c
    }
}

/// type-erased view of a harness system
pub trait Ode {
    fn n(&self) -> usize;
    fn walk(&mut self);
    fn solve_step(&mut self);
    fn save_state(&mut self);
    fn x(&self) -> Vec<f64>;
    fn dx(&self) -> Vec<f64>;
    fn set_x(&mut self, v: &[f64]);
    fn set_dx(&mut self, v: &[f64]);
    fn time(&self) -> f64;
    fn set_time(&mut self, t: f64);
    fn index(&self) -> usize;
    fn set_index(&mut self, i: usize);
    fn report(&self) -> Vec<f64>;
    fn set_report(&mut self, t: Vec<f64>);
    fn rhs(&self) -> Rhs;
    fn set_solver(&mut self, s: SolverTypes);
    fn solver(&self) -> SolverTypes;
    fn units(&self) -> Units;
    fn set_units(&mut self, u: Units);
    /// length of the system's and of every component's history column
    fn lens(&self) -> Vec<usize>;
    /// history rows, or what is inconsistent about their columns
    fn rows(&self) -> Result<Vec<Row>, String>;
    /// call the solver's public method directly for one step of `h`
    fn direct(&mut self, kind: usize, h: f64);
    fn sc(&self) -> Option<AdaptiveSolverConfig>;
    fn dbg(&self) -> String;
    fn dup(&self) -> Box<dyn Ode>;
    fn bare(&self) -> Box<dyn Ode>;
    fn eq_dyn(&self, other: &dyn Ode) -> bool;
    fn bin(&self) -> Vec<u8>;
    fn unbin(&self, b: &[u8]) -> Result<Box<dyn Ode>, String>;
    fn json(&self) -> String;
    fn unjson(&self, s: &str) -> Result<Box<dyn Ode>, String>;
    fn yaml(&self) -> String;
    fn unyaml(&self, s: &str) -> Result<Box<dyn Ode>, String>;
    fn out_file(&self, path: &str) -> Result<(), String>;
    fn in_file(&self, path: &str) -> Result<Box<dyn Ode>, String>;
    fn clear_histories(&mut self);
}

#[macro_export]
macro_rules! impl_ode_common {
    ($name:ident) => {
        fn walk(&mut self) {
            $name::walk(self)
        }
        fn solve_step(&mut self) {
            $name::solve_step(self)
        }
        fn save_state(&mut self) {
            $name::save_state(self)
        }
        fn time(&self) -> f64 {
            self.state.time / self.units().t
        }
        fn set_time(&mut self, t: f64) {
            self.state.time = t * self.units().t;
        }
        fn index(&self) -> usize {
            self.state.i
        }
        fn set_index(&mut self, i: usize) {
            self.state.i = i;
        }
        fn report(&self) -> Vec<f64> {
            let u = self.units().t;
            self.t_report.iter().map(|t| t / u).collect()
        }
        fn set_report(&mut self, t: Vec<f64>) {
            let u = self.units().t;
            self.t_report = t.iter().map(|t| t * u).collect();
        }
        fn set_solver(&mut self, s: SolverTypes) {
            self.solver_type = self.units().solver(&s, false);
        }
        fn solver(&self) -> SolverTypes {
            self.units().solver(&self.solver_type, true)
        }
        fn direct(&mut self, kind: usize, h: f64) {
            let h = h * self.units().t;
            match kind {
                0 => self.euler(&h),
                1 => self.heun(&h),
                2 => self.midpoint(&h),
                3 => self.ralston(&h),
                4 => {
                    self.rk23_bogacki_shampine(&h);
                }
                5 => self.rk4fixed(&h),
                6 => {
                    self.rk45_cash_karp(&h);
                }
                _ => unreachable!(),
            }
        }
        fn sc(&self) -> Option<AdaptiveSolverConfig> {
            // by direct field access, not through the accessor under test
            match self.solver() {
                SolverTypes::RK23BogackiShampine(sc) | SolverTypes::RK45CashKarp(sc) => Some(*sc),
                _ => None,
            }
        }
        fn dbg(&self) -> String {
            format!("{:?}", self)
        }
        fn dup(&self) -> Box<dyn Ode> {
            Box::new(self.clone())
        }
        fn bare(&self) -> Box<dyn Ode> {
            Box::new(self.bare_clone())
        }
        fn eq_dyn(&self, other: &dyn Ode) -> bool {
            self.dbg() == other.dbg()
        }
        fn bin(&self) -> Vec<u8> {
            self.to_bincode()
        }
        fn unbin(&self, b: &[u8]) -> Result<Box<dyn Ode>, String> {
            Ok(Box::new($name::from_bincode(b).map_err(|e| e.to_string())?))
        }
        fn json(&self) -> String {
            self.to_json()
        }
        fn unjson(&self, s: &str) -> Result<Box<dyn Ode>, String> {
            Ok(Box::new($name::from_json(s).map_err(|e| e.to_string())?))
        }
        fn yaml(&self) -> String {
            self.to_yaml()
        }
        fn unyaml(&self, s: &str) -> Result<Box<dyn Ode>, String> {
            Ok(Box::new($name::from_yaml(s).map_err(|e| e.to_string())?))
        }
        fn out_file(&self, path: &str) -> Result<(), String> {
            self.to_file(path).map_err(|e| e.to_string())
        }
        fn in_file(&self, path: &str) -> Result<Box<dyn Ode>, String> {
            Ok(Box::new($name::from_file(path).map_err(|e| e.to_string())?))
        }
    };
}

macro_rules! ode {
    ($name:ident, $n:expr, $($f:ident $k:expr),+) => {
        #[solver(
            fn update_derivs(&mut self) {
                self.reset_derivs();
                let (tu, yu) = (self.units.t, self.units.y);
                let y = vec![$(self.$f.state.x / yu),+];
                let t = self.state.time / tu;
                trace::eval(t, &y);
                let d = self.rhs.eval(t, &y);
                $(self.$f.state.dx = d[$k] * (yu / tu);)+
            }
        )]
        #[derive(HistoryMethods, BareClone, Default)]
        #[common_derives]
        pub struct $name {
            pub solver_type: SolverTypes,
            $(#[use_state] pub $f: Node,)+
            pub rhs: Rhs,
            pub units: Units,
            pub t_report: Vec<f64>,
            pub state: SystemState,
            pub history: SystemStateHistoryVec,
        }
        impl Ode for $name {
            $crate::impl_ode_common!($name);
            fn n(&self) -> usize { $n }
            fn units(&self) -> Units { self.units.clone() }
            fn set_units(&mut self, u: Units) { self.units = u; }
            fn x(&self) -> Vec<f64> { vec![$(self.$f.state.x / self.units.y),+] }
            fn dx(&self) -> Vec<f64> { vec![$(self.$f.state.dx / (self.units.y / self.units.t)),+] }
            fn set_x(&mut self, v: &[f64]) { $(self.$f.state.x = v[$k] * self.units.y;)+ }
            fn set_dx(&mut self, v: &[f64]) { $(self.$f.state.dx = v[$k] * (self.units.y / self.units.t);)+ }
            fn rhs(&self) -> Rhs { self.rhs.clone() }
            fn lens(&self) -> Vec<usize> {
                let mut v = vec![self.history.i.len(), self.history.time.len()];
                $(v.push(self.$f.history.x.len()); v.push(self.$f.history.dx.len());)+
                v
            }
            fn rows(&self) -> Result<Vec<Row>, String> {
                let l = self.lens();
                if l.iter().any(|k| *k != l[0]) {
                    return Err(format!("history columns have different lengths: {l:?}"));
                }
                Ok((0..l[0]).map(|r| Row {
                    i: self.history.i[r],
                    time: self.history.time[r] / self.units.t,
                    x: vec![$(self.$f.history.x[r] / self.units.y),+],
                    dx: vec![$(self.$f.history.dx[r] / (self.units.y / self.units.t)),+],
                }).collect())
            }
            fn clear_histories(&mut self) {
                self.history = Default::default();
                $(self.$f.history = Default::default();)+
            }
        }
    };
}

ode!(Ode1, 1, n0 0);
ode!(Ode2, 2, n0 0, n1 1);
ode!(Ode3, 3, n0 0, n1 1, n2 2);
ode!(Ode4, 4, n0 0, n1 1, n2 2, n3 3);
ode!(Ode6, 6, n0 0, n1 1, n2 2, n3 3, n4 4, n5 5);
ode!(Ode9, 9, n0 0, n1 1, n2 2, n3 3, n4 4, n5 5, n6 6, n7 7, n8 8);
ode!(Ode17, 17, n0 0, n1 1, n2 2, n3 3, n4 4, n5 5, n6 6, n7 7, n8 8, n9 9, n10 10, n11 11, n12 12,
    n13 13, n14 14, n15 15, n16 16);

pub const SIZES: [usize; 7] = [1, 2, 3, 4, 6, 9, 17];

pub fn make(rhs: &Rhs, y0: &[f64], solver: SolverTypes, t0: f64, report: &[f64]) -> Box<dyn Ode> {
    let mut s: Box<dyn Ode> = match y0.len() {
        1 => Box::new(Ode1 { rhs: rhs.clone(), ..Default::default() }),
        2 => Box::new(Ode2 { rhs: rhs.clone(), ..Default::default() }),
        3 => Box::new(Ode3 { rhs: rhs.clone(), ..Default::default() }),
        4 => Box::new(Ode4 { rhs: rhs.clone(), ..Default::default() }),
        6 => Box::new(Ode6 { rhs: rhs.clone(), ..Default::default() }),
        9 => Box::new(Ode9 { rhs: rhs.clone(), ..Default::default() }),
        17 => Box::new(Ode17 { rhs: rhs.clone(), ..Default::default() }),
        _ => unreachable!(),
    };
    s.set_units(Units::choose(rhs, y0, t0));
    s.set_x(y0);
    s.set_solver(solver);
    s.set_time(t0);
    s.set_report(report.to_vec());
    s
}

/// increasing report list starting at or after `t0`
pub fn random_grid(r: &mut Rng, t0: f64, max_rows: usize) -> Vec<f64> {
    let n = r.int(1, max_rows);
    let mut v = vec![];
    let mut t = t0;
    let style = r.below(5);
    let base = r.logf(1e-3, 1.0);
    if r.bool(0.6) {
        v.push(t0);
    }
    while v.len() < n || v.last() == Some(&t0) {
        let gap = match style {
            0 => base,
            1 => base * r.f(0.05, 2.0),
            2 => base * r.logf(1e-4, 1.0),
            3 => if r.bool(0.3) { base * 1e-7 } else { base },
            _ => 0.1 * r.int(1, 9) as f64 * base,
        };
        let nt = t + gap;
        if nt > t {
            t = nt;
            v.push(t);
        }
    }
    v
}
