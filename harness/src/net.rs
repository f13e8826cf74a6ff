//! Systems of connected components seen through direct field access, next to the derived
//! interface under test; and an independent model of what the derived methods must do.
use crate::rng::Rng;
use crate::sys::*;
use crate::trace;
use dess::prelude::*;
use dess_examples::components::*;
use dess_examples::three_thermal_mass_sys::System3TM;
use dess_examples::three_thrml_mass_w_bc_sys::System3TMWithBC;
use std::fmt::Debug;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    /// stores: integrated from its flows
    Mass,
    /// reservoir which nothing changes
    Fixed,
    /// reservoir whose potential the user's `update_derivs` prescribes as function of time
    Driven(usize),
    /// marked state whose derivative the user's code sets to the flow received by the masses
    /// from reservoirs
    Acc,
}

#[derive(Debug)]
pub struct NodeInfo {
    pub name: &'static str,
    pub kind: Kind,
    /// position in the state vector, if marked `use_state`
    pub state: Option<usize>,
    /// is saved by the system's `save_state`
    pub saved: bool,
}
#[derive(Debug)]
pub struct EdgeInfo {
    pub name: &'static str,
    pub a: usize,
    pub b: usize,
    pub saved: bool,
}
#[derive(Debug)]
pub struct Info {
    pub name: &'static str,
    pub nodes: &'static [NodeInfo],
    pub edges: &'static [EdgeInfo],
    /// node index of each marked state, in declaration order
    pub states: &'static [usize],
    /// nodes with kind Driven or Fixed exist
    pub open: bool,
}

/// prescribed potential number `k` with parameters `p`
pub fn drive(k: usize, t: f64, p: &[f64]) -> f64 {
    let (a, b, w) = (p[0], p[1], p[2]);
    match k % 5 {
        0 => a + b * t,
        1 => a + b * (w * t).sin(),
        2 => a * (-0.3 * t).exp() + b,
        3 => a + 0.1 * b * t * t,
        _ => a + b * (w * t).cos() * (-0.2 * t).exp(),
    }
}

/// what the harness knows about a component type, independent of the derived methods
pub trait Comp: Clone + Debug {
    fn model_save(&mut self);
    fn model_bare(&self) -> Self;
    fn real_bare(&self) -> Self;
    fn real_save(&mut self);
    /// (column name, length) of every history column, nested ones included
    fn lens(&self, path: &str, out: &mut Vec<(String, usize)>);
    /// random contents for everything but histories, which get `rows` random rows
    fn scramble(&mut self, r: &mut Rng, rows: usize);
}
pub trait NodeAcc {
    fn x(&self) -> f64;
    fn set_x(&mut self, v: f64);
    fn dx(&self) -> f64;
    fn set_dx(&mut self, v: f64);
    fn c(&self) -> f64;
    fn set_c(&mut self, v: f64);
    fn hx(&self) -> Vec<f64>;
    fn hdx(&self) -> Vec<f64>;
}
pub trait EdgeAcc {
    fn h(&self) -> f64;
    fn set_h(&mut self, v: f64);
    fn q(&self) -> f64;
    fn set_q(&mut self, v: f64);
    fn hq(&self) -> Vec<f64>;
}

impl Comp for ThermalMass {
    fn model_save(&mut self) {
        self.history.temp.push(self.state.temp);
        self.history.dtemp.push(self.state.dtemp);
    }
    fn model_bare(&self) -> Self {
        ThermalMass { c: self.c, state: self.state, history: ThermalMassStateHistoryVec { temp: vec![], dtemp: vec![] } }
    }
    fn real_bare(&self) -> Self {
        self.bare_clone()
    }
    fn real_save(&mut self) {
        self.save_state()
    }
    fn lens(&self, path: &str, out: &mut Vec<(String, usize)>) {
        out.push((format!("{path}.temp"), self.history.temp.len()));
        out.push((format!("{path}.dtemp"), self.history.dtemp.len()));
    }
    fn scramble(&mut self, r: &mut Rng, rows: usize) {
        for _ in 0..rows {
            self.history.temp.push(r.f(-9., 9.));
            self.history.dtemp.push(r.f(-9., 9.));
        }
        self.c = r.f(0.5, 4.);
        self.state.temp = r.f(-9., 9.);
        self.state.dtemp = r.f(-9., 9.);
    }
}
impl NodeAcc for ThermalMass {
    fn x(&self) -> f64 {
        self.state.temp
    }
    fn set_x(&mut self, v: f64) {
        self.state.temp = v
    }
    fn dx(&self) -> f64 {
        self.state.dtemp
    }
    fn set_dx(&mut self, v: f64) {
        self.state.dtemp = v
    }
    fn c(&self) -> f64 {
        self.c
    }
    fn set_c(&mut self, v: f64) {
        self.c = v
    }
    fn hx(&self) -> Vec<f64> {
        self.history.temp.clone()
    }
    fn hdx(&self) -> Vec<f64> {
        self.history.dtemp.clone()
    }
}
impl Comp for ThermalReservoir {
    fn model_save(&mut self) {
        self.history.temp.push(self.state.temp);
        self.history.dtemp.push(self.state.dtemp);
    }
    fn model_bare(&self) -> Self {
        ThermalReservoir { state: self.state, history: ThermalMassStateHistoryVec { temp: vec![], dtemp: vec![] } }
    }
    fn real_bare(&self) -> Self {
        self.bare_clone()
    }
    fn real_save(&mut self) {
        self.save_state()
    }
    fn lens(&self, path: &str, out: &mut Vec<(String, usize)>) {
        out.push((format!("{path}.temp"), self.history.temp.len()));
        out.push((format!("{path}.dtemp"), self.history.dtemp.len()));
    }
    fn scramble(&mut self, r: &mut Rng, rows: usize) {
        for _ in 0..rows {
            self.history.temp.push(r.f(-9., 9.));
            self.history.dtemp.push(r.f(-9., 9.));
        }
        self.state.temp = r.f(-9., 9.);
        self.state.dtemp = 0.;
    }
}
impl NodeAcc for ThermalReservoir {
    fn x(&self) -> f64 {
        self.state.temp
    }
    fn set_x(&mut self, v: f64) {
        self.state.temp = v
    }
    fn dx(&self) -> f64 {
        self.state.dtemp
    }
    fn set_dx(&mut self, v: f64) {
        self.state.dtemp = v
    }
    fn c(&self) -> f64 {
        f64::INFINITY
    }
    fn set_c(&mut self, _v: f64) {}
    fn hx(&self) -> Vec<f64> {
        self.history.temp.clone()
    }
    fn hdx(&self) -> Vec<f64> {
        self.history.dtemp.clone()
    }
}
impl Comp for Conductance {
    fn model_save(&mut self) {
        self.history.q.push(self.state.q);
    }
    fn model_bare(&self) -> Self {
        Conductance { h: self.h, state: self.state, history: ConductanceStateHistoryVec { q: vec![] } }
    }
    fn real_bare(&self) -> Self {
        self.bare_clone()
    }
    fn real_save(&mut self) {
        self.save_state()
    }
    fn lens(&self, path: &str, out: &mut Vec<(String, usize)>) {
        out.push((format!("{path}.q"), self.history.q.len()));
    }
    fn scramble(&mut self, r: &mut Rng, rows: usize) {
        for _ in 0..rows {
            self.history.q.push(r.f(-9., 9.));
        }
        self.h = r.f(0.2, 5.);
        self.state.q = r.f(-9., 9.);
    }
}
impl EdgeAcc for Conductance {
    fn h(&self) -> f64 {
        self.h
    }
    fn set_h(&mut self, v: f64) {
        self.h = v
    }
    fn q(&self) -> f64 {
        self.state.q
    }
    fn set_q(&mut self, v: f64) {
        self.state.q = v
    }
    fn hq(&self) -> Vec<f64> {
        self.history.q.clone()
    }
}

/// the derived interface under test (`t_*`) next to direct access and the model
pub trait NetSys: Ode {
    fn info(&self) -> &'static Info;
    fn gx(&self, n: usize) -> f64;
    fn gset_x(&mut self, n: usize, v: f64);
    fn gdx(&self, n: usize) -> f64;
    fn gset_dx(&mut self, n: usize, v: f64);
    fn gc(&self, n: usize) -> f64;
    fn gset_c(&mut self, n: usize, v: f64);
    fn ghx(&self, n: usize) -> Vec<f64>;
    fn ghdx(&self, n: usize) -> Vec<f64>;
    fn gh(&self, e: usize) -> f64;
    fn gset_h(&mut self, e: usize, v: f64);
    fn gq(&self, e: usize) -> f64;
    fn gset_q(&mut self, e: usize, v: f64);
    fn ghq(&self, e: usize) -> Vec<f64>;
    fn row_times(&self) -> Vec<f64>;
    fn row_index(&self) -> Vec<usize>;
    /// potential a driven node must have at time t
    fn driven(&self, n: usize, t: f64) -> f64;
    fn set_drive(&mut self, p: Vec<f64>);

    fn t_states(&self) -> Vec<f64>;
    fn t_set_states(&mut self, v: Vec<f64>);
    fn t_derivs(&self) -> Vec<f64>;
    fn t_set_derivs(&mut self, v: &[f64]);
    fn t_step_states(&mut self, v: Vec<f64>);
    fn t_step_derivs(&mut self, v: Vec<f64>);
    fn t_step_states_by_dt(&mut self, dt: f64);
    fn t_storages(&self) -> Vec<f64>;
    fn t_reset_derivs(&mut self);
    fn t_update_derivs(&mut self);
    fn t_step_time(&mut self, dt: f64);
    fn t_sc(&self) -> Option<AdaptiveSolverConfig>;
    fn t_sc_mut(&mut self) -> Option<&mut AdaptiveSolverConfig>;
    fn t_state(&self) -> SystemState;

    fn model_save(&mut self);
    fn model_bare(&self) -> Box<dyn NetSys>;
    fn real_bare(&self) -> Box<dyn NetSys>;
    fn dup_net(&self) -> Box<dyn NetSys>;
    /// per component: (name, what its bare_clone gives, what it must give)
    fn comp_bare(&self) -> Vec<(&'static str, String, String)>;
    /// per component: (name, after its save_state, after the model's)
    fn comp_save(&self) -> Vec<(&'static str, String, String)>;
    /// every history column of the system, its components and nested ones
    fn all_lens(&self) -> Vec<(String, usize)>;
    fn scramble(&mut self, r: &mut Rng, rows: usize);
    /// write an arbitrary value to the potential's and the derivative's place of any component
    fn set_from(&mut self, x: &[f64], h: &[f64], c: &[f64]);
}

pub trait AnyRand {
    fn any_rand(r: &mut Rng) -> Self;
}
impl AnyRand for f64 {
    /// any finite value, when the generator is in its wild mode
    fn any_rand(r: &mut Rng) -> Self {
        if r.1 {
            r.any_finite()
        } else {
            r.f(-9., 9.)
        }
    }
}
impl AnyRand for u8 {
    fn any_rand(r: &mut Rng) -> Self {
        r.u64() as u8
    }
}
impl AnyRand for usize {
    fn any_rand(r: &mut Rng) -> Self {
        if r.1 && r.bool(0.2) {
            return r.u64() as usize;
        }
        r.below(1000)
    }
}
impl AnyRand for i64 {
    fn any_rand(r: &mut Rng) -> Self {
        r.u64() as i64
    }
}
impl AnyRand for bool {
    fn any_rand(r: &mut Rng) -> Self {
        r.bool(0.5)
    }
}
impl AnyRand for char {
    fn any_rand(r: &mut Rng) -> Self {
        *r.pick(&['a', 'ß', '€', '\n', '"', '𝄞', '\u{0}'])
    }
}
impl AnyRand for String {
    fn any_rand(r: &mut Rng) -> Self {
        if r.1 && r.bool(0.3) {
            return r.pick(&["", "~", "null", "true", "1e3", "0x1f", "- a", "a: b", "#c", " x ", "'", "\"", "yes", "\\", "{", "[1]", "|", ">", "!!f64 1", "&a", "*a", "---", "\r\n", "\u{feff}", "\u{85}", "\u{2028}"]).to_string();
        }
        let n = r.below(8);
        (0..n).map(|_| char::any_rand(r)).collect()
    }
}
impl<T: AnyRand> AnyRand for Vec<T> {
    fn any_rand(r: &mut Rng) -> Self {
        let n = r.below(4);
        (0..n).map(|_| T::any_rand(r)).collect()
    }
}
impl<T: AnyRand> AnyRand for Option<T> {
    fn any_rand(r: &mut Rng) -> Self {
        if r.bool(0.6) {
            Some(T::any_rand(r))
        } else {
            None
        }
    }
}
impl<T: AnyRand> AnyRand for Box<T> {
    fn any_rand(r: &mut Rng) -> Self {
        Box::new(T::any_rand(r))
    }
}
impl<A: AnyRand, B: AnyRand> AnyRand for (A, B) {
    fn any_rand(r: &mut Rng) -> Self {
        (A::any_rand(r), B::any_rand(r))
    }
}
impl<A: AnyRand, const N: usize> AnyRand for [A; N] {
    fn any_rand(r: &mut Rng) -> Self {
        std::array::from_fn(|_| A::any_rand(r))
    }
}

/// implements [Ode] and [NetSys] for a system from the lists of its fields
#[macro_export]
macro_rules! net_sys {
    (
        $name:ident, $info:expr,
        nodes: [$($n:ident $ni:expr),*],
        edges: [$($e:ident $ei:expr),*],
        states: [$($s:ident $si:expr),*],
        marked: [$($m:ident),*],
        unmarked: [$($u:ident),*],
        plain: [$($p:ident),*],
        drive: $drive:expr, $set_drive:expr
    ) => {
        impl $crate::sys::Ode for $name {
            $crate::impl_ode_common!($name);
            fn n(&self) -> usize { $info.states.len() }
            fn x(&self) -> Vec<f64> { vec![$($crate::net::NodeAcc::x(&self.$s)),*] }
            fn dx(&self) -> Vec<f64> { vec![$($crate::net::NodeAcc::dx(&self.$s)),*] }
            fn set_x(&mut self, v: &[f64]) { $($crate::net::NodeAcc::set_x(&mut self.$s, v[$si]);)* }
            fn set_dx(&mut self, v: &[f64]) { $($crate::net::NodeAcc::set_dx(&mut self.$s, v[$si]);)* }
            fn rhs(&self) -> $crate::sys::Rhs { Default::default() }
            fn units(&self) -> $crate::sys::Units { Default::default() }
            fn set_units(&mut self, _u: $crate::sys::Units) {}
            fn lens(&self) -> Vec<usize> {
                let mut o = vec![("i".to_string(), self.history.i.len()), ("time".to_string(), self.history.time.len())];
                $($crate::net::Comp::lens(&self.$m, stringify!($m), &mut o);)*
                o.into_iter().map(|x| x.1).collect()
            }
            fn rows(&self) -> Result<Vec<$crate::sys::Row>, String> {
                let l = $crate::sys::Ode::lens(self);
                if l.iter().any(|k| *k != l[0]) {
                    return Err(format!("history columns have different lengths: {l:?}"));
                }
                let hx: Vec<Vec<f64>> = vec![$($crate::net::NodeAcc::hx(&self.$s)),*];
                let hdx: Vec<Vec<f64>> = vec![$($crate::net::NodeAcc::hdx(&self.$s)),*];
                Ok((0..l[0]).map(|r| $crate::sys::Row {
                    i: self.history.i[r],
                    time: self.history.time[r],
                    x: hx.iter().map(|h| h[r]).collect(),
                    dx: hdx.iter().map(|h| h[r]).collect(),
                }).collect())
            }
            fn clear_histories(&mut self) {
                self.history = Default::default();
                $(self.$m = $crate::net::Comp::model_bare(&self.$m);)*
            }
        }
        #[allow(unused)]
        impl $crate::net::NetSys for $name {
            fn info(&self) -> &'static $crate::net::Info { &$info }
            fn gx(&self, n: usize) -> f64 { match n { $($ni => $crate::net::NodeAcc::x(&self.$n),)* _ => unreachable!() } }
            fn gset_x(&mut self, n: usize, v: f64) { match n { $($ni => $crate::net::NodeAcc::set_x(&mut self.$n, v),)* _ => unreachable!() } }
            fn gdx(&self, n: usize) -> f64 { match n { $($ni => $crate::net::NodeAcc::dx(&self.$n),)* _ => unreachable!() } }
            fn gset_dx(&mut self, n: usize, v: f64) { match n { $($ni => $crate::net::NodeAcc::set_dx(&mut self.$n, v),)* _ => unreachable!() } }
            fn gc(&self, n: usize) -> f64 { match n { $($ni => $crate::net::NodeAcc::c(&self.$n),)* _ => unreachable!() } }
            fn gset_c(&mut self, n: usize, v: f64) { match n { $($ni => $crate::net::NodeAcc::set_c(&mut self.$n, v),)* _ => unreachable!() } }
            fn ghx(&self, n: usize) -> Vec<f64> { match n { $($ni => $crate::net::NodeAcc::hx(&self.$n),)* _ => unreachable!() } }
            fn ghdx(&self, n: usize) -> Vec<f64> { match n { $($ni => $crate::net::NodeAcc::hdx(&self.$n),)* _ => unreachable!() } }
            fn gh(&self, e: usize) -> f64 { match e { $($ei => $crate::net::EdgeAcc::h(&self.$e),)* _ => unreachable!() } }
            fn gset_h(&mut self, e: usize, v: f64) { match e { $($ei => $crate::net::EdgeAcc::set_h(&mut self.$e, v),)* _ => unreachable!() } }
            fn gq(&self, e: usize) -> f64 { match e { $($ei => $crate::net::EdgeAcc::q(&self.$e),)* _ => unreachable!() } }
            fn gset_q(&mut self, e: usize, v: f64) { match e { $($ei => $crate::net::EdgeAcc::set_q(&mut self.$e, v),)* _ => unreachable!() } }
            fn ghq(&self, e: usize) -> Vec<f64> { match e { $($ei => $crate::net::EdgeAcc::hq(&self.$e),)* _ => unreachable!() } }
            fn row_times(&self) -> Vec<f64> { self.history.time.clone() }
            fn row_index(&self) -> Vec<usize> { self.history.i.clone() }
            fn driven(&self, n: usize, t: f64) -> f64 { let f: fn(&$name, usize, f64) -> f64 = $drive; f(self, n, t) }
            fn set_drive(&mut self, p: Vec<f64>) { let f: fn(&mut $name, Vec<f64>) = $set_drive; f(self, p) }

            fn t_states(&self) -> Vec<f64> { HasStates::states(self) }
            fn t_set_states(&mut self, v: Vec<f64>) { HasStates::set_states(self, v) }
            fn t_derivs(&self) -> Vec<f64> { HasStates::derivs(self) }
            fn t_set_derivs(&mut self, v: &[f64]) { HasStates::set_derivs(self, v) }
            fn t_step_states(&mut self, v: Vec<f64>) { HasStates::step_states(self, v) }
            fn t_step_derivs(&mut self, v: Vec<f64>) { HasStates::step_derivs(self, v) }
            fn t_step_states_by_dt(&mut self, dt: f64) { HasStates::step_states_by_dt(self, &dt) }
            fn t_storages(&self) -> Vec<f64> { HasStates::storages(self) }
            fn t_reset_derivs(&mut self) { SolverBase::reset_derivs(self) }
            fn t_update_derivs(&mut self) { SolverBase::update_derivs(self) }
            fn t_step_time(&mut self, dt: f64) { SolverBase::step_time(self, &dt) }
            fn t_sc(&self) -> Option<AdaptiveSolverConfig> { SolverBase::sc(self).cloned() }
            fn t_sc_mut(&mut self) -> Option<&mut AdaptiveSolverConfig> { SolverBase::sc_mut(self) }
            fn t_state(&self) -> SystemState { *SolverBase::state(self) }

            fn model_save(&mut self) {
                self.history.i.push(self.state.i);
                self.history.time.push(self.state.time);
                $($crate::net::Comp::model_save(&mut self.$m);)*
            }
            fn model_bare(&self) -> Box<dyn $crate::net::NetSys> {
                Box::new($name {
                    $($m: $crate::net::Comp::model_bare(&self.$m),)*
                    $($u: self.$u.clone(),)*
                    $($p: self.$p.clone(),)*
                    solver_type: self.solver_type.clone(),
                    t_report: self.t_report.clone(),
                    state: self.state.clone(),
                    history: SystemStateHistoryVec { i: vec![], time: vec![] },
                })
            }
            fn real_bare(&self) -> Box<dyn $crate::net::NetSys> { Box::new(self.bare_clone()) }
            fn dup_net(&self) -> Box<dyn $crate::net::NetSys> { Box::new(self.clone()) }
            fn comp_bare(&self) -> Vec<(&'static str, String, String)> {
                vec![
                    $((stringify!($m), format!("{:?}", $crate::net::Comp::real_bare(&self.$m)), format!("{:?}", $crate::net::Comp::model_bare(&self.$m))),)*
                    $((stringify!($u), format!("{:?}", $crate::net::Comp::real_bare(&self.$u)), format!("{:?}", $crate::net::Comp::model_bare(&self.$u))),)*
                ]
            }
            fn comp_save(&self) -> Vec<(&'static str, String, String)> {
                let mut v = vec![];
                $({
                    let (mut a, mut b) = (self.$m.clone(), self.$m.clone());
                    $crate::net::Comp::real_save(&mut a);
                    $crate::net::Comp::model_save(&mut b);
                    v.push((stringify!($m), format!("{a:?}"), format!("{b:?}")));
                })*
                $({
                    let (mut a, mut b) = (self.$u.clone(), self.$u.clone());
                    $crate::net::Comp::real_save(&mut a);
                    $crate::net::Comp::model_save(&mut b);
                    v.push((stringify!($u), format!("{a:?}"), format!("{b:?}")));
                })*
                v
            }
            fn all_lens(&self) -> Vec<(String, usize)> {
                let mut o = vec![("history.i".to_string(), self.history.i.len()), ("history.time".to_string(), self.history.time.len())];
                $($crate::net::Comp::lens(&self.$m, stringify!($m), &mut o);)*
                $($crate::net::Comp::lens(&self.$u, stringify!($u), &mut o);)*
                o
            }
            fn scramble(&mut self, r: &mut $crate::rng::Rng, rows: usize) {
                $($crate::net::Comp::scramble(&mut self.$m, r, rows);)*
                $({ let k = r.below(4); $crate::net::Comp::scramble(&mut self.$u, r, k); })*
                $(self.$p = $crate::net::AnyRand::any_rand(r);)*
                for _ in 0..rows {
                    self.history.i.push(r.below(99));
                    self.history.time.push(r.f(-9., 9.));
                }
                self.state = SystemState { i: r.below(50), time: r.f(-9., 9.) };
                self.t_report = $crate::net::AnyRand::any_rand(r);
                self.solver_type = $crate::sys::Spec::random(r, 1., 1.).build();
                let d: Vec<f64> = (0..3).map(|_| r.f(-2., 2.)).collect();
                $crate::net::NetSys::set_drive(self, d);
            }
            fn set_from(&mut self, x: &[f64], h: &[f64], c: &[f64]) {
                $($crate::net::NodeAcc::set_x(&mut self.$n, x[$ni]);)*
                $($crate::net::NodeAcc::set_dx(&mut self.$n, 0.);)*
                $($crate::net::NodeAcc::set_c(&mut self.$n, c[$ni]);)*
                $($crate::net::EdgeAcc::set_h(&mut self.$e, h[$ei]);)*
            }
        }
    };
}

pub static INFO_3TM: Info = Info {
    name: "System3TM",
    nodes: &[
        NodeInfo { name: "m1", kind: Kind::Mass, state: Some(0), saved: true },
        NodeInfo { name: "m2", kind: Kind::Mass, state: Some(1), saved: true },
        NodeInfo { name: "m3", kind: Kind::Mass, state: Some(2), saved: true },
    ],
    edges: &[EdgeInfo { name: "h12", a: 0, b: 1, saved: true }, EdgeInfo { name: "h23", a: 1, b: 2, saved: true }],
    states: &[0, 1, 2],
    open: false,
};
pub static INFO_BC: Info = Info {
    name: "System3TMWithBC",
    nodes: &[
        NodeInfo { name: "m1", kind: Kind::Driven(99), state: Some(0), saved: true },
        NodeInfo { name: "m2", kind: Kind::Mass, state: Some(1), saved: true },
        NodeInfo { name: "m3", kind: Kind::Mass, state: Some(2), saved: true },
    ],
    edges: &[EdgeInfo { name: "h12", a: 0, b: 1, saved: true }, EdgeInfo { name: "h23", a: 1, b: 2, saved: true }],
    states: &[0, 1, 2],
    open: true,
};
net_sys!(System3TM, INFO_3TM, nodes: [m1 0, m2 1, m3 2], edges: [h12 0, h23 1], states: [m1 0, m2 1, m3 2],
    marked: [m1, m2, h12, m3, h23], unmarked: [], plain: [], drive: |_, _, _| unreachable!(), |_, _| ());
net_sys!(System3TMWithBC, INFO_BC, nodes: [m1 0, m2 1, m3 2], edges: [h12 0, h23 1], states: [m1 0, m2 1, m3 2],
    marked: [m1, m2, h12, m3, h23], unmarked: [], plain: [],
    drive: |_, _, t| 10. + 3. * f64::sin(100. * t * t) * f64::exp(-t / 0.25), |_, _| ());

/// called by generated `update_derivs`
pub fn on_eval(t: f64, y: &[f64]) {
    trace::eval(t, y)
}

pub type Maker = fn() -> Box<dyn NetSys>;
pub fn shipped() -> Vec<Maker> {
    vec![|| Box::new(System3TM::default()), || Box::new(System3TMWithBC::default())]
}
