//! C13: history containers against a list of values.
use crate::ctx::{Case, Ctx, R};
use crate::ensure;
use crate::net::AnyRand;
use crate::rng::Rng;
use crate::sys::{NodeState, NodeStateHistoryVec};
use dess::prelude::*;
use dess_examples::components::*;
use serde_json::json;
use std::fmt::Debug;

pub trait HistState: Clone + Debug + AnyRand + SerdeAPI {
    type Hist: Clone + Debug + Default + PartialEq + SerdeAPI;
    const NAME: &'static str;
    const FIELDS: usize;
    fn h_new() -> Self::Hist;
    fn h_push(h: &mut Self::Hist, v: Self);
    fn h_pop(h: &mut Self::Hist) -> Option<Self>;
    fn h_clear(h: &mut Self::Hist);
    fn h_len(h: &Self::Hist) -> usize;
    fn h_empty(h: &Self::Hist) -> bool;
    /// the columns, by direct field access, in field order
    fn h_cols(h: &Self::Hist) -> Vec<Vec<String>>;
    fn h_row(&self) -> Vec<String>;
}
pub type HistFn = fn(&mut Case) -> R;

#[macro_export]
macro_rules! hist_state {
    ($name:ident, $hist:ident, $n:expr, $($f:ident),+) => {
        impl AnyRand for $name {
            fn any_rand(r: &mut Rng) -> Self { $name { $($f: AnyRand::any_rand(r)),+ } }
        }
        impl HistState for $name {
            type Hist = $hist;
            const NAME: &'static str = stringify!($name);
            const FIELDS: usize = $n;
            fn h_new() -> $hist { $hist::new() }
            fn h_push(h: &mut $hist, v: Self) { h.push(v) }
            fn h_pop(h: &mut $hist) -> Option<Self> { h.pop() }
            fn h_clear(h: &mut $hist) { h.clear() }
            fn h_len(h: &$hist) -> usize { h.len() }
            fn h_empty(h: &$hist) -> bool { h.is_empty() }
            fn h_cols(h: &$hist) -> Vec<Vec<String>> { vec![$(h.$f.iter().map(|x| format!("{:?}", x)).collect()),+] }
            fn h_row(&self) -> Vec<String> { vec![$(format!("{:?}", self.$f)),+] }
        }
    };
}
hist_state!(SystemState, SystemStateHistoryVec, 2, i, time);
hist_state!(SolverState, SolverStateHistoryVec, 6, dt, n_iter, norm_err, norm_err_rel, t_curr, states);
hist_state!(ThermalMassState, ThermalMassStateHistoryVec, 2, temp, dtemp);
hist_state!(ConductanceState, ConductanceStateHistoryVec, 1, q);
hist_state!(NodeState, NodeStateHistoryVec, 2, x, dx);

fn verify<T: HistState>(c: &mut Case, h: &T::Hist, model: &[T], log: &[String]) -> R {
    let tail = || log.iter().rev().take(8).rev().cloned().collect::<Vec<_>>().join(" ");
    let cols = T::h_cols(h);
    ensure!(cols.len() == T::FIELDS, "{}: {} columns", T::NAME, cols.len());
    for (k, col) in cols.iter().enumerate() {
        ensure!(col.len() == model.len(), "{}: column {k} has {} rows, the list has {} (after ..{})", T::NAME, col.len(), model.len(), tail());
    }
    ensure!(T::h_len(h) == model.len(), "{}: len() is {} for {} values (after ..{})", T::NAME, T::h_len(h), model.len(), tail());
    ensure!(T::h_empty(h) == model.is_empty(), "{}: is_empty() is {} for {} values", T::NAME, T::h_empty(h), model.len());
    for (r, v) in model.iter().enumerate() {
        let row = v.h_row();
        for k in 0..T::FIELDS {
            ensure!(cols[k][r] == row[k], "{}: column {k} row {r} holds {} instead of {} (after ..{})", T::NAME, cols[k][r], row[k], tail());
        }
    }
    c.count("states_compared", 1);
    Ok(())
}

/// one random sequence of operations
pub fn check<T: HistState>(c: &mut Case) -> R {
    let mut h = if c.rng.bool(0.5) { T::h_new() } else { T::Hist::default() };
    let mut model: Vec<T> = vec![];
    let mut log: Vec<String> = vec![];
    let n = if c.rng.bool(0.1) { c.rng.int(100, 500) } else { c.rng.int(5, 60) };
    let push_bias = c.rng.f(0.3, 0.9);
    let mut saved: Vec<(T::Hist, Vec<T>)> = vec![];
    verify::<T>(c, &h, &model, &log)?;
    for _ in 0..n {
        let op = c.rng.unit();
        if op < push_bias {
            let v = T::any_rand(&mut c.rng);
            model.push(v.clone());
            T::h_push(&mut h, v);
            log.push("push".into());
            c.count("pushes", 1);
        } else if op < push_bias + (1. - push_bias) * 0.75 {
            let got = T::h_pop(&mut h);
            let want = model.pop();
            log.push("pop".into());
            c.count(if want.is_some() { "pops" } else { "pops_when_empty" }, 1);
            ensure!(
                format!("{:?}", got) == format!("{:?}", want) && got.as_ref().map(|v| v.h_row()) == want.as_ref().map(|v| v.h_row()),
                "{}: pop returned {got:?} instead of {want:?}", T::NAME
            );
        } else if op < push_bias + (1. - push_bias) * 0.82 {
            T::h_clear(&mut h);
            model.clear();
            log.push("clear".into());
            c.count("clears", 1);
        } else if op < push_bias + (1. - push_bias) * 0.9 {
            saved.push((h.clone(), model.clone()));
            log.push("clone".into());
        } else if let Some((a, b)) = saved.pop() {
            // a clone is a list of its own
            verify::<T>(c, &a, &b, &log)?;
            h = a;
            model = b;
            log.push("restore".into());
            c.count("restores", 1);
        }
        if n < 100 || c.rng.bool(0.1) {
            verify::<T>(c, &h, &model, &log)?;
        }
    }
    verify::<T>(c, &h, &model, &log)?;
    while let Some(want) = model.pop() {
        let got = T::h_pop(&mut h);
        ensure!(got.as_ref().map(|v| v.h_row()) == Some(want.h_row()), "{}: pop returned {got:?} instead of {want:?}", T::NAME);
    }
    ensure!(T::h_pop(&mut h).is_none() && T::h_empty(&h), "{}: pop on an empty history returned a value", T::NAME);
    c.count("sequences", 1);
    c.distinct(&format!("{} {:?} {}", T::NAME, log, c.idx));
    if c.idx < 3 {
        c.sample(json!({"type": T::NAME, "operations": log.len(), "first": log.iter().take(12).collect::<Vec<_>>()}));
    }
    Ok(())
}

/// a list which grows to many thousand values, is popped down and cleared
pub fn check_long<T: HistState>(c: &mut Case) -> R {
    let mut h = T::h_new();
    let mut model: Vec<T> = vec![];
    let n = c.rng.logf(4e3, 9e4) as usize;
    let pool: Vec<T> = (0..97).map(|_| T::any_rand(&mut c.rng)).collect();
    c.desc = format!("{} {n} values", T::NAME);
    let step = c.rng.int(1, 96);
    let mut phase = 0;
    for target in [n, n / 2 + c.rng.below(n / 2), n / 3, n / 3 + 1000, 3] {
        while model.len() < target {
            phase = (phase + step) % 97;
            model.push(pool[phase].clone());
            T::h_push(&mut h, pool[phase].clone());
            ensure!(T::h_len(&h) == model.len(), "{}: len() is {} after {} pushes", T::NAME, T::h_len(&h), model.len());
        }
        while model.len() > target {
            let got = T::h_pop(&mut h);
            let want = model.pop();
            ensure!(got.as_ref().map(|v| v.h_row()) == want.as_ref().map(|v| v.h_row()), "{}: pop from {} values returned {got:?} instead of {want:?}", T::NAME, model.len() + 1);
        }
        verify::<T>(c, &h, &model, &[format!("to {target}")])?;
    }
    T::h_clear(&mut h);
    verify::<T>(c, &h, &[], &["clear".into()])?;
    c.count("long_lists", 1);
    c.count("long_values", n as u64);
    c.distinct(&c.desc.clone());
    Ok(())
}

pub fn c13(ctx: &Ctx, gen: &[HistFn]) {
    let shipped: Vec<HistFn> = vec![
        check::<SystemState>,
        check::<SolverState>,
        check::<ThermalMassState>,
        check::<ConductanceState>,
        check::<NodeState>,
    ];
    ctx.cases("shipped", ctx.n(1500, 60_000), |c| shipped[c.idx % shipped.len()](c));
    let long: Vec<HistFn> = vec![
        check_long::<SystemState>,
        check_long::<SolverState>,
        check_long::<ThermalMassState>,
        check_long::<ConductanceState>,
        check_long::<NodeState>,
    ];
    ctx.cases("long", ctx.n(15, 300), |c| long[c.idx % long.len()](c));
    ctx.cases("generated", ctx.n(3000, 120_000), |c| gen[c.idx % gen.len()](c));
    for k in ["pushes", "pops", "pops_when_empty", "clears", "restores", "states_compared"] {
        ctx.require(k, 100);
    }
    ctx.count("history_types", (shipped.len() + gen.len()) as u64);
}
