//! C01-C08 on harness-defined systems: reference-model monitors over rows, adaptive records and
//! the trace of right-hand-side evaluations.
use crate::ctx::{guarded, Case, Ctx, R};
use crate::ensure;
use crate::rk::{self, tableau};
use crate::rng::Rng;
use crate::sys::*;
use crate::trace;
use dess::prelude::*;
use serde_json::json;

pub const EPS: f64 = f64::EPSILON;

pub fn amax(v: &[f64]) -> f64 {
    v.iter().fold(0f64, |m, x| m.max(x.abs()))
}
pub fn maxdiff(a: &[f64], b: &[f64]) -> f64 {
    if a.len() != b.len() {
        return f64::INFINITY;
    }
    let mut m = 0f64;
    for (x, y) in a.iter().zip(b) {
        let d = (x - y).abs();
        if d.is_nan() {
            if !(x.is_nan() && y.is_nan()) {
                return f64::INFINITY;
            }
        } else {
            m = m.max(d);
        }
    }
    m
}

pub fn random_y(r: &mut Rng, n: usize) -> Vec<f64> {
    let s = *r.pick(&[0.1, 1.0, 1.0, 3.0]);
    (0..n).map(|_| r.f(-s, s)).collect()
}
fn random_t0(r: &mut Rng) -> f64 {
    match r.below(6) {
        0 | 1 => 0.0,
        2 => r.f(-3., 3.),
        3 => r.f(0., 10.),
        4 => r.f(-100., 100.),
        _ => r.int(0, 20) as f64 * 0.5,
    }
}

/// tolerance for comparing a step of the code under test with the oracle's
fn step_tol(y: &[f64], h: f64, kmax: f64, t: f64, l: f64) -> f64 {
    let scale = amax(y) + h * kmax + 1e-300;
    1e-13 * scale * (1.0 + h * l) + h * kmax.max(l) * l.max(1.0) * 4.0 * EPS * t.abs()
}

// ---------------------------------------------------------------------------------------- C01

pub fn c01(ctx: &Ctx) {
    if let Err(e) = rk::self_check() {
        ctx.inner.lock().unwrap().harness_errors.push(e);
        return;
    }
    // one step per report interval, every solver type
    ctx.cases("walk", ctx.n(3000, 120_000), |c| {
        let n = *c.rng.pick(&SIZES);
        let l = c.rng.logf(0.1, 3.0);
        let kind = c.rng.below(7);
        let rhs = Rhs::random_smooth(&mut c.rng, n, l);
        let t0 = random_t0(&mut c.rng);
        let y0 = random_y(&mut c.rng, n);
        let m = c.rng.int(1, 6);
        let hs = c.rng.logf(1e-5, 0.8) / l;
        let mut grid = vec![];
        let mut t = t0;
        let uniform = c.rng.bool(0.5);
        for _ in 0..m {
            t += if uniform { hs } else { hs * c.rng.f(0.05, 1.0) };
            grid.push(t);
        }
        let adaptive = kind == rk::RK23 || kind == rk::RK45;
        let mut spec = Spec::fixed(kind, if c.rng.bool(0.4) { hs } else { hs * c.rng.logf(1.0, 50.) });
        if adaptive {
            spec.dt = 1e3;
            spec.dt_max = 1e6;
            spec.rtol = 1e300;
            spec.atol = c.rng.logf(1e-12, 1e2);
            spec.max_iter = *c.rng.pick(&[0, 1, 2, 5, 255]);
            spec.save = c.rng.bool(0.5);
            spec.save_states = c.rng.bool(0.5);
        }
        c.desc = format!("{spec:?} rhs={rhs:?} t0={t0} y0={y0:?} grid={grid:?}");
        let mut s = make(&rhs, &y0, spec.build(), t0, &grid);
        // whatever derivatives were left over must not matter
        let garbage: Vec<f64> = (0..n).map(|_| c.rng.f(-9., 9.)).collect();
        s.set_dx(&garbage);
        trace::set_budget(if spec.save { SAVED_BUDGET } else { 200_000 });
        if cut(c, || s.walk())? {
            return Ok(());
        }
        let rows = s.rows()?;
        ensure!(rows.len() == m, "{} rows for {} report times", rows.len(), m);
        let tab = tableau(kind);
        let f = |t: f64, y: &[f64]| rhs.eval(t, y);
        let (mut tp, mut yp) = (t0, y0.clone());
        let mut worst = 0f64;
        for row in &rows {
            let h = row.time - tp;
            // a fixed step may be one rounding error short of the gap
            let (want, kmax) = if adaptive {
                let st = rk::step(&tab, &f, tp, &yp, h);
                (yp.iter().zip(&st.d).map(|(a, b)| a + b).collect::<Vec<_>>(), st.kmax)
            } else {
                let (y, _, k) = rk::fixed_interval(&tab, &f, tp, &yp, row.time, spec.dt);
                (y, k)
            };
            let tol = step_tol(&yp, h, kmax, tp, l);
            let d = maxdiff(&row.x, &want);
            if !kmax.is_finite() {
                c.count("runs_left_finite_range", 1);
                break;
            }
            worst = worst.max(d / tol);
            ensure!(
                d <= tol,
                "{} step from t={tp} h={h}: got {:?}, published method gives {:?} (diff {d:e}, tol {tol:e})",
                tab.name, row.x, want
            );
            tp = row.time;
            yp = row.x.clone();
            c.count("steps_checked", 1);
            c.count(&format!("steps_{}", rk::NAMES[kind]), 1);
        }
        c.max("worst_diff_over_tol", worst);
        c.distinct(&c.desc.clone());
        if c.idx < 8 {
            c.sample(json!({"solver": rk::NAMES[kind], "rhs_kind": rhs.kind, "n": n, "t0": t0, "y0": y0, "grid": grid,
                "final": s.x()}));
        }
        Ok(())
    });
    // the solver methods called directly
    ctx.cases("direct", ctx.n(1500, 60_000), |c| {
        let n = *c.rng.pick(&SIZES);
        let l = c.rng.logf(0.1, 3.0);
        let kind = *c.rng.pick(&rk::FIXED);
        let rhs = Rhs::random_smooth(&mut c.rng, n, l);
        let t0 = random_t0(&mut c.rng);
        let y0 = random_y(&mut c.rng, n);
        let h = c.rng.logf(1e-6, 1.0) / l;
        let own = Spec::random(&mut c.rng, 1.0, 1.0);
        c.desc = format!("direct {} own={own:?} rhs={rhs:?} t0={t0} y0={y0:?} h={h}", rk::NAMES[kind]);
        let mut s = make(&rhs, &y0, own.build(), t0, &[t0 + h]);
        let garbage: Vec<f64> = (0..n).map(|_| c.rng.f(-9., 9.)).collect();
        s.set_dx(&garbage);
        let tab = tableau(kind);
        let f = |t: f64, y: &[f64]| rhs.eval(t, y);
        let (mut tp, mut yp) = (t0, y0);
        for _ in 0..3 {
            s.direct(kind, h);
            let st = rk::step(&tab, &f, tp, &yp, h);
            let want: Vec<f64> = yp.iter().zip(&st.d).map(|(a, b)| a + b).collect();
            let tol = step_tol(&yp, h, st.kmax, tp, l);
            let d = maxdiff(&s.x(), &want);
            ensure!(d <= tol, "{} direct step t={tp} h={h}: got {:?} want {:?} (diff {d:e} tol {tol:e})", tab.name, s.x(), want);
            ensure!((s.time() - (tp + h)).abs() <= 4. * EPS * (tp.abs() + h), "time after one step of {h} from {tp} is {}", s.time());
            tp = s.time();
            yp = s.x();
            c.count("steps_checked", 1);
            c.count(&format!("steps_{}", rk::NAMES[kind]), 1);
        }
        ensure!(s.lens().iter().all(|k| *k == 0), "a solver step recorded history rows");
        c.distinct(&c.desc.clone());
        Ok(())
    });
    // adaptive runs with rejections: every accepted step is the higher-order solution
    ctx.cases("adaptive", ctx.n(400, 15_000), |c| {
        let n = *c.rng.pick(&[1usize, 2, 3, 6, 17]);
        let l = c.rng.logf(0.3, 5.0);
        let kind = *c.rng.pick(&rk::ADAPTIVE);
        let rhs = Rhs::random_smooth(&mut c.rng, n, l);
        let t0 = random_t0(&mut c.rng);
        let y0 = random_y(&mut c.rng, n);
        let span = 2.0 / l;
        let spec = Spec {
            kind,
            dt: c.rng.logf(span * 0.01, span),
            dt_max: span * c.rng.logf(0.05, 2.),
            max_iter: *c.rng.pick(&[0, 1, 2, 3, 5, 40]),
            atol: c.rng.logf(1e-10, 1e-5),
            rtol: c.rng.logf(if kind == rk::RK23 { 1e-4 } else { 1e-7 }, 1e-2),
            save: true,
            save_states: true,
        };
        let grid = [t0 + span * 0.37, t0 + span];
        c.desc = format!("{spec:?} rhs={rhs:?} t0={t0} y0={y0:?} grid={grid:?}");
        let mut s = make(&rhs, &y0, spec.build(), t0, &grid);
        trace::set_budget(SAVED_BUDGET);
        if cut(c, || s.walk())? {
            return Ok(());
        }
        let recs = records(&s.solver());
        let tab = tableau(kind);
        let f = |t: f64, y: &[f64]| rhs.eval(t, y);
        let (mut tp, mut yp) = (t0, y0);
        let mut end = t0;
        for rec in &recs {
            // the run itself is re-traced from the recorded step sizes alone
            let st = rk::step(&tab, &f, tp, &yp, rec.dt);
            let want: Vec<f64> = yp.iter().zip(&st.d).map(|(a, b)| a + b).collect();
            let tol = step_tol(&yp, rec.dt, st.kmax, tp, l);
            let d = maxdiff(&rec.states, &want);
            ensure!(d <= tol, "{} accepted step t={tp} h={}: got {:?} want {:?} (diff {d:e} tol {tol:e})", tab.name, rec.dt, rec.states, want);
            tp += rec.dt;
            end = tp;
            yp = rec.states.clone();
            c.count("steps_checked", 1);
            c.count("steps_after_rejection", (rec.n_iter > 1) as u64);
            c.count(&format!("steps_{}", rk::NAMES[kind]), 1);
        }
        ensure!((end - grid[1]).abs() <= 1e-12 * (1. + end.abs()), "steps end at {end}, not at {}", grid[1]);
        ensure!(maxdiff(&s.x(), &yp) <= 1e-13 * (1e-300 + amax(&yp)), "final state differs from the last accepted step");
        c.distinct(&c.desc.clone());
        Ok(())
    });
    for k in rk::NAMES {
        ctx.require(&format!("steps_{k}"), 200);
    }
    ctx.require("steps_after_rejection", 20);
}

/// runs which save every step copy their records at every stage: keep them short
pub const SAVED_BUDGET: u64 = 12_000;

/// runs `f`; true if it was cut off by the evaluation budget (whether walks end is C20's business)
pub fn cut(c: &mut Case, f: impl FnOnce()) -> Result<bool, String> {
    match guarded(f) {
        Ok(()) => Ok(false),
        Err(m) if m == trace::BUDGET_MSG => {
            c.count("runs_cut_by_evaluation_budget", 1);
            Ok(true)
        }
        Err(m) => Err(format!("unexpected panic: {m}")),
    }
}

pub fn records(s: &SolverTypes) -> Vec<SolverState> {
    match s {
        SolverTypes::RK23BogackiShampine(sc) | SolverTypes::RK45CashKarp(sc) => {
            // read column by column, not through the container's own methods
            let h = &sc.history;
            (0..h.dt.len())
                .map(|k| SolverState {
                    dt: h.dt[k],
                    n_iter: h.n_iter[k],
                    norm_err: h.norm_err[k],
                    norm_err_rel: h.norm_err_rel[k],
                    t_curr: h.t_curr[k],
                    states: h.states[k].clone(),
                })
                .collect()
        }
        _ => vec![],
    }
}

// ---------------------------------------------------------------------------------------- C02

struct Problem {
    rhs: Rhs,
    y0: Vec<f64>,
    t0: f64,
    span: f64,
    l: f64,
    exact: Box<dyn Fn(f64) -> Vec<f64>>,
}

fn analytic(r: &mut Rng, which: usize) -> Problem {
    match which % 7 {
        0 => {
            let n = *r.pick(&[1usize, 3]);
            let k: Vec<f64> = (0..n).map(|_| r.f(0.3, 2.)).collect();
            let y0: Vec<f64> = (0..n).map(|_| r.f(0.5, 2.)).collect();
            let t0 = r.f(-2., 5.);
            let l = amax(&k);
            let (k2, y2) = (k.clone(), y0.clone());
            Problem {
                rhs: Rhs { kind: DECAY, n, p: k },
                y0,
                t0,
                span: 2. / l,
                l,
                exact: Box::new(move |t| k2.iter().zip(&y2).map(|(k, y)| y * (-k * (t - t0)).exp()).collect()),
            }
        }
        1 => {
            let (k, w) = (r.f(0.5, 2.), r.f(0.5, 2.));
            let (y0, t0) = (r.f(-2., 2.), r.f(-3., 3.));
            let d = k * k + w * w;
            let part = move |t: f64| k * k / d * (w * t).cos() + k * w / d * (w * t).sin();
            Problem {
                rhs: Rhs { kind: FORCED, n: 1, p: vec![k, w] },
                y0: vec![y0],
                t0,
                span: 2.,
                l: k.max(w),
                exact: Box::new(move |t| vec![part(t) + (y0 - part(t0)) * (-k * (t - t0)).exp()]),
            }
        }
        2 => {
            let k = r.f(0.5, 2.);
            let y0 = r.f(0.05, 0.6);
            let t0 = r.f(-1., 1.);
            Problem {
                rhs: Rhs { kind: LOGISTIC, n: 1, p: vec![k] },
                y0: vec![y0],
                t0,
                span: 2. / k,
                l: k,
                exact: Box::new(move |t| {
                    let e = (k * (t - t0)).exp();
                    vec![y0 * e / (1. - y0 + y0 * e)]
                }),
            }
        }
        3 => {
            let a = r.f(0.5, 1.5);
            let y0 = r.f(0.5, 2.);
            let t0 = r.f(-3., 3.);
            Problem {
                rhs: Rhs { kind: COSGROW, n: 1, p: vec![a] },
                y0: vec![y0],
                t0,
                span: 2.,
                l: a.max(1.),
                exact: Box::new(move |t| vec![y0 * (a * (t.sin() - t0.sin())).exp()]),
            }
        }
        4 => {
            let n = *r.pick(&[2usize, 4]);
            let w: Vec<f64> = (0..n / 2).map(|_| r.f(0.5, 2.)).collect();
            let y0: Vec<f64> = (0..n).map(|_| r.f(-1., 1.) + 0.3).collect();
            let t0 = r.f(0., 4.);
            let l = amax(&w);
            let (w2, y2) = (w.clone(), y0.clone());
            Problem {
                rhs: Rhs { kind: OSC, n, p: w },
                y0,
                t0,
                span: 3. / l,
                l,
                exact: Box::new(move |t| {
                    let mut v = vec![];
                    for (i, w) in w2.iter().enumerate() {
                        let (c, s) = ((w * (t - t0)).cos(), (w * (t - t0)).sin());
                        v.push(y2[2 * i] * c + y2[2 * i + 1] * s);
                        v.push(-y2[2 * i] * s + y2[2 * i + 1] * c);
                    }
                    v
                }),
            }
        }
        5 => {
            let c = r.f(1., 2.);
            let t0 = r.f(0., 1.);
            Problem {
                rhs: Rhs { kind: RATIONAL, n: 1, p: vec![] },
                y0: vec![1. / (t0 * t0 + c)],
                t0,
                span: 1.5,
                l: 2.,
                exact: Box::new(move |t| vec![1. / (t * t + c)]),
            }
        }
        _ => {
            let (a, w, p, d) = (r.f(0.5, 2.), r.f(0.8, 2.), r.f(-1., 1.), r.f(-1., 1.));
            let y0 = r.f(-1., 1.);
            let t0 = r.f(-1., 2.);
            let anti = move |t: f64| a / w * (w * t + p).sin() + d * t * t * t / 3.;
            Problem {
                rhs: Rhs { kind: QUADRATURE, n: 1, p: vec![a, w, p, d] },
                y0: vec![y0],
                t0,
                span: 2.,
                l: w,
                exact: Box::new(move |t| vec![y0 + anti(t) - anti(t0)]),
            }
        }
    }
}

/// largest error over the rows, against the exact solution
fn walk_error(p: &Problem, spec: &Spec, nrows: usize) -> Result<(f64, f64, Box<dyn Ode>), String> {
    let grid: Vec<f64> = (1..=nrows).map(|k| p.t0 + p.span * k as f64 / nrows as f64).collect();
    let mut s = make(&p.rhs, &p.y0, spec.build(), p.t0, &grid);
    trace::set_budget(20_000_000);
    s.walk();
    let mut e = 0f64;
    let mut scale = 0f64;
    for row in s.rows()? {
        let x = (p.exact)(row.time);
        e = e.max(maxdiff(&row.x, &x));
        scale = scale.max(amax(&x));
    }
    Ok((e, scale, s))
}

pub fn c02(ctx: &Ctx) {
    use std::sync::Mutex;
    let sums: Mutex<Vec<(f64, f64)>> = Mutex::new(vec![(0., 0.); 7]);
    ctx.cases("order", ctx.n(420, 9800), |c| {
        // the adaptive ones with tolerances which every step meets and the maximum step as step size
        let kind = c.idx % 7;
        let p = analytic(&mut c.rng, c.idx / 7);
        let order = tableau(kind).order as f64;
        let levels = 4;
        let mut errs = vec![];
        c.desc = format!("{} rhs={:?} y0={:?} t0={} span={}", rk::NAMES[kind], p.rhs, p.y0, p.t0, p.span);
        let rows = 5;
        let m0 = ((p.span * p.l / rows as f64) / match tableau(kind).order { 5 => 0.5, 4 => 0.3, _ => 0.12 }).ceil().max(1.);
        let mut scale = 0f64;
        let mut hs = vec![];
        for k in 0..levels {
            let h = p.span / rows as f64 / (m0 * 2f64.powi(k));
            let spec = if rk::ADAPTIVE.contains(&kind) {
                Spec { kind, dt: h, dt_max: h, max_iter: 1, atol: 1., rtol: 1e9, save: false, save_states: false }
            } else {
                Spec::fixed(kind, h)
            };
            let (e, s, _) = walk_error(&p, &spec, rows)?;
            errs.push(e);
            hs.push(h);
            scale = scale.max(s);
            c.count("walks", 1);
        }
        // observed order over the levels which are above the rounding floor
        let floor = 2e-13 * scale;
        let last = (0..levels as usize).rev().find(|k| errs[*k] > 10. * floor);
        if let Some(last) = last {
            if last >= 1 {
                let slope = (errs[0] / errs[last]).log2() / last as f64;
                c.max(&format!("max_order_deficit_{}", rk::NAMES[kind]), order - slope);
                // (the fifth-order method reaches the rounding floor after few levels, often before its
                // asymptotic regime)
                let slack = if kind == rk::RK45 { 0.9 } else { 0.6 };
                ensure!(slope > order - slack, "observed order {slope:.3} of {} (errors {errs:?} at steps {hs:?})", rk::NAMES[kind]);
                let mut g = sums.lock().unwrap();
                g[kind].0 += slope;
                g[kind].1 += 1.;
                drop(g);
                c.count(&format!("orders_{}", rk::NAMES[kind]), 1);
                c.distinct(&c.desc.clone());
            }
        }
        // error bound of an order-p method on these problems (all have moderate derivatives)
        for (e, h) in errs.iter().zip(&hs) {
            let bound = 40. * scale.max(1.) * (p.l * h).powi(order as i32) + floor * 50.;
            c.max(&format!("max_err_over_bound_{}", rk::NAMES[kind]), e / bound);
            ensure!(*e <= bound, "error {e:e} of {} at step {h} exceeds the order-{order} bound {bound:e}", rk::NAMES[kind]);
        }
        if c.idx < 10 {
            c.sample(json!({"solver": rk::NAMES[kind], "problem": p.rhs.kind, "steps": hs, "errors": errs}));
        }
        Ok(())
    });
    for k in 0..7 {
        let (s, n) = sums.lock().unwrap()[k];
        if n >= 20. && ctx.only.is_none() {
            let mean = s / n;
            ctx.inner.lock().unwrap().maxima.insert(format!("mean_order_{}", rk::NAMES[k]), mean);
            if mean < tableau(k).order as f64 - 0.15 {
                ctx.violation("order", format!("mean observed order of {} over {n} problems is {mean:.3}", rk::NAMES[k]));
            }
        }
    }
    ctx.cases("tolerance", ctx.n(160, 5000), |c| {
        let kind = rk::ADAPTIVE[c.idx % 2];
        let p = analytic(&mut c.rng, c.idx / 2);
        c.desc = format!("{} rhs={:?} y0={:?} t0={} span={}", rk::NAMES[kind], p.rhs, p.y0, p.t0, p.span);
        let mut errs = vec![];
        let tols = if kind == rk::RK23 { [1e-2, 1e-3, 1e-4, 1e-5] } else { [1e-3, 1e-5, 1e-7, 1e-9] };
        let mut scale = 0f64;
        let save = c.rng.bool(0.8);
        for rtol in tols {
            let spec = Spec {
                kind,
                dt: 0.1 / p.l,
                dt_max: 1.0 / p.l,
                max_iter: 255,
                atol: rtol * 1e-3,
                rtol,
                save,
                save_states: false,
            };
            let rows = 4;
            let (e, s, sys) = walk_error(&p, &spec, rows)?;
            scale = scale.max(s);
            errs.push(e);
            c.count("walks", 1);
            // sum over the accepted steps of the error the tolerances allow for each
            let recs = records(&sys.solver());
            c.count("adaptive_steps", recs.len() as u64);
            if save {
                let growth = (1.5f64 * p.l * p.span).exp().min(25.);
                let allowed: f64 = recs
                    .iter()
                    .map(|r| {
                        let e = r.norm_err.unwrap_or(0.);
                        let d = match r.norm_err_rel { Some(x) if x > 0. => e / x, _ => 0. };
                        (rtol * d).max(spec.atol)
                    })
                    .sum();
                let bound = growth * allowed + 1e-12 * (1. + s) * recs.len().max(10) as f64;
                c.max(&format!("max_err_over_allowed_{}", rk::NAMES[kind]), e / bound);
                ensure!(e <= bound, "global error {e:e} exceeds {bound:e} allowed by rtol={rtol:e} over {} steps of {}", recs.len(), rk::NAMES[kind]);
            }
        }
        ensure!(
            errs[3] <= (0.3 * errs[0]).max(1e-9 * (1. + scale)),
            "tightening rtol through {tols:?} does not shrink the error of {}: {errs:?}", rk::NAMES[kind]
        );
        c.count(&format!("tolerance_{}", rk::NAMES[kind]), 1);
        c.distinct(&c.desc.clone());
        if c.idx < 4 {
            c.sample(json!({"solver": rk::NAMES[kind], "problem": p.rhs.kind, "rtol": tols, "errors": errs}));
        }
        Ok(())
    });
    for k in 0..7 {
        ctx.require(&format!("orders_{}", rk::NAMES[k]), 20);
    }
    ctx.require("adaptive_steps", 500);
}

// ---------------------------------------------------------------------------------------- C03

/// a right-hand side for runs where only the stepping matters, including awkward ones
fn random_any_rhs(r: &mut Rng, n: usize) -> (Rhs, f64) {
    match r.below(8) {
        0 => (Rhs { kind: 0, n, p: vec![] }, 0.1),
        1 => (Rhs { kind: CONST, n, p: (0..n).map(|_| r.f(-2., 2.)).collect() }, 0.1),
        2 => {
            let k = r.logf(0.5, 30.);
            (Rhs { kind: DECAY, n, p: (0..n).map(|_| k * r.f(0.2, 1.)).collect() }, k)
        }
        3 => {
            let mut p = vec![r.f(0.1, 2.)];
            p.extend((0..n).map(|_| r.f(-5., 5.)));
            (Rhs { kind: JUMP, n, p }, 1.)
        }
        4 => {
            let mut p = vec![r.f(0.1, 2.)];
            p.extend((0..n).map(|_| r.f(-20., 20.)));
            (Rhs { kind: PULSE, n, p }, 1.)
        }
        5 => {
            let mut p = vec![r.f(0.1, 1.)];
            p.extend((0..n).map(|_| r.f(0.1, 5.)));
            (Rhs { kind: DORMANT, n, p }, 2.)
        }
        _ => {
            let l = r.logf(0.2, 3.);
            (Rhs::random_smooth(r, n, l), l)
        }
    }
}

/// a random walk set-up with a bounded number of steps
pub fn random_run(r: &mut Rng, kind: usize, max_rows: usize) -> (Rhs, Vec<f64>, f64, Vec<f64>, Spec, f64) {
    let n = *r.pick(&[1usize, 1, 2, 3, 4, 9]);
    let (rhs, l) = random_any_rhs(r, n);
    let y0 = random_y(r, n);
    let t0 = random_t0(r);
    let grid = random_grid(r, t0, max_rows);
    let span = grid.last().unwrap() - t0;
    let mut spec = Spec::random_of(r, kind, span, l);
    if spec.is_adaptive() {
        // keep the number of steps bounded
        spec.dt_max = spec.dt_max.max(span / 300.);
        spec.rtol = spec.rtol.max(if kind == rk::RK23 { 1e-4 } else { 1e-8 });
        spec.atol = spec.atol.max(1e-10);
    } else {
        spec.dt = spec.dt.max(span / 1500.);
    }
    (rhs, y0, t0, grid, spec, l)
}

pub fn time_tol(a: f64, b: f64) -> f64 {
    8. * EPS * a.abs().max(b.abs()) + 1e-300
}

fn check_grid(s: &dyn Ode, t0: f64, grid: &[f64], big: f64) -> R {
    let lens = s.lens();
    ensure!(lens.iter().all(|l| *l == grid.len()), "history lengths {lens:?} for {} report times", grid.len());
    let rows = s.rows()?;
    let tmax = t0.abs().max(amax(grid)).max(big);
    for (k, row) in rows.iter().enumerate() {
        ensure!(row.i == k + 1, "row {k} has index {} (want {})", row.i, k + 1);
        ensure!(
            (row.time - grid[k]).abs() <= time_tol(tmax, grid[k]),
            "row {k} is recorded at {} instead of {}", row.time, grid[k]
        );
        if k > 0 {
            ensure!(row.time > rows[k - 1].time, "row times do not increase at {k}: {} then {}", rows[k - 1].time, row.time);
        }
    }
    let last = rows.last().unwrap();
    ensure!(last.x.iter().map(|v| v.to_bits()).eq(s.x().iter().map(|v| v.to_bits())), "last row {:?} is not the final state {:?}", last.x, s.x());
    ensure!(last.dx.iter().map(|v| v.to_bits()).eq(s.dx().iter().map(|v| v.to_bits())), "last row's derivatives are not the final ones");
    ensure!(last.time == s.time(), "last row's time {} is not the final time {}", last.time, s.time());
    ensure!(s.index() == grid.len(), "final report index {} for {} report times", s.index(), grid.len());
    Ok(())
}

pub fn c03(ctx: &Ctx) {
    ctx.cases("walk", ctx.n(2500, 90_000), |c| {
        let kind = c.idx % 7;
        let long = c.rng.bool(0.05);
        let (rhs, y0, t0, grid, spec, _l) = random_run(&mut c.rng, kind, if long { 400 } else { 25 });
        c.desc = format!("{spec:?} rhs={rhs:?} t0={t0} y0={y0:?} grid={grid:?}");
        let mut s = make(&rhs, &y0, spec.build(), t0, &grid);
        trace::set_budget(if spec.save { SAVED_BUDGET } else { 200_000 });
        let by_hand = c.rng.bool(0.3);
        if cut(c, || {
            if by_hand {
                // the same, driven by hand
                while s.time() < *grid.last().unwrap() {
                    s.solve_step();
                    let i = s.index();
                    s.set_index(i + 1);
                    s.save_state();
                }
            } else {
                s.walk();
            }
        })? {
            return Ok(());
        }
        c.count("driven_by_hand", by_hand as u64);
        check_grid(&*s, t0, &grid, 0.0)?;
        // walking again adds nothing
        let before = s.dbg();
        s.walk();
        ensure!(s.dbg() == before, "walking a finished system again changed it");
        c.count("rows", grid.len() as u64);
        c.count(&format!("walks_{}", rk::NAMES[kind]), 1);
        c.distinct(&c.desc.clone());
        if c.idx < 7 {
            c.sample(json!({"solver": rk::NAMES[kind], "t0": t0, "grid": grid.iter().take(6).collect::<Vec<_>>(), "rows": grid.len()}));
        }
        Ok(())
    });
    // many thousand report times
    ctx.cases("long", ctx.n(21, 420), |c| {
        let kind = c.idx % 7;
        let (rhs, y0, t0, short, mut spec, _l) = random_run(&mut c.rng, kind, 6);
        // (the solvers' internal copies include the report times, which makes long runs quadratic)
        let n = if kind == rk::EULER && c.rng.bool(0.6) { c.rng.int(65_500, 67_000) } else { c.rng.logf(2e3, 1e4) as usize };
        let span = short.last().unwrap() - t0;
        let grid: Vec<f64> = (1..=n).map(|k| t0 + span * k as f64 / n as f64).collect();
        // no more than a few steps between two report times on the whole
        spec.dt = spec.dt.max(span / n as f64 * 0.5);
        spec.dt_max = spec.dt_max.max(span / n as f64 * 0.5);
        spec.rtol = spec.rtol.max(1e-3);
        spec.atol = spec.atol.max(1e-6);
        spec.save = false;
        c.desc = format!("{spec:?} rhs={rhs:?} t0={t0} y0={y0:?} {n} report times over {span}");
        let mut s = make(&rhs, &y0, spec.build(), t0, &grid);
        trace::set_budget(5_000_000);
        if cut(c, || s.walk())? {
            return Ok(());
        }
        check_grid(&*s, t0, &grid, 0.0)?;
        c.count("long_rows", n as u64);
        c.distinct(&c.desc.clone());
        Ok(())
    });
    ctx.require("long_rows", 20_000);
    // report times a few roundings apart: still a row for each of them, at it
    ctx.cases("near", ctx.n(700, 20_000), |c| {
        let kind = c.idx % 7;
        let (rhs, y0, _t0, _g, mut spec, l) = random_run(&mut c.rng, kind, 3);
        let t0 = *c.rng.pick(&[0., 0., 1., 2.5]) * c.rng.logf(1e-3, 1e3);
        let mut grid = vec![];
        let mut t = t0;
        for _ in 0..c.rng.int(1, 5) {
            t += c.rng.logf(1e-2, 1.) * 0.5 / l;
            grid.push(t);
            for _ in 0..c.rng.below(6) {
                let gap = c.rng.logf(4., 5000.) as u64;
                t = f64::from_bits(t.to_bits() + gap);
                grid.push(t);
            }
        }
        let span = t - t0;
        if spec.is_adaptive() {
            spec.dt_max = spec.dt_max.max(span / 100.);
            spec.rtol = spec.rtol.max(1e-4);
            spec.atol = spec.atol.max(1e-6);
            spec.max_iter = spec.max_iter.max(20);
        } else {
            spec.dt = c.rng.f(0.05, 2.) * span;
        }
        c.desc = format!("{spec:?} rhs={rhs:?} t0={t0} y0={y0:?} grid={grid:?}");
        let mut s = make(&rhs, &y0, spec.build(), t0, &grid);
        trace::set_budget(if spec.save { SAVED_BUDGET } else { 60_000 });
        if cut(c, || s.walk())? {
            return Ok(());
        }
        check_grid(&*s, t0, &grid, 0.0)?;
        for (row, t) in s.rows()?.iter().zip(&grid) {
            ensure!((row.time.to_bits() as i64 - t.to_bits() as i64).abs() <= 2, "a row is recorded at {:?} instead of {t:?}", row.time);
        }
        c.count("near_rows", grid.len() as u64);
        c.distinct(&c.desc.clone());
        Ok(())
    });
    ctx.require("near_rows", 2000);
    // start at or past the end: nothing happens at all
    ctx.cases("past", ctx.n(400, 6000), |c| {
        let kind = c.idx % 7;
        let (rhs, y0, t0, grid, spec, _l) = random_run(&mut c.rng, kind, 12);
        let last = *grid.last().unwrap();
        let start = match c.rng.below(3) {
            0 => last,
            1 => f64::from_bits(last.to_bits() + if last > 0. { 1 } else { 0 }).max(last),
            _ => last + c.rng.logf(1e-9, 1e3),
        };
        c.desc = format!("{spec:?} rhs={rhs:?} t0={t0} start={start} y0={y0:?} grid={grid:?}");
        let mut s = make(&rhs, &y0, spec.build(), start, &grid);
        if c.rng.bool(0.3) {
            let k = c.rng.below(grid.len());
            s.set_index(k);
        }
        let before = s.dbg();
        trace::set_budget(1_000_000);
        s.walk();
        ensure!(s.dbg() == before, "walk from {start} past the last report time {last} changed the system: {} -> {}", before, s.dbg());
        ensure!(trace::count() == 0, "walk past the end evaluated the right-hand side");
        c.count("past_end", 1);
        c.distinct(&c.desc.clone());
        Ok(())
    });
    // the shipped example systems
    ctx.cases("examples", ctx.n(300, 6000), |c| {
        let kind = c.idx % 7;
        let t0 = *c.rng.pick(&[0.0, 0.0, 0.25, -1.0, 3.0]);
        let grid = random_grid(&mut c.rng, t0, 15);
        let span = grid.last().unwrap() - t0;
        let mut spec = Spec::random_of(&mut c.rng, kind, span, 10.);
        spec.dt = spec.dt.max(span / 2000.);
        spec.dt_max = spec.dt_max.max(span / 100.);
        spec.rtol = spec.rtol.max(1e-4);
        spec.save = spec.save && span < 0.5;
        c.desc = format!("{spec:?} t0={t0} grid={grid:?}");
        let (times, idx, lens): (Vec<f64>, Vec<usize>, Vec<usize>);
        let (ftime, fi);
        if c.idx % 2 == 0 {
            let mut s = dess_examples::three_thermal_mass_sys::System3TM { solver_type: spec.build(), t_report: grid.clone(), ..Default::default() };
            s.state.time = t0;
            s.walk();
            times = s.history.time.clone();
            idx = s.history.i.clone();
            lens = vec![s.m1.history.temp.len(), s.m1.history.dtemp.len(), s.m2.history.temp.len(), s.m3.history.temp.len(), s.h12.history.q.len(), s.h23.history.q.len()];
            ftime = s.state.time;
            fi = s.state.i;
            ensure!(s.m3.history.temp.last() == Some(&s.m3.state.temp), "last row is not the final state");
        } else {
            let mut s = dess_examples::three_thrml_mass_w_bc_sys::System3TMWithBC { solver_type: spec.build(), t_report: grid.clone(), ..Default::default() };
            s.state.time = t0;
            s.walk();
            times = s.history.time.clone();
            idx = s.history.i.clone();
            lens = vec![s.m1.history.temp.len(), s.m1.history.dtemp.len(), s.m2.history.temp.len(), s.m3.history.temp.len(), s.h12.history.q.len(), s.h23.history.q.len()];
            ftime = s.state.time;
            fi = s.state.i;
            ensure!(s.m3.history.temp.last() == Some(&s.m3.state.temp), "last row is not the final state");
        }
        ensure!(lens.iter().all(|l| *l == grid.len()) && times.len() == grid.len() && idx.len() == grid.len(), "history lengths {lens:?}, {} times for {} report times", times.len(), grid.len());
        for k in 0..grid.len() {
            ensure!(idx[k] == k + 1, "row {k} has index {}", idx[k]);
            ensure!((times[k] - grid[k]).abs() <= time_tol(t0, amax(&grid)), "row {k} at {} instead of {}", times[k], grid[k]);
        }
        ensure!(ftime == times[grid.len() - 1] && fi == grid.len(), "final time {ftime} index {fi}");
        c.count("rows", grid.len() as u64);
        c.count("example_walks", 1);
        c.distinct(&c.desc.clone());
        Ok(())
    });
    for k in rk::NAMES {
        ctx.require(&format!("walks_{k}"), 50);
    }
    ctx.require("past_end", 50);
}

// ---------------------------------------------------------------------------------------- C04

fn near(t: f64, set: &[f64], tol: f64) -> bool {
    // set is sorted
    let k = set.partition_point(|x| *x < t);
    (k < set.len() && (set[k] - t).abs() <= tol) || (k > 0 && (set[k - 1] - t).abs() <= tol)
}

pub fn c04(ctx: &Ctx) {
    ctx.cases("fixed", ctx.n(2000, 80_000), |c| {
        let kind = rk::FIXED[c.idx % 5];
        let (rhs, y0, t0, grid, mut spec, l) = random_run(&mut c.rng, kind, 10);
        if c.rng.bool(0.3) && grid.len() > 1 {
            // a divisor of (or equal to) an interval, or just off one
            let g = grid[1] - grid[0];
            spec.dt = g / c.rng.int(1, 7) as f64 * *c.rng.pick(&[1.0, 1.0, 1.0 + 1e-9, 1.0 - 1e-9, 0.999, 1.001]);
            spec.dt = spec.dt.max((grid.last().unwrap() - t0) / 3000.);
        }
        c.desc = format!("{spec:?} rhs={rhs:?} t0={t0} y0={y0:?} grid={grid:?}");
        let mut s = make(&rhs, &y0, spec.build(), t0, &grid);
        let tab = tableau(kind);
        let f = |t: f64, y: &[f64]| rhs.eval(t, y);
        trace::set_budget(3_000_000);
        for (k, target) in grid.iter().enumerate() {
            let ts = s.time();
            let ys = s.x();
            trace::record();
            s.solve_step();
            let ev = trace::take();
            s.set_index(k + 1);
            // rounding of times: the stepping accumulates one rounding error per step
            let nsteps = ((target - ts) / spec.dt).max(0.) + 2.;
            let tol = 4. * EPS * (ts.abs().max(target.abs())) * nsteps + 1e-300;
            for (t, _) in &ev {
                ensure!(*t >= ts - tol && *t <= target + tol, "evaluated at {t} while integrating [{ts}, {target}]");
            }
            if !(ts < *target) {
                ensure!(ev.is_empty() && s.x() == ys, "stepped although the report time {target} was already reached");
                continue;
            }
            let (yr, starts, kmax) = rk::fixed_interval(&tab, &f, ts, &ys, *target, spec.dt);
            // every evaluation is a stage of the expected step sequence, and every step is there
            let mut want: Vec<f64> = vec![*target];
            for (t, h) in &starts {
                for ci in &tab.c {
                    want.push(t + ci * h);
                }
            }
            want.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let mut got: Vec<f64> = ev.iter().map(|e| e.0).collect();
            got.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let tol2 = 16. * tol + 1e-14 * spec.dt.min(target - ts);
            for t in &got {
                ensure!(near(*t, &want, tol2), "evaluation at {t} belongs to no step of size {} from {ts} to {target} ({} steps)", spec.dt, starts.len());
            }
            for (t, h) in &starts {
                // a last sliver of rounding size need not be there
                if *h > tol2 {
                    ensure!(near(*t, &got, tol2), "no step starts at {t}, expected full steps of {} from {ts} to {target}", spec.dt);
                }
            }
            ensure!((s.time() - target).abs() <= time_tol(ts, *target), "interval ends at {} instead of {target}", s.time());
            if l * spec.dt < 2. {
                // sensitivity to the rounding of step times is bounded by the local rates
                let tolx = 1e-11 * (amax(&ys) + (target - ts) * kmax) + kmax * tol2;
                if matches!(rhs.kind, JUMP) {
                    c.count("jump_intervals", 1);
                } else {
                    let d = maxdiff(&s.x(), &yr);
                    ensure!(d <= tolx, "state after [{ts}, {target}] is {:?}, full steps plus one remainder give {:?} (diff {d:e})", s.x(), yr);
                }
            }
            c.count("intervals", 1);
            c.count("steps", starts.len() as u64);
            c.count("one_step_intervals", (starts.len() == 1) as u64);
            c.count("partial_last_steps", (starts.len() > 1 && starts.last().unwrap().1 < 0.999 * spec.dt) as u64);
            c.count("evaluations", ev.len() as u64);
        }
        c.count(&format!("runs_{}", rk::NAMES[kind]), 1);
        c.distinct(&c.desc.clone());
        if c.idx < 5 {
            c.sample(json!({"solver": rk::NAMES[kind], "dt": spec.dt, "t0": t0, "grid": grid}));
        }
        Ok(())
    });
    ctx.cases("adaptive", ctx.n(1200, 40_000), |c| {
        let kind = rk::ADAPTIVE[c.idx % 2];
        let (rhs, y0, t0, grid, mut spec, _l) = random_run(&mut c.rng, kind, 10);
        spec.save = c.rng.bool(0.8);
        spec.save_states = c.rng.bool(0.3);
        c.desc = format!("{spec:?} rhs={rhs:?} t0={t0} y0={y0:?} grid={grid:?}");
        let mut s = make(&rhs, &y0, spec.build(), t0, &grid);
        trace::set_budget(if spec.save { SAVED_BUDGET } else { 200_000 });
        let mut seen = 0;
        for (k, target) in grid.iter().enumerate() {
            let ts = s.time();
            trace::record();
            if cut(c, || s.solve_step())? {
                return Ok(());
            }
            let ev = trace::take();
            s.set_index(k + 1);
            let recs = records(&s.solver());
            let new = recs.len() - seen;
            let tol = 4. * EPS * (ts.abs().max(target.abs())) * (new as f64 + 3.) + 1e-300;
            for (t, _) in &ev {
                ensure!(*t >= ts - tol && *t <= target + tol, "evaluated at {t} while integrating [{ts}, {target}]");
            }
            ensure!((s.time() - target).abs() <= time_tol(ts, *target) || ts >= *target, "interval ends at {} instead of {target}", s.time());
            // evaluations made between two accepted steps stay within dt_max of the earlier one
            let mut t = ts;
            for rec in &recs[seen..] {
                ensure!(rec.dt <= spec.dt_max * (1. + 4. * EPS), "step {} exceeds dt_max {}", rec.dt, spec.dt_max);
                ensure!(rec.dt <= (target - t) + tol, "step {} at {t} passes the report time {target}", rec.dt);
                ensure!(rec.dt > 0., "step of size {}", rec.dt);
                t += rec.dt;
                c.count("steps", 1);
                c.count("steps_at_dt_max", (rec.dt >= spec.dt_max * 0.999999) as u64);
                c.count("steps_cut_by_report", ((t - target).abs() <= tol) as u64);
            }
            if spec.save && ts < *target {
                ensure!((t - target).abs() <= tol, "recorded steps end at {t}, not at {target}");
                // attempts: all evaluation times lie within dt_max of a step start
                let mut starts = vec![ts];
                let mut tt = ts;
                for rec in &recs[seen..] {
                    tt += rec.dt;
                    starts.push(tt);
                }
                for (te, _) in &ev {
                    let k = starts.partition_point(|x| *x <= *te + tol);
                    let from = starts[k.saturating_sub(1)];
                    // a rejected attempt may reach past later (shorter) accepted steps
                    let ok = te - from <= spec.dt_max + tol || starts.iter().any(|s0| *s0 <= te + tol && te - s0 <= spec.dt_max + tol);
                    ensure!(ok, "evaluation at {te} is more than dt_max {} after any step start", spec.dt_max);
                }
            }
            seen = recs.len();
            c.count("intervals", 1);
            c.count("evaluations", ev.len() as u64);
        }
        // with one attempt per step at most, spacing of evaluations bounds the step without saving
        c.count(&format!("runs_{}", rk::NAMES[kind]), 1);
        c.distinct(&c.desc.clone());
        Ok(())
    });
    // no saving: a long interval must be cut into at least span/dt_max steps
    ctx.cases("dtmax", ctx.n(200, 5000), |c| {
        let kind = rk::ADAPTIVE[c.idx % 2];
        let n = *c.rng.pick(&[1usize, 3]);
        let rhs = match c.rng.below(3) {
            0 => Rhs { kind: 0, n, p: vec![] },
            1 => Rhs { kind: CONST, n, p: vec![1.5; n] },
            _ => Rhs::random_smooth(&mut c.rng, n, 0.3),
        };
        let dt_max = c.rng.logf(0.01, 1.0);
        let mut spec = Spec::adaptive(kind);
        spec.dt_max = dt_max;
        spec.dt = c.rng.logf(dt_max * 0.01, 100. * dt_max);
        spec.rtol = *c.rng.pick(&[1e300, 1.0, 1e-3]);
        spec.max_iter = *c.rng.pick(&[0, 1, 5]);
        let t0 = random_t0(&mut c.rng);
        let m = c.rng.f(1.5, 20.);
        let y0 = random_y(&mut c.rng, n);
        let mut s = make(&rhs, &y0, spec.build(), t0, &[t0 + m * dt_max]);
        c.desc = format!("{spec:?} rhs={rhs:?} t0={t0} m={m}");
        trace::set_budget(1_000_000);
        trace::record();
        if cut(c, || s.walk())? {
            return Ok(());
        }
        let mut ts: Vec<f64> = trace::take().into_iter().map(|e| e.0).collect();
        ts.sort_by(|a, b| a.partial_cmp(b).unwrap());
        for w in ts.windows(2) {
            ensure!(w[1] - w[0] <= dt_max * (1. + 1e-9) + 1e-13 * t0.abs(), "no evaluation between {} and {}: more than dt_max {dt_max}", w[0], w[1]);
        }
        // each step evaluates its start; count distinct starts through the largest stage gap
        let stages = tableau(kind).c;
        let mut c2 = stages.clone();
        c2.push(1.);
        c2.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let maxgap = c2.windows(2).map(|w| w[1] - w[0]).fold(0., f64::max);
        for w in ts.windows(2) {
            ensure!(
                w[1] - w[0] <= dt_max * maxgap * (1. + 1e-9) + 1e-13 * (t0.abs() + m * dt_max),
                "evaluation times {} and {} are further apart than any two stages of a step of dt_max {dt_max}", w[0], w[1]
            );
        }
        c.count("unsaved_runs", 1);
        c.distinct(&c.desc.clone());
        Ok(())
    });
    for k in rk::NAMES {
        ctx.require(&format!("runs_{k}"), 50);
    }
    ctx.require("one_step_intervals", 50);
    ctx.require("partial_last_steps", 50);
    ctx.require("steps_at_dt_max", 50);
    ctx.require("steps_cut_by_report", 50);
}

// ------------------------------------------------------------------------- C05, C06, C07 replay

/// a random adaptive problem which exercises growth, rejection, exhaustion and zero error
pub fn random_adaptive(r: &mut Rng, kind: usize) -> (Rhs, Vec<f64>, f64, Vec<f64>, Spec) {
    let n = *r.pick(&[1usize, 1, 2, 3, 4, 9]);
    let (rhs, l) = match r.below(11) {
        10 if r.bool(0.5) => {
            let k = r.logf(10., 200.);
            (Rhs { kind: ROOT, n, p: (0..n).flat_map(|_| [k * r.f(0.5, 1.), r.f(0.05, 0.6)]).collect() }, k)
        }
        10 => {
            let k = r.logf(5., 100.);
            (Rhs { kind: LOGD, n, p: (0..n).map(|_| k * r.f(0.5, 1.)).collect() }, k)
        }
        0 => {
            let k = r.logf(5., 100.);
            (Rhs { kind: DECAY, n, p: (0..n).map(|_| k * r.f(0.5, 1.)).collect() }, k)
        }
        1 | 2 => random_any_rhs(r, n),
        3 => (Rhs { kind: SIGN, n, p: (0..n).map(|_| r.f(-1., 1.)).collect() }, 1.),
        4 => (Rhs { kind: CONST, n, p: (0..n).map(|_| r.f(-2., 2.)).collect() }, 0.2),
        5 => {
            let mut p = vec![r.f(0.0, 2.)];
            p.extend((0..n).map(|_| r.f(0.1, 5.)));
            (Rhs { kind: DORMANT, n, p }, 2.)
        }
        _ => {
            let l = r.logf(0.3, 8.);
            (Rhs::random_smooth(r, n, l), l)
        }
    };
    let mut y0 = random_y(r, n);
    if matches!(rhs.kind, ROOT | LOGD) {
        // attempts that are too long leave the domain, so that their error is not a number
        y0.iter_mut().for_each(|y| *y = r.f(1.5, 8.));
    }
    let t0 = random_t0(r);
    let span = r.f(0.5, 3.) / l.min(3.);
    let rows = r.int(1, 6);
    let mut grid: Vec<f64> = (0..rows).map(|_| t0 + span * r.f(0.01, 1.)).collect();
    grid.push(t0 + span);
    if r.bool(0.3) {
        grid.push(t0);
    }
    grid.sort_by(|a, b| a.partial_cmp(b).unwrap());
    grid.dedup();
    let spec = Spec {
        kind,
        dt: r.logf(span * 1e-3, span * 5.),
        dt_max: r.logf(span * 0.02, span * 20.).max(0.02 / l),
        max_iter: *r.pick(&[0, 1, 1, 2, 3, 4, 5, 5, 8, 20, 255]),
        atol: *r.pick(&[0.0, 1e-12, 1e-9, 1e-9, 1e-7, 1e-5, 1e-3]),
        rtol: *r.pick(&[0.0, 1e-9, 1e-7, 1e-6, 1e-5, 1e-5, 1e-4, 1e-3, 1e-2, 1.0, 10.]),
        save: true,
        save_states: true,
    };
    let mut spec = spec;
    if matches!(rhs.kind, ROOT | LOGD) {
        spec.dt = span * r.f(0.3, 3.);
        spec.dt_max = span;
        if r.bool(0.9) {
            spec.max_iter = *r.pick(&[3, 4, 5, 5, 8, 20]);
        }
    }
    if kind == rk::RK23 && spec.rtol < 1e-4 {
        // a second-order error estimate needs very many steps below this
        spec.rtol = *r.pick(&[0., 1e-4, 1e-3, 1e-3]);
        spec.atol = spec.atol.max(1e-8);
    }
    // tolerances which cannot be met are C20's business: bound the attempts here
    if spec.rtol < 1e-10 && spec.atol < 1e-8 || matches!(rhs.kind, SIGN | JUMP) && spec.atol < 1e-9 {
        spec.atol = 1e-9;
    }
    if spec.rtol == 0. {
        spec.atol = spec.atol.max(1e-7);
    }
    (rhs, y0, t0, grid, spec)
}

/// what one accepted step looked like, with the oracle's view of every attempt
pub struct Seen {
    pub rec: SolverState,
    /// oracle's (error, norm of the increment, rounding scale) of each attempt, first to last
    pub attempts: Vec<(f64, f64, f64)>,
    pub t: f64,
    /// time left to the report time when the step began
    pub left: f64,
    /// stored step size before and after the report interval (only known at its ends)
    pub first_in_interval: bool,
}

pub struct Run {
    pub seen: Vec<Seen>,
    pub spec: Spec,
    /// (number of steps so far, stored step size) after each report interval
    pub stored: Vec<(usize, f64)>,
}

/// Drives one run and re-traces it with the oracle. `Err` only for what makes tracing impossible.
pub fn replay(c: &mut Case, rhs: &Rhs, y0: &[f64], t0: f64, grid: &[f64], spec: &Spec) -> Result<Run, String> {
    let mut s = make(rhs, y0, spec.build(), t0, grid);
    trace::set_budget(SAVED_BUDGET);
    let tab = tableau(spec.kind);
    let f = |t: f64, y: &[f64]| rhs.eval(t, y);
    let mut out = vec![];
    let mut stored = vec![];
    let mut yp = y0.to_vec();
    let mut done = 0;
    for (k, target) in grid.iter().enumerate() {
        let mut t = s.time();
        let y_start = s.x();
        // a run that is cut off is still judged by the steps it took
        let cut_off = cut(c, || s.solve_step())?;
        s.set_index(k + 1);
        let recs = records(&s.solver());
        ensure!(recs.len() >= done, "solver records disappeared");
        if done == 0 {
            yp = y_start;
        }
        for (j, rec) in recs[done..].iter().enumerate() {
            let mut attempts = vec![];
            let natt = (rec.n_iter as usize).max(1);
            if natt > 300 {
                return Err(format!("{natt} attempts recorded"));
            }
            for a in 0..natt {
                let h = rec.dt * 4f64.powi((natt - 1 - a) as i32);
                let st = rk::step(&tab, &f, t, &yp, h);
                let diff: Vec<f64> = st.d.iter().zip(st.dh.as_ref().unwrap()).map(|(a, b)| a - b).collect();
                let (e, d) = (rk::norm(&diff), rk::norm(&st.d));
                // how far the error moves under a perturbation of rounding size
                let w = 100. * EPS;
                let y2: Vec<f64> = yp.iter().enumerate().map(|(i, v)| v * (1. + if i % 2 == 0 { w } else { -w })).collect();
                let s2 = rk::step(&tab, &f, t * (1. + EPS), &y2, h);
                let diff2: Vec<f64> = s2.d.iter().zip(s2.dh.as_ref().unwrap()).map(|(a, b)| a - b).collect();
                let sens = (rk::norm(&diff2) - e).abs().max((rk::norm(&s2.d) - d).abs());
                let scale = h * st.kmax * (yp.len() as f64).sqrt() + amax(&yp) * 1e-3 + 3. * sens / (4e-14);
                attempts.push((e, d, scale));
            }
            let left = target - t;
            t += rec.dt;
            let states = rec.states.clone();
            out.push(Seen { rec: rec.clone(), attempts, t: t - rec.dt, left, first_in_interval: j == 0 });
            ensure!(states.len() == yp.len(), "record holds {} states of {}", states.len(), yp.len());
            yp = states;
        }
        done = recs.len();
        if cut_off {
            break;
        }
        stored.push((done, s.sc().unwrap().state.dt));
        c.count("intervals", 1);
    }
    c.count("steps", out.len() as u64);
    c.count("rejected_attempts", out.iter().map(|s| s.attempts.len() as u64 - 1).sum());
    Ok(Run { seen: out, spec: spec.clone(), stored })
}

fn desc(rhs: &Rhs, y0: &[f64], t0: f64, grid: &[f64], spec: &Spec) -> String {
    format!("{spec:?} rhs={rhs:?} t0={t0} y0={y0:?} grid={grid:?}")
}

pub fn c05(ctx: &Ctx) {
    ctx.cases("steps", ctx.n(1500, 60_000), |c| {
        let kind = rk::ADAPTIVE[c.idx % 2];
        let (rhs, y0, t0, grid, spec) = random_adaptive(&mut c.rng, kind);
        c.desc = desc(&rhs, &y0, t0, &grid, &spec);
        let run = replay(c, &rhs, &y0, t0, &grid, &spec)?;
        let cap = spec.max_iter.max(1) as usize;
        for s in &run.seen {
            let r = &s.rec;
            let (e_ref, d_ref, scale) = *s.attempts.last().unwrap();
            let at = format!("step at t={} dt={}", s.t, r.dt);
            // beyond these, squares overflow or underflow
            if s.attempts.iter().any(|a| a.0 > 1e140 || a.1 > 1e140 || (a.1 > 0. && a.1 < 1e-130)) {
                c.count("runs_left_finite_range", 1);
                break;
            }
            if s.attempts.iter().any(|a| a.0.is_nan() || a.1.is_nan()) {
                // an error which is not a number meets no tolerance
                let n = r.n_iter as usize;
                let met = r.norm_err.map_or(false, |e| e < spec.atol) || r.norm_err_rel.map_or(false, |e| e <= spec.rtol);
                ensure!(n >= 1 && n <= cap, "{at}: {n} attempts with iteration limit {}", spec.max_iter);
                ensure!(n == cap || met, "{at}: accepted after {n} of {cap} attempts with error {:?}, relative {:?}", r.norm_err, r.norm_err_rel);
                ensure!(n == cap || (e_ref.is_finite() && d_ref.is_finite()), "{at}: accepted after {n} of {cap} attempts with error {:?}, relative {:?}, but the embedded solutions are not finite", r.norm_err, r.norm_err_rel);
                let state_ok = e_ref.is_finite() && d_ref.is_finite();
                c.count("attempts_without_a_number", 1);
                if state_ok {
                    c.count("left_the_domain_and_came_back", 1);
                    continue;
                }
                c.count("runs_left_finite_range", 1);
                break;
            }
            // the recorded error is the Euclidean norm of the embedded difference
            let err = r.norm_err.ok_or(format!("{at}: no absolute error recorded"))?;
            // near a discontinuity the embedded difference depends on time rounding
            let jumpy = matches!(rhs.kind, JUMP | SIGN | DORMANT);
            let etol = 4e-15 * scale * 10. + 1e-9 * e_ref + 60. * EPS * s.t.abs() * scale.max(1.);
            if !jumpy {
                ensure!((err - e_ref).abs() <= etol, "{at}: recorded error {err:e}, the embedded solutions differ by {e_ref:e} (tol {etol:e})");
                c.max("worst_error_diff_over_tol", (err - e_ref).abs() / etol);
                match r.norm_err_rel {
                    Some(rel) => {
                        ensure!(d_ref > 0. || rel.is_nan(), "{at}: relative error {rel} although the increment is zero");
                        let want = e_ref / d_ref;
                        let rtol = etol / d_ref + 1e-9 * want + want * (1e-13 * scale / d_ref);
                        // squares of smaller errors underflow
                        ensure!(e_ref < 1e-130 || (rel - want).abs() <= rtol, "{at}: recorded relative error {rel:e}, want {want:e} (tol {rtol:e})");
                        c.count("relative_errors_checked", 1);
                    }
                    None => {
                        ensure!(d_ref <= 1e-13 * scale, "{at}: no relative error although the increment has norm {d_ref}");
                        c.count("zero_increment_steps", 1);
                    }
                }
            }
            // accepted only if it may be
            let met_rel = r.norm_err_rel.map_or(false, |x| x <= spec.rtol);
            let met_abs0 = r.norm_err_rel.is_none() && err <= spec.atol;
            let met_abs = err < spec.atol;
            let n = r.n_iter as usize;
            ensure!(n >= 1 && n <= cap, "{at}: {n} attempts with iteration limit {}", spec.max_iter);
            let exhausted = n >= cap;
            ensure!(met_rel || met_abs0 || met_abs || exhausted, "{at}: accepted after {n} of {cap} attempts with error {err:e} (atol {:e}), relative {:?} (rtol {:e})", spec.atol, r.norm_err_rel, spec.rtol);
            c.count("accepted_by_rtol", met_rel as u64);
            c.count("accepted_by_atol", (!met_rel && (met_abs || met_abs0)) as u64);
            c.count("accepted_by_exhaustion", (!met_rel && !met_abs && !met_abs0) as u64);
            // an attempt that met the criterion is not rejected
            if !jumpy {
                for (a, (e, d, sc)) in s.attempts[..s.attempts.len() - 1].iter().enumerate() {
                    let noise = 4e-14 * sc + 1e-9 * e + 60. * EPS * s.t.abs() * sc.max(1.);
                    let ok_rel = *d > 0. && (e + noise) / d <= spec.rtol * (1. - 1e-9);
                    let ok_abs = e + noise < spec.atol * (1. - 1e-9);
                    ensure!(!(ok_rel || ok_abs), "{at}: attempt {} of {} met the criterion (error {e:e}, increment {d:e}, rtol {:e}, atol {:e}) but was rejected", a + 1, n, spec.rtol, spec.atol);
                    c.count("rejections_justified", 1);
                }
            }
        }
        c.distinct(&c.desc.clone());
        if c.idx < 4 {
            if let Some(s) = run.seen.iter().find(|s| s.rec.n_iter > 1).or(run.seen.first()) {
                c.sample(json!({"solver": rk::NAMES[kind], "record": s.rec, "oracle_attempt_errors": s.attempts.iter().map(|a| a.0).collect::<Vec<_>>()}));
            }
        }
        Ok(())
    });
    // number of attempts as seen by the right-hand side, without saving
    ctx.cases("evals", ctx.n(600, 20_000), |c| {
        let kind = rk::ADAPTIVE[c.idx % 2];
        let (rhs, y0, t0, _grid, mut spec) = random_adaptive(&mut c.rng, kind);
        spec.save = false;
        spec.save_states = c.rng.bool(0.3);
        spec.dt = spec.dt.min(spec.dt_max);
        let h = spec.dt;
        let mut s = make(&rhs, &y0, spec.build(), t0, &[t0 + h]);
        c.desc = desc(&rhs, &y0, t0, &[t0 + h], &spec);
        trace::set_budget(1_000_000);
        trace::record();
        // one step only, through the public solver method
        s.direct(kind, (t0 + h) - t0);
        let ev = trace::take();
        let dt_used = s.time() - t0;
        let cap = spec.max_iter.max(1) as usize;
        let n = s.sc().unwrap().state.n_iter as usize;
        ensure!(n >= 1 && n <= cap, "{n} attempts with limit {}", spec.max_iter);
        // each attempt evaluates its own end time (c = 1) within the interval: distinct ends
        let tol = 1e-12 * h + 4. * EPS * t0.abs();
        if tol < 0.01 * dt_used {
            let mut att = 0;
            for a in 0..40 {
                let e = t0 + h * 0.25f64.powi(a);
                if ev.iter().any(|x| (x.0 - e).abs() <= tol) && e - t0 >= dt_used - tol {
                    att += 1;
                }
            }
            ensure!(att == n || n > 40, "{n} attempts recorded, evaluations show {att} (limit {cap})");
            ensure!((dt_used - h * 0.25f64.powi(n as i32 - 1)).abs() <= tol, "step used {dt_used} after {n} attempts from {h}");
        }
        c.count("single_steps_by_evaluations", 1);
        c.count("with_rejection", (n > 1) as u64);
        c.distinct(&c.desc.clone());
        Ok(())
    });
    for k in ["accepted_by_rtol", "accepted_by_atol", "accepted_by_exhaustion", "rejections_justified", "relative_errors_checked", "with_rejection", "left_the_domain_and_came_back"] {
        ctx.require(k, 20);
    }
}

pub fn c06(ctx: &Ctx) {
    ctx.cases("steps", ctx.n(1500, 60_000), |c| {
        let kind = rk::ADAPTIVE[c.idx % 2];
        let (rhs, y0, t0, grid, spec) = random_adaptive(&mut c.rng, kind);
        c.desc = desc(&rhs, &y0, t0, &grid, &spec);
        let run = replay(c, &rhs, &y0, t0, &grid, &spec)?;
        // stored step size before the first step is the configured initial one
        let mut next = spec.dt;
        let mut next_tol = 0f64;
        let mut si = 0;
        for (k, (upto, stored)) in run.stored.iter().enumerate() {
            for s in &run.seen[si..*upto] {
                let r = &s.rec;
                let trial = r.dt * 4f64.powi(r.n_iter.max(1) as i32 - 1);
                let want = next.min(spec.dt_max).min(s.left);
                let tol = 1e-9 * want + next_tol.min(want) + 16. * EPS * (s.t.abs() + s.left.abs());
                {
                    ensure!(
                        (trial - want).abs() <= tol,
                        "step at t={}: first trial {trial}, expected min(carried {next}, dt_max {}, left {}) (dt {} after {} attempts)",
                        s.t, spec.dt_max, s.left, r.dt, r.n_iter
                    );
                    c.count("trials_checked", 1);
                    c.count("trials_carried", (next <= spec.dt_max.min(s.left)) as u64);
                    c.count("trials_capped_by_dt_max", (spec.dt_max < next.min(s.left)) as u64);
                    c.count("trials_capped_by_report", (s.left < next.min(spec.dt_max)) as u64);
                    c.count("carried_across_report", (s.first_in_interval && k > 0) as u64);
                }
                let err = r.norm_err.unwrap_or(f64::NAN);
                let coeff = match r.norm_err_rel {
                    Some(rel) if rel <= spec.rtol => (spec.rtol / rel).powf(0.2),
                    Some(_) if err < spec.atol => (spec.atol / err).powf(0.2),
                    Some(_) => 0.25,
                    None if err <= spec.atol => (spec.atol / err).powf(0.2),
                    None => 0.25,
                };
                c.count("grow", (coeff > 1.) as u64);
                c.count("zero_error", (err == 0.) as u64);
                next = (r.dt * coeff).min(spec.dt_max);
                if next.is_nan() {
                    next = spec.dt_max;
                }
                next_tol = 0.;
            }
            si = *upto;
            // what is stored now is what will be tried next
            if *upto > 0 {
                ensure!(stored.is_finite() && *stored > 0. && *stored <= spec.dt_max * (1. + 1e-12), "stored next step {stored} (dt_max {})", spec.dt_max);
                let want = next.min(spec.dt_max);
                ensure!((stored.min(spec.dt_max) - want).abs() <= 1e-9 * want, "stored next step {stored}, the rule gives {want}");
                c.count("stored_checked", 1);
            }
        }
        c.distinct(&c.desc.clone());
        if c.idx < 4 {
            c.sample(json!({"solver": rk::NAMES[kind], "spec": format!("{spec:?}"), "steps": run.seen.iter().take(4).map(|s| json!({"t": s.t, "dt": s.rec.dt, "n_iter": s.rec.n_iter, "rel": s.rec.norm_err_rel})).collect::<Vec<_>>()}));
        }
        Ok(())
    });
    // without saving: the sequence of stored step sizes, one step at a time
    ctx.cases("unsaved", ctx.n(800, 25_000), |c| {
        let kind = rk::ADAPTIVE[c.idx % 2];
        let (rhs, y0, t0, grid, mut spec) = random_adaptive(&mut c.rng, kind);
        spec.save = c.rng.bool(0.2);
        spec.save_states = c.rng.bool(0.3);
        c.desc = desc(&rhs, &y0, t0, &grid, &spec);
        let mut s = make(&rhs, &y0, spec.build(), t0, &grid);
        let end = *grid.last().unwrap();
        trace::set_budget(2_000_000);
        let mut stored = spec.dt;
        for _ in 0..40 {
            let t = s.time();
            if !(t < end) {
                break;
            }
            let limit = if c.rng.bool(0.5) { end - t } else { (end - t) * c.rng.f(0.05, 1.0) };
            s.direct(kind, limit);
            let sc = s.sc().unwrap();
            let used = s.time() - t;
            let n = sc.state.n_iter.max(1) as i32;
            let want_used = stored.min(spec.dt_max).min(limit) * 0.25f64.powi(n - 1);
            let ttol = 1e-9 * want_used + 8. * EPS * (t.abs() + end.abs());
            let err = sc.state.norm_err.unwrap_or(f64::NAN);
            if !err.is_finite() {
                c.count("runs_left_finite_range", 1);
                break;
            }
            ensure!((used - want_used).abs() <= ttol, "advanced by {used}, expected {want_used} (stored {stored}, limit {limit}, {n} attempts)");
            let coeff = match sc.state.norm_err_rel {
                Some(rel) if rel <= spec.rtol => (spec.rtol / rel).powf(0.2),
                Some(_) if err < spec.atol => (spec.atol / err).powf(0.2),
                Some(_) => 0.25,
                None if err <= spec.atol => (spec.atol / err).powf(0.2),
                None => 0.25,
            };
            let mut want = (want_used * coeff).min(spec.dt_max);
            if want.is_nan() {
                want = spec.dt_max;
            }
            stored = sc.state.dt;
            ensure!(stored.is_finite() && stored > 0. && stored <= spec.dt_max * (1. + 1e-12), "stored next step {stored} (dt_max {})", spec.dt_max);
            ensure!((stored - want).abs() <= 1e-8 * want, "stored next step {stored}, the rule gives {want} (coefficient {coeff})");
            c.count("single_steps", 1);
        }
        c.distinct(&c.desc.clone());
        Ok(())
    });
    for k in ["trials_carried", "trials_capped_by_dt_max", "trials_capped_by_report", "carried_across_report", "grow", "zero_error", "rejected_attempts", "single_steps"] {
        ctx.require(k, 20);
    }
}

fn bits_of(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| x.to_bits()).collect()
}

pub fn c07(ctx: &Ctx) {
    ctx.cases("records", ctx.n(1200, 40_000), |c| {
        let kind = rk::ADAPTIVE[c.idx % 2];
        let (rhs, y0, t0, grid, mut spec) = random_adaptive(&mut c.rng, kind);
        if c.rng.bool(0.3) {
            spec.max_iter = 1;
        }
        let n = y0.len();
        c.desc = desc(&rhs, &y0, t0, &grid, &spec);
        let tab = tableau(kind);
        let f = |t: f64, y: &[f64]| rhs.eval(t, y);
        // the four combinations of the save flags compute the same
        let mut runs = vec![];
        for (save, ss) in [(false, false), (true, false), (false, true), (true, true)] {
            let mut sp = spec.clone();
            sp.save = save;
            sp.save_states = ss;
            let mut s = make(&rhs, &y0, sp.build(), t0, &grid);
            trace::set_budget(SAVED_BUDGET);
            trace::record();
            if cut(c, || s.walk())? {
                return Ok(());
            }
            let ev = trace::take();
            runs.push((save, ss, s, ev));
        }
        let rows0 = format!("{:?}", runs[0].2.rows()?);
        let ev0 = runs[0].3.clone();
        for (save, ss, s, ev) in &runs {
            ensure!(format!("{:?}", s.rows()?) == rows0, "save={save} save_states={ss} changes the computed solution");
            ensure!(format!("{:?}", ev) == format!("{:?}", ev0), "save={save} save_states={ss} changes the evaluations made");
            let sc = s.sc().unwrap();
            let sc0 = runs[0].2.sc().unwrap();
            ensure!(sc.state.dt.to_bits() == sc0.state.dt.to_bits() && sc.state.n_iter == sc0.state.n_iter, "save={save} save_states={ss} changes the solver's next step");
            let recs = records(&s.solver());
            let h = &sc.history;
            let l = [h.dt.len(), h.n_iter.len(), h.norm_err.len(), h.norm_err_rel.len(), h.t_curr.len(), h.states.len()];
            ensure!(l.iter().all(|k| *k == l[0]), "record columns have different lengths {l:?}");
            if !*save {
                ensure!(recs.is_empty(), "{} records although saving is off", recs.len());
                ensure!(sc.dt_mean().is_none(), "mean step {:?} without records", sc.dt_mean());
            } else {
                let mut tp = t0;
                let mut yp = y0.clone();
                let mut k = 0;
                for (j, r) in recs.iter().enumerate() {
                    let tol = 8. * EPS * (t0.abs() + grid.last().unwrap().abs()) * (j as f64 + 2.);
                    ensure!((r.t_curr - tp).abs() <= tol, "record {j} starts at {} but the previous one ended at {tp}", r.t_curr);
                    ensure!(r.dt > 0. && r.n_iter >= 1, "record {j}: dt {} attempts {}", r.dt, r.n_iter);
                    tp = r.t_curr + r.dt;
                    if *ss {
                        ensure!(r.states.len() == n, "record {j} holds {} states of {n}", r.states.len());
                        let st = rk::step(&tab, &f, r.t_curr, &yp, r.dt);
                        let want: Vec<f64> = yp.iter().zip(&st.d).map(|(a, b)| a + b).collect();
                        let scale = amax(&yp) + r.dt * st.kmax;
                        if !matches!(rhs.kind, JUMP | SIGN | DORMANT) {
                            let d = maxdiff(&r.states, &want);
                            let tol = 1e-11 * scale + 100. * EPS * r.t_curr.abs() * scale.max(1.);
                            ensure!(d <= tol, "record {j} (t={} dt={}): states {:?}, end of the step is {:?} (diff {d:e})", r.t_curr, r.dt, r.states, want);
                        }
                        yp = r.states.clone();
                        c.count("states_checked", 1);
                    } else {
                        ensure!(r.states.is_empty(), "record {j} holds states although state saving is off");
                    }
                    ensure!(r.norm_err.is_some(), "record {j} has no error");
                    // report rows fall on record ends
                    while k < grid.len() && (tp - grid[k]).abs() <= 4. * tol {
                        if *ss {
                            let row = &s.rows()?[k];
                            ensure!(maxdiff(&row.x, &r.states) <= 1e-12 * (1e-300 + amax(&row.x)) + 32. * tol * (1. + amax(&row.dx)), "row {k} {:?} differs from the record that ends there {:?}", row.x, r.states);
                            c.count("rows_joined", 1);
                        }
                        k += 1;
                    }
                }
                if grid.last().unwrap() > &t0 {
                    ensure!(!recs.is_empty(), "nothing was recorded");
                    ensure!((tp - grid.last().unwrap()).abs() <= 8. * EPS * (t0.abs() + tp.abs()) * (recs.len() as f64 + 2.), "records end at {tp}, the walk at {}", grid.last().unwrap());
                }
                // one record per accepted step: step starts seen in the evaluations
                let mean = recs.iter().map(|r| r.dt).sum::<f64>() / recs.len() as f64;
                match sc.dt_mean() {
                    None => ensure!(recs.is_empty(), "no mean step for {} records", recs.len()),
                    Some(m) => ensure!((m - mean).abs() <= 1e-12 * mean, "mean step {m}, the records' mean is {mean}"),
                }
                c.count("records", recs.len() as u64);
            }
        }
        // attempts and errors recorded are the same whichever way states are saved
        let strip = |s: &dyn Ode| -> String {
            records(&s.solver()).iter().map(|r| format!("{:?} {} {:?} {:?} {:?};", r.dt, r.n_iter, r.norm_err, r.norm_err_rel, r.t_curr)).collect()
        };
        ensure!(strip(&*runs[1].2) == strip(&*runs[3].2), "saving states changes the other diagnostics");
        // the diagnostics themselves
        let run = replay(c, &rhs, &y0, t0, &grid, &spec)?;
        for s in &run.seen {
            if matches!(rhs.kind, JUMP | SIGN | DORMANT) {
                break;
            }
            let (e, d, scale) = *s.attempts.last().unwrap();
            if !(e.is_finite() && d.is_finite()) {
                break;
            }
            let err = s.rec.norm_err.unwrap_or(f64::NAN);
            let etol = 4e-14 * scale + 1e-9 * e + 60. * EPS * s.t.abs() * scale.max(1.);
            ensure!((err - e).abs() <= etol, "record at t={}: error {err:e}, oracle {e:e}", s.t);
            if let Some(rel) = s.rec.norm_err_rel {
                ensure!((rel - e / d).abs() <= etol / d * 2. + 1e-9 * rel, "record at t={}: relative error {rel:e}, oracle {:e}", s.t, e / d);
            }
            c.count("errors_checked", 1);
        }
        c.distinct(&c.desc.clone());
        if c.idx < 4 {
            c.sample(json!({"solver": rk::NAMES[kind], "records": records(&runs[3].2.solver()).iter().take(3).collect::<Vec<_>>()}));
        }
        Ok(())
    });
    // attempts recorded are the attempts made, as seen by the evaluations
    ctx.cases("attempts", ctx.n(300, 10_000), |c| {
        let kind = rk::ADAPTIVE[c.idx % 2];
        let l = c.rng.logf(1., 20.);
        let n = *c.rng.pick(&[1usize, 3]);
        let rhs = Rhs { kind: DECAY, n, p: (0..n).map(|_| l * c.rng.f(0.3, 1.)).collect() };
        let mut spec = Spec::adaptive(kind);
        spec.dt = c.rng.logf(0.05, 3.);
        spec.dt_max = 5.;
        spec.rtol = c.rng.logf(1e-7, 1e-3);
        spec.max_iter = *c.rng.pick(&[1, 2, 3, 5, 20]);
        spec.save = true;
        let mut s = make(&rhs, &vec![1.3; n], spec.build(), 0., &[spec.dt]);
        c.desc = format!("{spec:?} {rhs:?}");
        trace::record();
        s.direct(kind, spec.dt);
        let ev = trace::take();
        let recs = records(&s.solver());
        ensure!(recs.len() == 1, "{} records for one step", recs.len());
        let dt = recs[0].dt;
        let trials = (0..30).filter(|a| {
            let e = spec.dt * 0.25f64.powi(*a);
            e >= dt * 0.999 && ev.iter().any(|x| (x.0 - e).abs() < 1e-12 * e)
        }).count();
        ensure!(recs[0].n_iter as usize == trials, "{} attempts recorded, evaluations show {trials}", recs[0].n_iter);
        ensure!(recs[0].t_curr == 0. && (s.time() - dt).abs() <= 4. * EPS * dt, "record start {} dt {dt}, time {}", recs[0].t_curr, s.time());
        c.count("attempt_counts", 1);
        c.count("with_rejection", (trials > 1) as u64);
        c.distinct(&c.desc.clone());
        Ok(())
    });
    // the flags are changed while the system runs: each record follows those of its own time
    ctx.cases("toggled", ctx.n(800, 25_000), |c| {
        let kind = rk::ADAPTIVE[c.idx % 2];
        let (rhs, y0, t0, grid, spec) = random_adaptive(&mut c.rng, kind);
        let n = y0.len();
        let mut s = make(&rhs, &y0, spec.build(), t0, &grid);
        let mut plain = s.dup();
        let mut flags = vec![];
        trace::set_budget(SAVED_BUDGET / 2);
        for _ in 0..grid.len() {
            let (save, ss) = (c.rng.bool(0.6), c.rng.bool(0.5));
            flags.push((save, ss));
            c.desc = format!("{} flags={flags:?}", desc(&rhs, &y0, t0, &grid, &spec));
            for (x, save, ss) in [(&mut s, save, ss), (&mut plain, false, false)] {
                let mut sc = x.sc().unwrap();
                sc.save = save;
                sc.save_states = ss;
                x.set_solver(if kind == rk::RK23 { SolverTypes::RK23BogackiShampine(Box::new(sc)) } else { SolverTypes::RK45CashKarp(Box::new(sc)) });
            }
            let before = records(&s.solver());
            let t = s.time();
            if cut(c, || {
                for x in [&mut s, &mut plain] {
                    x.solve_step();
                    let i = x.index();
                    x.set_index(i + 1);
                    x.save_state();
                }
            })? {
                return Ok(());
            }
            let recs = records(&s.solver());
            ensure!(format!("{:?}", &recs[..before.len().min(recs.len())]) == format!("{before:?}"), "earlier records changed");
            let new = &recs[before.len()..];
            if !save {
                ensure!(new.is_empty(), "{} records although saving is off by now", new.len());
            } else {
                ensure!(!(s.time() > t) || !new.is_empty(), "nothing is recorded although saving is on by now");
                for r in new {
                    ensure!(r.states.len() == if ss { n } else { 0 }, "a record holds {} states of {n}, with state saving {}", r.states.len(), if ss { "on" } else { "off by now" });
                    c.count("toggled_records", 1);
                }
            }
            ensure!(bits_of(&s.x()) == bits_of(&plain.x()), "changing the save flags changes the computed solution");
        }
        c.distinct(&c.desc.clone());
        Ok(())
    });
    ctx.require("toggled_records", 1000);
    for k in ["records", "states_checked", "rows_joined", "errors_checked", "with_rejection"] {
        ctx.require(k, 50);
    }
}
