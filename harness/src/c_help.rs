//! C23: linspace, diff, almost_eq, zip! and time_it!.
use crate::ctx::{Case, Ctx, R};
use crate::ensure;
use dess::prelude::*;
use dess::utilities::almost_eq;
use dess::{time_it, zip};
use serde_json::json;
use std::time::{Duration, Instant};

fn linspace(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = match r.below(8) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 3,
        4 => r.int(4, 20),
        5 => r.int(20, 300),
        6 if r.bool(0.02) => r.int(5000, 1_000_000),
        6 => r.int(300, 5000),
        _ => *r.pick(&[10, 11, 49, 50, 100, 101, 1000, 1001]),
    };
    let (a, b) = match r.below(8) {
        0 => (0., 1.),
        1 => (r.any_finite(), r.any_finite()),
        2 => {
            let a = r.any_finite();
            (a, a)
        }
        3 => {
            let a = r.f(-1e3, 1e3);
            (a, a + a.abs() * r.f(-1e-12, 1e-12))
        }
        4 => (0., r.logf(1e-300, 1e300)),
        5 => (r.f(-1e3, 1e3), 0.),
        6 => (r.int(0, 200) as f64 - 100., r.int(0, 200) as f64 - 100.),
        _ => (r.f(-1e3, 1e3), r.f(-1e3, 1e3)),
    };
    // beyond this the distance of the ends is not a double
    if !((b - a).abs() <= f64::MAX / 4.) {
        c.count("distance_of_the_ends_not_finite", 1);
        return Ok(());
    }
    c.desc = format!("linspace({a:?}, {b:?}, {n})");
    let v = Vec::linspace(a, b, n);
    ensure!(v.len() == n, "{} has {} elements", c.desc, v.len());
    if n == 0 {
        c.count("linspace_empty", 1);
        return Ok(());
    }
    ensure!(v[0] == a, "{} starts at {:?}", c.desc, v[0]);
    let step = (b - a) / (n.max(2) - 1) as f64;
    let big = a.abs().max(b.abs());
    // start + k * spacing is within a few roundings of the exact value for every k; only a
    // spacing in the subnormal range loses more
    let tol = 16. * f64::EPSILON * big + 5e-324 * 2. * n as f64;
    let mut worst = 0f64;
    for (k, x) in v.iter().enumerate() {
        // weighting both ends keeps the rounding of the oracle small at either of them
        let f = k as f64 / (n.max(2) - 1) as f64;
        let want = if n == 1 { a } else { a * (1. - f) + b * f };
        let d = (x - want).abs();
        worst = worst.max(d / (big.max(1e-300)));
        ensure!(d <= tol, "{}: element {k} is {x:?} instead of {want:?}", c.desc);
        if k > 0 {
            let gap = x - v[k - 1];
            ensure!((gap - step).abs() <= 2. * tol, "{}: the gap before element {k} is {gap:?}, the spacing is {step:?}", c.desc);
        }
    }
    c.max("linspace_relative_error", worst);
    c.count(match n { 1 => "linspace_single", 2 => "linspace_pair", _ => "linspace_longer" }, 1);
    c.count("linspace_elements", n as u64);
    c.distinct(&c.desc.clone());
    if c.idx < 3 {
        c.sample(json!({"call": c.desc, "elements": v.len(), "last": v.last()}));
    }
    Ok(())
}

fn diff(c: &mut Case) -> R {
    let n = *c.rng.pick(&[0usize, 1, 2, 2, 3, 5, 17, 200]);
    let mut v: Vec<f64> = (0..n).map(|_| c.rng.any_finite()).collect();
    if c.rng.bool(0.3) {
        v = v.iter().map(|x| (x % 100.).round()).collect();
    }
    if n > 0 && c.rng.bool(0.1) {
        let k = c.rng.below(n);
        v[k] = *c.rng.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN]);
    }
    c.desc = format!("{v:?}");
    let before = v.clone();
    let d = v.diff();
    ensure!(d.len() == n.saturating_sub(1), "the difference of {n} elements has {} elements", d.len());
    for k in 1..n {
        let want = before[k] - before[k - 1];
        ensure!(d[k - 1] == want || (d[k - 1].is_nan() && want.is_nan()), "element {} of the difference of {v:?} is {:?}", k - 1, d[k - 1]);
    }
    ensure!(format!("{v:?}") == format!("{before:?}"), "taking the difference changed the vector");
    c.count("diffs", 1);
    c.count(if n < 2 { "diffs_short" } else { "diffs_long" }, 1);
    c.distinct(&c.desc.clone());
    Ok(())
}

fn almost(c: &mut Case) -> R {
    let r = &mut c.rng;
    let exact = r.bool(0.4);
    let (a, b, eps) = if exact {
        // all of these and their sums, differences and some quotients are exact
        let s = 2f64.powi(r.int(0, 40) as i32 - 20);
        let a = (r.int(0, 64) as f64 - 32.) * s;
        let d = (r.int(0, 16) as f64 - 8.) * s;
        let b = if r.bool(0.2) { -a + d } else { a + d };
        let e = match r.below(4) {
            // exactly on the limit
            0 => (b - a).abs(),
            1 => {
                let q = ((b - a) / (a + b)).abs();
                if q.is_finite() && q * (a + b).abs() == (b - a).abs() && (q.to_bits() & 0xFFFF_FFFF) == 0 { q } else { 0. }
            }
            2 => 2f64.powi(r.int(0, 30) as i32 - 25),
            _ => (r.int(0, 8) as f64) * s,
        };
        (a, b, Some(e))
    } else {
        let a = if r.bool(0.5) { r.any_finite() } else { r.f(-1e3, 1e3) };
        let b = match r.below(4) {
            0 => r.any_finite(),
            1 => a * (1. + r.f(-1., 1.) * r.logf(1e-16, 1.)),
            2 => -a * (1. + r.f(-1., 1.) * r.logf(1e-16, 1.)),
            _ => a + r.f(-1., 1.) * r.logf(1e-16, 1.),
        };
        let e = match r.below(6) {
            0 | 1 => None,
            2 => Some(*r.pick(&[0., 1e-16, 1e-300, 1., 1e300, -1., f64::INFINITY])),
            _ => Some(r.logf(1e-14, 10.)),
        };
        (a, b, e)
    };
    if !(a + b).is_finite() || !a.is_finite() || !b.is_finite() {
        return Ok(());
    }
    c.desc = format!("almost_eq({a:?}, {b:?}, {eps:?})");
    let e = eps.unwrap_or(1e-8);
    let d = (b - a).abs();
    // relative to the sum: exact and not defined for a sum of zero
    let q = if a + b == 0. { f64::INFINITY } else { (d / (a + b)).abs() };
    let near = |x: f64| x.is_finite() && (x - e).abs() <= 1e-12 * e.abs().max(f64::MIN_POSITIVE);
    let want = d < e || q < e;
    let on_limit = d == e || q == e;
    if !(exact && (d == e || !near(d)) && (q == e || !near(q))) && (near(d) || near(q)) {
        c.count("too_close_to_the_limit_to_tell", 1);
        return Ok(());
    }
    for (x, y) in [(a, b), (b, a)] {
        let got = almost_eq(x, y, eps);
        ensure!(got == want, "almost_eq({x:?}, {y:?}, {eps:?}) is {got}, the difference is {d:?}, relative {q:?}");
    }
    c.count(if want { "almost_equal" } else { "not_almost_equal" }, 1);
    c.count("exactly_on_the_limit", (on_limit && !want) as u64);
    c.count("only_absolute", (d < e && !(q < e)) as u64);
    c.count("only_relative", (q < e && !(d < e)) as u64);
    c.count("default_tolerance", eps.is_none() as u64);
    c.count("opposite_signs", (a * b < 0.) as u64);
    c.distinct(&c.desc.clone());
    if c.idx < 3 {
        c.sample(json!({"call": c.desc, "result": want}));
    }
    Ok(())
}

fn zips(c: &mut Case) -> R {
    let len = |c: &mut Case| *c.rng.pick(&[0usize, 1, 2, 3, 7, 30]);
    let (n0, n1, n2, n3) = (len(c), len(c), len(c), len(c));
    let mut next = 0u64;
    let mut fill = |n: usize| -> Vec<u64> {
        (0..n)
            .map(|_| {
                next += 1;
                next
            })
            .collect()
    };
    let (a, b, d, e) = (fill(n0), fill(n1), fill(n2), fill(n3));
    c.desc = format!("zip! of {n0}, {n1}, {n2}, {n3} elements");
    let z2: Vec<(u64, u64)> = zip!(a, b.clone()).map(|(x, y)| (*x, y)).collect();
    let z3: Vec<(u64, u64, u64)> = zip!(a, b, d.clone()).map(|(x, (y, z))| (*x, *y, z)).collect();
    let z4: Vec<(u64, u64, u64, u64)> = zip!(a, b, d, e.clone()).map(|(x, (y, (z, w)))| (*x, *y, *z, w)).collect();
    let m2 = n0.min(n1);
    let m3 = m2.min(n2);
    let m4 = m3.min(n3);
    ensure!(z2 == (0..m2).map(|k| (a[k], b[k])).collect::<Vec<_>>(), "{}: pairs {z2:?}", c.desc);
    ensure!(z3 == (0..m3).map(|k| (a[k], b[k], d[k])).collect::<Vec<_>>(), "{}: triples {z3:?}", c.desc);
    ensure!(z4 == (0..m4).map(|k| (a[k], b[k], d[k], e[k])).collect::<Vec<_>>(), "{}: quadruples {z4:?}", c.desc);
    c.count("zips", 3);
    c.count("zips_cut_at_the_shortest", (n0 != n1 || n1 != n2 || n2 != n3) as u64);
    c.distinct(&c.desc.clone());
    Ok(())
}

fn timing(c: &mut Case) -> R {
    let want = Duration::from_micros(*c.rng.pick(&[0u64, 0, 200, 1500, 4000, 12_000]));
    let mut evaluated = 0u32;
    let inner;
    let outer0 = Instant::now();
    let t = time_it!({
        evaluated += 1;
        let i0 = Instant::now();
        if want > Duration::ZERO {
            std::thread::sleep(want);
        }
        inner = i0.elapsed();
    });
    let outer = outer0.elapsed();
    ensure!(evaluated == 1, "time_it! evaluated its expression {evaluated} times");
    ensure!(t >= inner, "time_it! reports {t:?} for an expression which took {inner:?}");
    ensure!(t <= outer, "time_it! reports {t:?}, more than the {outer:?} all around it");
    // an expression with a value
    let mut calls = 0;
    let _: Duration = time_it!((|| {
        calls += 1;
        calls * 2
    })());
    ensure!(calls == 1, "time_it! evaluated its expression {calls} times");
    c.count("timings", 2);
    c.count("timings_of_sleeps", (want > Duration::ZERO) as u64);
    c.distinct(&format!("{want:?} {}", c.idx));
    Ok(())
}

pub fn c23(ctx: &Ctx) {
    ctx.cases("linspace", ctx.n(20_000, 500_000), linspace);
    ctx.cases("diff", ctx.n(20_000, 400_000), diff);
    ctx.cases("almost_eq", ctx.n(200_000, 5_000_000), almost);
    ctx.cases("zip", ctx.n(4000, 50_000), zips);
    ctx.cases("time_it", ctx.n(300, 3000), timing);
    for (k, n) in [
        ("linspace_empty", 100), ("linspace_single", 100), ("linspace_pair", 100), ("linspace_longer", 1000),
        ("diffs_short", 100), ("diffs_long", 1000), ("almost_equal", 1000), ("not_almost_equal", 1000),
        ("exactly_on_the_limit", 100), ("only_absolute", 100), ("only_relative", 100), ("default_tolerance", 1000),
        ("opposite_signs", 1000), ("zips_cut_at_the_shortest", 100), ("timings_of_sleeps", 20),
    ] {
        ctx.require(k, n);
    }
}
