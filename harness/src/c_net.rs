//! C08-C12, C14, C15 on systems of connected components (shipped and generated).
use crate::c_num::{amax, cut, maxdiff, random_run, EPS, SAVED_BUDGET};
use crate::ctx::{Case, Ctx, R};
use crate::ensure;
use crate::net::*;
use crate::rk::{self, tableau};
use crate::rng::Rng;
use crate::sys::*;
use crate::trace;
use serde_json::json;

pub struct Twin {
    pub a: Maker,
    pub b: Maker,
    /// edges whose ends are swapped in `b`
    pub swapped: &'static [usize],
}

/// a network in the harness' own terms
pub struct Net {
    pub info: &'static Info,
    pub x: Vec<f64>,
    pub h: Vec<f64>,
    pub c: Vec<f64>,
    pub drive: Vec<f64>,
    /// unit of the relaxation rates
    pub scale: f64,
}

impl Net {
    /// flows for potentials x (per node)
    fn flows(&self, x: &[f64]) -> Vec<f64> {
        self.info.edges.iter().zip(&self.h).map(|(e, h)| h * (x[e.a] - x[e.b])).collect()
    }
    /// derivative of each node and the sum of absolute terms (rounding scale)
    fn derivs(&self, x: &[f64]) -> (Vec<f64>, Vec<f64>) {
        let q = self.flows(x);
        let n = self.info.nodes.len();
        let (mut d, mut s) = (vec![0.; n], vec![0.; n]);
        for (e, q) in self.info.edges.iter().zip(&q) {
            for (k, sign) in [(e.a, -1.), (e.b, 1.)] {
                if self.info.nodes[k].kind == Kind::Mass {
                    d[k] += sign * q / self.c[k];
                    s[k] += q.abs() / self.c[k];
                }
            }
        }
        // accumulator: flow received by masses from everything else
        for (k, node) in self.info.nodes.iter().enumerate() {
            if node.kind == Kind::Acc {
                for (e, q) in self.info.edges.iter().zip(&q) {
                    let (ka, kb) = (self.info.nodes[e.a].kind == Kind::Mass, self.info.nodes[e.b].kind == Kind::Mass);
                    if ka && !kb {
                        d[k] -= q;
                        s[k] += q.abs();
                    } else if kb && !ka {
                        d[k] += q;
                        s[k] += q.abs();
                    }
                }
            }
        }
        (d, s)
    }
    /// largest relaxation rate (Gershgorin)
    pub fn rate(&self) -> f64 {
        let mut r = vec![0.; self.info.nodes.len()];
        for (e, h) in self.info.edges.iter().zip(&self.h) {
            for k in [e.a, e.b] {
                if self.info.nodes[k].kind == Kind::Mass {
                    r[k] += h.abs() / self.c[k];
                }
            }
        }
        2. * amax(&r)
    }
    /// connected components over mass nodes and reservoirs: (nodes)
    fn parts(&self) -> Vec<Vec<usize>> {
        let n = self.info.nodes.len();
        let mut id: Vec<usize> = (0..n).collect();
        fn root(id: &mut Vec<usize>, mut k: usize) -> usize {
            while id[k] != k {
                k = id[k];
            }
            k
        }
        for e in self.info.edges {
            let (a, b) = (root(&mut id, e.a), root(&mut id, e.b));
            id[a] = b;
        }
        let mut parts: Vec<Vec<usize>> = vec![vec![]; n];
        for k in 0..n {
            if self.info.nodes[k].kind != Kind::Acc {
                let r = root(&mut id, k);
                parts[r].push(k);
            }
        }
        parts.retain(|p| !p.is_empty());
        parts
    }
    fn set_driven(&self, s: &dyn NetSys, x: &mut [f64], t: f64) {
        for (k, n) in self.info.nodes.iter().enumerate() {
            if let Kind::Driven(_) = n.kind {
                x[k] = s.driven(k, t);
            }
        }
    }
}

/// gives the system random parameters and potentials
fn randomise(r: &mut Rng, s: &mut dyn NetSys) -> Net {
    let info = s.info();
    let nn = info.nodes.len();
    let style = r.below(4);
    // some nodes at exactly zero or next to it
    let zeros = r.bool(0.3);
    let x: Vec<f64> = (0..nn)
        .map(|_| match style {
            _ if zeros && r.bool(0.4) => *r.pick(&[0., 0., -0., 1e-100, 1e-60, 1e-30]),
            0 => r.f(-10., 10.),
            1 => r.int(0, 20) as f64,
            2 => 20. + r.f(-1., 1.),
            _ => r.f(-1e3, 1e3),
        })
        .collect();
    let c: Vec<f64> = (0..nn).map(|_| if r.bool(0.3) { r.int(1, 4) as f64 } else { r.f(0.5, 4.) }).collect();
    let h: Vec<f64> = (0..info.edges.len()).map(|_| if r.bool(0.3) { r.int(1, 5) as f64 } else { r.logf(0.1, 5.) }).collect();
    let mut unit = || if r.bool(0.5) { 1. } else { 2f64.powi(r.int(0, 44) as i32 - 22) };
    let (hs, mut cs) = (unit(), unit());
    if info.nodes.iter().any(|n| matches!(n.kind, Kind::Driven(_))) {
        // time has a meaning of its own to these
        cs = hs;
    }
    let scale = hs / cs;
    let c: Vec<f64> = c.iter().map(|v| v * cs).collect();
    let h: Vec<f64> = h.iter().map(|v| v * hs).collect();
    let drive = vec![r.f(-5., 5.), r.f(-3., 3.), r.f(0.5, 6.)];
    // some declarations start elsewhere by default
    s.set_index(0);
    s.set_from(&x, &h, &c);
    s.set_drive(drive.clone());
    let mut c = c;
    for k in 0..nn {
        if info.nodes[k].kind != Kind::Mass && info.nodes[k].kind != Kind::Acc {
            c[k] = f64::INFINITY;
        }
    }
    let x = (0..nn).map(|k| s.gx(k)).collect();
    Net { info, x, h, c, drive, scale }
}

/// a random walk set-up whose number of steps is bounded
pub fn setup(r: &mut Rng, s: &mut dyn NetSys, kind: usize, stable: bool) -> (Net, f64, Vec<f64>, Spec) {
    let net = randomise(r, s);
    let rate = net.rate().max(0.3 * net.scale);
    let t0 = *r.pick(&[0., 0., 0., 1.5, -2.25, 40.]) / net.scale;
    let (_, _, _, grid, _, _) = random_run(r, kind, 10);
    // rescale the random grid to a few relaxation times
    let g0 = grid[0];
    let span = (grid.last().unwrap() - g0).max(1e-9);
    let want = r.f(0.3, 6.) / rate;
    let mut report: Vec<f64> = grid.iter().map(|t| t0 + (t - g0) / span * want).collect();
    if report.len() == 1 {
        report = vec![t0 + want];
    }
    report.retain(|t| *t >= t0);
    report.dedup();
    let mut spec = Spec::random_of(r, kind, want, rate);
    if spec.is_adaptive() {
        spec.dt_max = spec.dt_max.max(want / 100.);
        spec.rtol = spec.rtol.max(if kind == rk::RK23 { 1e-4 } else { 1e-7 });
        spec.atol = spec.atol.max(1e-9);
        if spec.save {
            // each evaluation copies the diagnostics: keep their number small
            spec.rtol = spec.rtol.max(1e-3);
            spec.atol = spec.atol.max(1e-5);
        }
        if stable {
            spec.dt_max = spec.dt_max.min(0.2 / rate).max(want / 200.);
            spec.dt = spec.dt.min(spec.dt_max);
        }
    } else {
        spec.dt = spec.dt.max(want / 300.);
        if stable {
            spec.dt = spec.dt.min(0.24 / rate).max(want / 300.);
        }
    }
    s.set_time(t0);
    s.set_report(report.clone());
    s.set_solver(spec.build());
    (net, t0, report, spec)
}

fn describe(net: &Net, t0: f64, report: &[f64], spec: &Spec) -> String {
    format!("{} x={:?} h={:?} c={:?} drive={:?} t0={t0} report={report:?} {spec:?}", net.info.name, net.x, net.h, net.c, net.drive)
}

fn walk(c: &mut Case, s: &mut dyn NetSys, spec: &Spec) -> Result<bool, String> {
    trace::set_budget(if spec.save { SAVED_BUDGET / 2 } else { 60_000 });
    Ok(!cut(c, || s.walk())?)
}

// ---------------------------------------------------------------------------------------- C08

pub fn c08(ctx: &Ctx, systems: &[Maker]) {
    // systems with arbitrary right-hand sides: derivative of every row
    ctx.cases("ode", ctx.n(2000, 80_000), |c| {
        let kind = c.idx % 7;
        let (rhs, y0, t0, grid, spec, _) = random_run(&mut c.rng, kind, 12);
        c.desc = format!("{spec:?} rhs={rhs:?} t0={t0} y0={y0:?} grid={grid:?}");
        let mut s = make(&rhs, &y0, spec.build(), t0, &grid);
        let junk: Vec<f64> = y0.iter().map(|_| c.rng.f(-9., 9.)).collect();
        s.set_dx(&junk);
        trace::set_budget(if spec.save { SAVED_BUDGET } else { 200_000 });
        if cut(c, || s.walk())? {
            return Ok(());
        }
        for (k, row) in s.rows()?.iter().enumerate() {
            if row.time <= t0 {
                continue;
            }
            // the user's function at the row's own time and states, exactly what it returned
            let want = rhs.eval(row.time, &row.x);
            ensure!(
                row.dx.iter().zip(&want).all(|(a, b)| a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-12 * (a.abs() + b.abs())),
                "row {k} of {}: recorded derivative {:?}, right-hand side at its time {} and states {:?} gives {want:?}",
                rk::NAMES[kind], row.dx, row.time, row.x
            );
            c.count("rows", 1);
            c.count(&format!("rows_{}", rk::NAMES[kind]), 1);
        }
        c.distinct(&c.desc.clone());
        Ok(())
    });
    ctx.cases("nets", ctx.n(2100, 80_000), |c| {
        let kind = c.idx % 7;
        let mut s = c.rng.pick(systems)();
        let stable = c.rng.bool(0.7);
        let (net, t0, report, spec) = setup(&mut c.rng, &mut *s, kind, stable);
        c.desc = describe(&net, t0, &report, &spec);
        for e in 0..net.info.edges.len() {
            s.gset_q(e, 77.);
        }
        if !walk(c, &mut *s, &spec)? {
            return Ok(());
        }
        let info = net.info;
        let times = s.row_times();
        ensure!(times.len() == report.len(), "{} rows for {} report times", times.len(), report.len());
        let hx: Vec<Vec<f64>> = (0..info.nodes.len()).map(|k| s.ghx(k)).collect();
        let hdx: Vec<Vec<f64>> = (0..info.nodes.len()).map(|k| s.ghdx(k)).collect();
        let hq: Vec<Vec<f64>> = (0..info.edges.len()).map(|k| s.ghq(k)).collect();
        for (r, t) in times.iter().enumerate() {
            if *t <= t0 {
                continue;
            }
            // potentials of this row; unsaved reservoirs are fixed or prescribed
            let mut x: Vec<f64> = (0..info.nodes.len()).map(|k| if info.nodes[k].saved { hx[k][r] } else { net.x[k] }).collect();
            for k in 0..info.nodes.len() {
                if let (Kind::Driven(_), false) = (info.nodes[k].kind, info.nodes[k].saved) {
                    x[k] = s.driven(k, *t);
                }
            }
            let q = net.flows(&x);
            let big = amax(&x);
            for (e, ei) in info.edges.iter().enumerate() {
                if ei.saved {
                    ensure!(
                        (hq[e][r] - q[e]).abs() <= 1e-12 * net.h[e] * big,
                        "{} row {r} ({}): flow {} is {} but {} * ({} - {}) = {}", info.name, rk::NAMES[kind], ei.name, hq[e][r], net.h[e], x[ei.a], x[ei.b], q[e]
                    );
                    c.count("flows", 1);
                }
            }
            let (d, scale) = net.derivs(&x);
            for (k, n) in info.nodes.iter().enumerate() {
                let check = match n.kind {
                    Kind::Mass | Kind::Acc => n.saved,
                    _ => false,
                };
                if check {
                    let tol = 1e-12 * scale[k] + 1e-13 * net.rate() * big;
                    ensure!(
                        (hdx[k][r] - d[k]).abs() <= tol,
                        "{} row {r} ({}) at t={t}: derivative of {} is {} but the flows of the row give {}", info.name, rk::NAMES[kind], n.name, hdx[k][r], d[k]
                    );
                    c.count("derivs", 1);
                }
            }
            c.count("rows", 1);
            c.count(&format!("rows_{}", rk::NAMES[kind]), 1);
        }
        c.distinct(&c.desc.clone());
        if c.idx < 3 {
            c.sample(json!({"system": info.name, "solver": rk::NAMES[kind], "rows": times.len(), "first_row_flows": hq.iter().map(|v| v.first().cloned()).collect::<Vec<_>>()}));
        }
        Ok(())
    });
    for k in rk::NAMES {
        ctx.require(&format!("rows_{k}"), 100);
    }
    ctx.require("flows", 1000);
    ctx.require("derivs", 1000);
}

// ---------------------------------------------------------------------------------------- C09

/// eigenvalues of a symmetric matrix (Jacobi)
fn eigenvalues(mut a: Vec<Vec<f64>>) -> Vec<f64> {
    let n = a.len();
    for _ in 0..60 {
        let mut off = 0.;
        for p in 0..n {
            for q in p + 1..n {
                off += a[p][q] * a[p][q];
                if a[p][q].abs() < 1e-300 {
                    continue;
                }
                let th = (a[q][q] - a[p][p]) / (2. * a[p][q]);
                let t = th.signum() / (th.abs() + (th * th + 1.).sqrt());
                let t = if th == 0. { 1. } else { t };
                let c = 1. / (t * t + 1.).sqrt();
                let s = t * c;
                for k in 0..n {
                    let (x, y) = (a[k][p], a[k][q]);
                    a[k][p] = c * x - s * y;
                    a[k][q] = s * x + c * y;
                }
                for k in 0..n {
                    let (x, y) = (a[p][k], a[q][k]);
                    a[p][k] = c * x - s * y;
                    a[q][k] = s * x + c * y;
                }
            }
        }
        if off < 1e-24 {
            break;
        }
    }
    (0..n).map(|k| a[k][k]).collect()
}

pub fn c09(ctx: &Ctx, systems: &[Maker]) {
    let closed: Vec<Maker> = systems.iter().filter(|m| !m().info().open).cloned().collect();
    let acc: Vec<Maker> = systems.iter().filter(|m| m().info().nodes.iter().any(|n| n.kind == Kind::Acc)).cloned().collect();
    ctx.count("closed_topologies", closed.len() as u64);
    ctx.count("open_topologies", acc.len() as u64);
    ctx.cases("closed", ctx.n(1800, 70_000), |c| {
        let kind = c.idx % 7;
        let mut s = c.rng.pick(&closed)();
        let resolved = c.rng.bool(0.6);
        let (net, t0, report, mut spec) = setup(&mut c.rng, &mut *s, kind, resolved);
        if !resolved && !spec.is_adaptive() && c.rng.bool(0.5) {
            // steps far too large for the dynamics: conservation still holds
            spec.dt *= c.rng.logf(1., 20.);
            s.set_solver(spec.build());
        }
        c.desc = describe(&net, t0, &report, &spec);
        if !walk(c, &mut *s, &spec)? {
            return Ok(());
        }
        let info = net.info;
        let hx: Vec<Vec<f64>> = (0..info.nodes.len()).map(|k| s.ghx(k)).collect();
        // adaptive steps may be forced through too large a step only if attempts run out
        let truly = net.rate() / 2. * spec_step(&spec) <= 0.5 && (spec.is_adaptive() || resolved);
        for part in net.parts() {
            let total0: f64 = part.iter().map(|k| net.c[*k] * net.x[*k]).sum();
            let lo = part.iter().map(|k| net.x[*k]).fold(f64::MAX, f64::min);
            let hi = part.iter().map(|k| net.x[*k]).fold(f64::MIN, f64::max);
            let mut big: f64 = part.iter().map(|k| net.c[*k] * net.x[*k].abs()).sum();
            let steps = trace::count() as f64;
            for r in 0..report.len() {
                let row_big: f64 = part.iter().map(|k| net.c[*k] * hx[*k][r].abs()).sum();
                if !row_big.is_finite() {
                    c.count("runs_left_finite_range", 1);
                    return Ok(());
                }
                // between rows of an unresolved run the amplitude may have been larger still
                big = big.max(row_big);
                let total: f64 = part.iter().map(|k| net.c[*k] * hx[*k][r]).sum();
                let stiff = 1. + net.rate() * spec_step(&spec);
                let tol = 16. * EPS * big * (steps + 10.) * stiff;
                ensure!(
                    (total - total0).abs() <= tol,
                    "{} with {}: stored quantity of {:?} went from {total0} to {total} in row {r} (tol {tol:e})",
                    info.name, rk::NAMES[kind], part.iter().map(|k| info.nodes[*k].name).collect::<Vec<_>>()
                );
                c.max("worst_conservation_over_tol", (total - total0).abs() / tol);
                if truly {
                    let slack = 1e-12 * (lo.abs() + hi.abs()) * (steps + 10.);
                    for k in &part {
                        ensure!(
                            hx[*k][r] >= lo - slack && hx[*k][r] <= hi + slack,
                            "{} with {}: potential {} of {} left the initial range [{lo}, {hi}] in row {r}",
                            info.name, rk::NAMES[kind], hx[*k][r], info.nodes[*k].name
                        );
                    }
                    c.count("range_checks", 1);
                }
            }
            c.count("totals", report.len() as u64);
        }
        c.count(&format!("runs_{}", rk::NAMES[kind]), 1);
        c.distinct(&c.desc.clone());
        if c.idx < 3 {
            c.sample(json!({"system": info.name, "solver": rk::NAMES[kind], "dt": spec.dt, "x0": net.x, "final": s.x()}));
        }
        Ok(())
    });
    ctx.cases("relax", ctx.n(350, 10_000), |c| {
        let kind = c.idx % 7;
        let mut s = c.rng.pick(&closed)();
        let net = randomise(&mut c.rng, &mut *s);
        let rate = net.rate();
        if rate == 0. {
            return Ok(());
        }
        // slowest mode over all parts
        let mut slow = f64::MAX;
        for part in net.parts() {
            let n = part.len();
            if n == 1 {
                continue;
            }
            let mut a = vec![vec![0.; n]; n];
            for (e, h) in net.info.edges.iter().zip(&net.h) {
                if let (Some(i), Some(j)) = (part.iter().position(|k| *k == e.a), part.iter().position(|k| *k == e.b)) {
                    if i != j {
                        a[i][i] += h / net.c[e.a];
                        a[j][j] += h / net.c[e.b];
                        let o = h / (net.c[e.a] * net.c[e.b]).sqrt();
                        a[i][j] -= o;
                        a[j][i] -= o;
                    }
                }
            }
            let mut ev = eigenvalues(a);
            ev.sort_by(|a, b| a.partial_cmp(b).unwrap());
            slow = slow.min(ev[1]);
        }
        if slow == f64::MAX || rate / slow > 600. {
            c.count("skipped_too_stiff", 1);
            return Ok(());
        }
        let end = 25. / slow;
        let mut spec = Spec::fixed(kind, 0.2 / rate);
        if spec.is_adaptive() {
            spec.dt_max = 0.4 / rate;
            spec.dt = 0.1 / rate;
            spec.rtol = 1e-3;
            spec.atol = 1e-9;
            spec.max_iter = 50;
        }
        let report = vec![end * 0.2, end];
        s.set_time(0.);
        s.set_report(report.clone());
        s.set_solver(spec.build());
        c.desc = describe(&net, 0., &report, &spec);
        trace::set_budget(2_000_000);
        if cut(c, || s.walk())? {
            return Ok(());
        }
        for part in net.parts() {
            let ctot: f64 = part.iter().map(|k| net.c[*k]).sum();
            let mean: f64 = part.iter().map(|k| net.c[*k] * net.x[*k]).sum::<f64>() / ctot;
            let spread: f64 = part.iter().map(|k| (net.x[*k] - mean).abs()).fold(0., f64::max);
            for k in &part {
                let (mid, fin) = (s.ghx(*k)[0], s.ghx(*k)[1]);
                let amp = spread * 10. * (part.len() as f64);
                ensure!((fin - mean).abs() <= amp * 1e-9 + 1e-9 * (1. + mean.abs()), "{} with {}: {} ends at {fin}, the storage-weighted mean is {mean}", net.info.name, rk::NAMES[kind], net.info.nodes[*k].name);
                ensure!((mid - mean).abs() <= amp, "{}: {} is further away than at the start", net.info.name, net.info.nodes[*k].name);
                c.count("relaxed_nodes", 1);
            }
        }
        c.count(&format!("runs_{}", rk::NAMES[kind]), 1);
        c.distinct(&c.desc.clone());
        Ok(())
    });
    ctx.cases("boundary", ctx.n(1200, 50_000), |c| {
        let kind = c.idx % 7;
        let mut s = c.rng.pick(&acc)();
        let stable = c.rng.bool(0.6);
        let (net, t0, report, spec) = setup(&mut c.rng, &mut *s, kind, stable);
        c.desc = describe(&net, t0, &report, &spec);
        if !walk(c, &mut *s, &spec)? {
            return Ok(());
        }
        let info = net.info;
        let ak = info.nodes.iter().position(|n| n.kind == Kind::Acc).unwrap();
        let masses: Vec<usize> = (0..info.nodes.len()).filter(|k| info.nodes[*k].kind == Kind::Mass).collect();
        let stored0: f64 = masses.iter().map(|k| net.c[*k] * net.x[*k]).sum();
        let recv0 = net.x[ak];
        let steps = trace::count() as f64;
        let mut big: f64 = masses.iter().map(|k| net.c[*k] * net.x[*k].abs()).sum::<f64>() + recv0.abs();
        for r in 0..report.len() {
            let stored: f64 = masses.iter().map(|k| net.c[*k] * s.ghx(*k)[r]).sum();
            let recv = s.ghx(ak)[r];
            let row_big = masses.iter().map(|k| net.c[*k] * s.ghx(*k)[r].abs()).sum::<f64>() + recv.abs();
            if !row_big.is_finite() {
                return Ok(());
            }
            big = big.max(row_big);
            let fluxes: f64 = net.h.iter().sum::<f64>() * (amax(&net.x) + 20.);
            let tol = 16. * EPS * (big + fluxes * spec_step(&spec)) * (steps + 10.) * (1. + net.rate() * spec_step(&spec));
            ensure!(
                ((stored - stored0) - (recv - recv0)).abs() <= tol,
                "{} with {}: the masses' stored quantity changed by {} but they received {} from the boundary (row {r}, tol {tol:e})",
                info.name, rk::NAMES[kind], stored - stored0, recv - recv0
            );
            c.count("boundary_balances", 1);
            c.count("with_exchange", ((recv - recv0).abs() > 1e-6) as u64);
        }
        c.count(&format!("runs_{}", rk::NAMES[kind]), 1);
        c.distinct(&c.desc.clone());
        Ok(())
    });
    for k in rk::NAMES {
        ctx.require(&format!("runs_{k}"), 50);
    }
    ctx.require("range_checks", 200);
    ctx.require("relaxed_nodes", 200);
    ctx.require("with_exchange", 200);
}

fn spec_step(s: &Spec) -> f64 {
    if s.is_adaptive() {
        s.dt_max
    } else {
        s.dt
    }
}

// ---------------------------------------------------------------------------------------- C10

pub fn c10(ctx: &Ctx, systems: &[Maker]) {
    let open: Vec<Maker> = systems.iter().filter(|m| m().info().open).cloned().collect();
    ctx.cases("rows", ctx.n(2000, 80_000), |c| {
        let kind = c.idx % 7;
        let mut s = c.rng.pick(&open)();
        let stable = c.rng.bool(0.6);
        let (net, t0, report, spec) = setup(&mut c.rng, &mut *s, kind, stable);
        c.desc = describe(&net, t0, &report, &spec);
        if !walk(c, &mut *s, &spec)? {
            return Ok(());
        }
        let info = net.info;
        let times = s.row_times();
        if s.x().iter().any(|v| !v.is_finite()) {
            c.count("runs_left_finite_range", 1);
            return Ok(());
        }
        for (k, n) in info.nodes.iter().enumerate() {
            match n.kind {
                Kind::Fixed => {
                    ensure!(s.gx(k) == net.x[k], "{} with {}: reservoir {} went from {} to {}", info.name, rk::NAMES[kind], n.name, net.x[k], s.gx(k));
                    ensure!(s.gdx(k) == 0., "{} with {}: the derivative of reservoir {} is {}", info.name, rk::NAMES[kind], n.name, s.gdx(k));
                    if n.saved {
                        for (r, v) in s.ghx(k).iter().enumerate() {
                            ensure!(*v == net.x[k], "{} with {}: reservoir {} is {v} in row {r} instead of {}", info.name, rk::NAMES[kind], n.name, net.x[k]);
                            c.count("fixed_rows", 1);
                        }
                    }
                }
                Kind::Driven(_) => {
                    let want = s.driven(k, s.time());
                    ensure!((s.gx(k) - want).abs() <= 1e-12 * (1. + want.abs()), "{} with {}: prescribed potential {} is {} at the final time {}, must be {want}", info.name, rk::NAMES[kind], n.name, s.gx(k), s.time());
                    if n.saved {
                        for (r, v) in s.ghx(k).iter().enumerate() {
                            if times[r] > t0 {
                                let want = s.driven(k, times[r]);
                                ensure!((v - want).abs() <= 1e-12 * (1. + want.abs()), "{} with {}: prescribed potential {} is {v} in row {r} at t={}, must be {want}", info.name, rk::NAMES[kind], n.name, times[r]);
                                c.count("driven_rows", 1);
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        // masses: fixed-step runs are re-integrated with the value at each stage's time
        if !spec.is_adaptive() {
            let tab = tableau(kind);
            let ms: Vec<usize> = (0..info.nodes.len()).filter(|k| matches!(info.nodes[*k].kind, Kind::Mass | Kind::Acc)).collect();
            let f = |t: f64, y: &[f64]| {
                let mut x = net.x.clone();
                for (v, k) in y.iter().zip(&ms) {
                    x[*k] = *v;
                }
                net.set_driven(&*s, &mut x, t);
                let (d, _) = net.derivs(&x);
                ms.iter().map(|k| d[*k]).collect::<Vec<f64>>()
            };
            let mut y: Vec<f64> = ms.iter().map(|k| net.x[*k]).collect();
            let mut t = t0;
            let mut steps = 0.;
            let mut grow = amax(&y);
            for r in 0..times.len() {
                let (yn, starts, kmax) = rk::fixed_interval(&tab, &f, t, &y, times[r], spec.dt);
                steps += starts.len() as f64;
                let got: Vec<f64> = ms.iter().map(|k| s.ghx(*k)[r]).collect();
                grow = grow.max(amax(&yn)) + kmax * 1e-3;
                let slope = 100. * kmax.max(1.) * 4. * EPS * (t.abs() + times[r].abs()) * (steps + 2.);
                let tol = 1e-12 * grow * (steps + 5.) + slope;
                let d = maxdiff(&got, &yn);
                if net.rate() * spec.dt <= 2. {
                    ensure!(
                        d <= tol,
                        "{} with {}: masses at t={} are {got:?}; integrating with the boundary at each stage's own time gives {yn:?} (diff {d:e}, tol {tol:e})",
                        info.name, rk::NAMES[kind], times[r]
                    );
                    c.count("stage_time_rows", 1);
                    c.count(&format!("rows_{}", rk::NAMES[kind]), 1);
                }
                y = got;
                t = times[r];
            }
        } else {
            // adaptive: one attempt per step, so that every step size is known in advance
            let mut sp = spec.clone();
            sp.max_iter = 1;
            sp.rtol = 1e300;
            sp.save = false;
            let mut s2 = c.rng.pick(&open)();
            let net2 = randomise(&mut c.rng, &mut *s2);
            sp.dt = 1e9 / net2.scale;
            sp.dt_max = 1e9 / net2.scale;
            let t0 = t0 * net.scale / net2.scale;
            let h = c.rng.f(0.05, 0.6) / net2.rate().max(0.3 * net2.scale);
            let m = c.rng.int(1, 5);
            let report: Vec<f64> = (1..=m).map(|k| t0 + k as f64 * h).collect();
            s2.set_time(t0);
            s2.set_report(report.clone());
            s2.set_solver(sp.build());
            c.desc = describe(&net2, t0, &report, &sp);
            s2.walk();
            let tab = tableau(kind);
            let ms: Vec<usize> = (0..net2.info.nodes.len()).filter(|k| matches!(net2.info.nodes[*k].kind, Kind::Mass | Kind::Acc)).collect();
            let f = |t: f64, y: &[f64]| {
                let mut x = net2.x.clone();
                for (v, k) in y.iter().zip(&ms) {
                    x[*k] = *v;
                }
                net2.set_driven(&*s2, &mut x, t);
                let (d, _) = net2.derivs(&x);
                ms.iter().map(|k| d[*k]).collect::<Vec<f64>>()
            };
            let mut y: Vec<f64> = ms.iter().map(|k| net2.x[*k]).collect();
            let mut t = t0;
            for (r, tr) in s2.row_times().iter().enumerate() {
                let st = rk::step(&tab, &f, t, &y, tr - t);
                let want: Vec<f64> = y.iter().zip(&st.d).map(|(a, b)| a + b).collect();
                let got: Vec<f64> = ms.iter().map(|k| s2.ghx(*k)[r]).collect();
                let d = maxdiff(&got, &want);
                let tol = 1e-12 * (amax(&y) + h * st.kmax) + 100. * st.kmax * 8. * EPS * tr.abs();
                ensure!(d <= tol, "{} with {}: masses at t={tr} are {got:?}; integrating with the boundary at each stage's own time gives {want:?} (diff {d:e}, tol {tol:e})", net2.info.name, rk::NAMES[kind]);
                c.count("stage_time_rows", 1);
                c.count(&format!("rows_{}", rk::NAMES[kind]), 1);
                y = got;
                t = *tr;
            }
        }
        c.distinct(&c.desc.clone());
        if c.idx < 3 {
            c.sample(json!({"system": info.name, "solver": rk::NAMES[kind], "rows": times.len(), "drive": net.drive}));
        }
        Ok(())
    });
    // a single evaluation, and hand-called steps of the interface, leave reservoirs alone too
    ctx.cases("steps", ctx.n(800, 30_000), |c| {
        let mut s = c.rng.pick(&open)();
        let net = randomise(&mut c.rng, &mut *s);
        let t0 = c.rng.f(-1., 3.);
        s.set_time(t0);
        let kind = *c.rng.pick(&rk::FIXED);
        c.desc = format!("{} {} x={:?}", net.info.name, rk::NAMES[kind], net.x);
        for _ in 0..c.rng.int(1, 5) {
            let h = c.rng.f(0.01, 0.5) / net.rate().max(0.3 * net.scale);
            s.direct(kind, h);
            for (k, n) in net.info.nodes.iter().enumerate() {
                match n.kind {
                    Kind::Fixed => ensure!(s.gx(k) == net.x[k], "{}: a {} step changed reservoir {} from {} to {}", net.info.name, rk::NAMES[kind], n.name, net.x[k], s.gx(k)),
                    Kind::Driven(_) => {
                        let want = s.driven(k, s.time());
                        ensure!((s.gx(k) - want).abs() <= 1e-12 * (1. + want.abs()), "{}: after a {} step prescribed {} is {} at t={}, must be {want}", net.info.name, rk::NAMES[kind], n.name, s.gx(k), s.time());
                    }
                    _ => {}
                }
            }
            c.count("single_steps", 1);
        }
        c.distinct(&c.desc.clone());
        Ok(())
    });
    for k in rk::NAMES {
        ctx.require(&format!("rows_{k}"), 100);
    }
    ctx.require("fixed_rows", 500);
    ctx.require("driven_rows", 500);
}

// ---------------------------------------------------------------------------------------- C11

pub fn c11(ctx: &Ctx, systems: &[Maker], twins: &[Twin]) {
    ctx.cases("balance", ctx.n(4000, 150_000), |c| {
        let mut s = c.rng.pick(systems)();
        let mut net = randomise(&mut c.rng, &mut *s);
        let info = net.info;
        // conductances, storages and differences of very different sizes side by side
        let wide = c.rng.bool(0.5);
        if wide {
            let (eh, ec, ex) = (c.rng.f(0., 14.), c.rng.f(0., 6.), c.rng.f(0., 8.));
            let h: Vec<f64> = info.edges.iter().map(|_| 10f64.powf(c.rng.f(-eh, eh))).collect();
            let cap: Vec<f64> = info.nodes.iter().map(|_| 10f64.powf(c.rng.f(-ec, ec))).collect();
            let x: Vec<f64> = info.nodes.iter().map(|_| 10f64.powf(c.rng.f(-ex, ex / 2.)) * if c.rng.bool(0.5) { 1. } else { -1. }).collect();
            s.set_from(&x, &h, &cap);
            net.h = h;
            for k in 0..info.nodes.len() {
                if net.c[k].is_finite() {
                    net.c[k] = cap[k];
                }
            }
            c.count("wide_ranges", 1);
        }
        let t = c.rng.f(-2., 5.);
        s.set_time(t);
        for round in 0..3 {
            // junk left in derivatives and flows must not matter
            for e in 0..info.edges.len() {
                s.gset_q(e, c.rng.f(-50., 50.));
            }
            for (k, n) in info.nodes.iter().enumerate() {
                if n.state.is_some() && !matches!(n.kind, Kind::Fixed | Kind::Driven(_)) {
                    s.gset_dx(k, c.rng.f(-50., 50.));
                }
            }
            let mut x: Vec<f64> = (0..info.nodes.len()).map(|k| s.gx(k)).collect();
            if round > 0 {
                for (k, n) in info.nodes.iter().enumerate() {
                    if n.kind == Kind::Mass {
                        x[k] = if wide { x[k] * c.rng.logf(0.3, 3.) } else { c.rng.f(-20., 20.) };
                        s.gset_x(k, x[k]);
                    }
                }
            }
            c.desc = format!("{} x={x:?} h={:?} c={:?} t={t}", info.name, net.h, net.c);
            s.t_update_derivs();
            if round == 2 {
                s.t_update_derivs();
            }
            net.set_driven(&*s, &mut x, t);
            let q = net.flows(&x);
            let big = |e: usize| x[info.edges[e].a].abs().max(x[info.edges[e].b].abs());
            for (e, ei) in info.edges.iter().enumerate() {
                ensure!(
                    (s.gq(e) - q[e]).abs() <= 4. * EPS * net.h[e] * big(e) + 1e-320,
                    "{}: flow {} from {} ({}) to {} ({}) with conductance {} is {}, must be {}", info.name, ei.name,
                    info.nodes[ei.a].name, x[ei.a], info.nodes[ei.b].name, x[ei.b], net.h[e], s.gq(e), q[e]
                );
                ensure!(s.gh(e) == net.h[e], "{}: conductance {} changed", info.name, ei.name);
                c.count("flows", 1);
            }
            let (d, _) = net.derivs(&x);
            for (k, n) in info.nodes.iter().enumerate() {
                if matches!(n.kind, Kind::Mass | Kind::Acc) {
                    // rounding of the terms which this node's own connections contribute
                    let terms: f64 = info.edges.iter().enumerate().filter(|(_, e)| n.kind == Kind::Acc || e.a == k || e.b == k).map(|(e, _)| net.h[e] * big(e)).sum();
                    let tol = 16. * EPS * terms / if n.kind == Kind::Acc { 1. } else { net.c[k] } + 1e-320;
                    ensure!((s.gdx(k) - d[k]).abs() <= tol, "{}: derivative of {} is {}, its connections give {}", info.name, n.name, s.gdx(k), d[k]);
                    c.count("derivs", 1);
                }
                if let Kind::Driven(_) = n.kind {
                } else {
                    ensure!(s.gx(k).to_bits() == x[k].to_bits(), "{}: evaluating derivatives changed the potential of {}", info.name, n.name);
                }
                if n.kind == Kind::Mass {
                    ensure!(s.gc(k) == net.c[k], "{}: storage of {} changed", info.name, n.name);
                }
            }
            ensure!(s.time() == t, "evaluating derivatives changed the time");
            c.count("evaluations", 1);
        }
        c.distinct(&c.desc.clone());
        if c.idx < 4 {
            c.sample(json!({"system": info.name, "edges": info.edges.iter().map(|e| format!("{}: {}->{}", e.name, info.nodes[e.a].name, info.nodes[e.b].name)).collect::<Vec<_>>()}));
        }
        Ok(())
    });
    ctx.cases("swap", ctx.n(1500, 60_000), |c| {
        let tw = c.rng.pick(twins);
        let (mut a, mut b) = ((tw.a)(), (tw.b)());
        let kind = c.rng.below(7);
        let (net, t0, report, spec) = setup(&mut c.rng, &mut *a, kind, true);
        b.set_index(0);
        b.set_from(&net.x, &net.h, &net.c);
        b.set_drive(net.drive.clone());
        b.set_time(t0);
        b.set_report(report.clone());
        b.set_solver(spec.build());
        c.desc = describe(&net, t0, &report, &spec);
        a.t_update_derivs();
        b.t_update_derivs();
        let cmp = |a: &dyn NetSys, b: &dyn NetSys, tol: f64, when: &str| -> R {
            for (e, ei) in net.info.edges.iter().enumerate() {
                let sign = if tw.swapped.contains(&e) { -1. } else { 1. };
                ensure!((a.gq(e) - sign * b.gq(e)).abs() <= tol * net.h[e], "{} {when}: flow {} is {} but {} when the ends of {:?} are swapped", net.info.name, ei.name, a.gq(e), b.gq(e), tw.swapped);
            }
            for (k, n) in net.info.nodes.iter().enumerate() {
                if matches!(n.kind, Kind::Mass | Kind::Acc) {
                    ensure!((a.gdx(k) - b.gdx(k)).abs() <= tol * (1. + net.rate() + net.h.iter().sum::<f64>()), "{} {when}: derivative of {} is {} but {} when the ends of {:?} are swapped", net.info.name, n.name, a.gdx(k), b.gdx(k), tw.swapped);
                }
                ensure!((a.gx(k) - b.gx(k)).abs() <= tol, "{} {when}: {} is {} but {} when ends are swapped", net.info.name, n.name, a.gx(k), b.gx(k));
            }
            Ok(())
        };
        let big = amax(&net.x) + 30.;
        cmp(&*a, &*b, 1e-13 * big, "after one evaluation")?;
        c.count("swapped_edges", tw.swapped.len() as u64);
        if !spec.is_adaptive() {
            if !walk(c, &mut *a, &spec)? || !walk(c, &mut *b, &spec)? {
                return Ok(());
            }
            cmp(&*a, &*b, 1e-10 * big, "after a walk")?;
            c.count("swap_walks", 1);
        }
        c.distinct(&c.desc.clone());
        Ok(())
    });
    ctx.require("flows", 1000);
    ctx.require("wide_ranges", 1000);
    ctx.require("derivs", 1000);
    ctx.require("swapped_edges", 200);
}

// ---------------------------------------------------------------------------------------- C12

fn bits(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| x.to_bits()).collect()
}

pub fn c12(ctx: &Ctx, systems: &[Maker]) {
    ctx.cases("interface", ctx.n(4000, 150_000), |c| {
        let mut s = c.rng.pick(systems)();
        let rows = c.rng.below(3);
        s.scramble(&mut c.rng, rows);
        let info = s.info();
        let nn = info.nodes.len();
        let n = info.states.len();
        c.desc = format!("{}", info.name);
        let reservoir = |k: usize| matches!(info.nodes[k].kind, Kind::Fixed | Kind::Driven(_));
        // what each marked field holds, by direct access
        let xs = |s: &dyn NetSys| -> Vec<f64> { info.states.iter().map(|k| s.gx(*k)).collect() };
        let ds = |s: &dyn NetSys| -> Vec<f64> { info.states.iter().map(|k| s.gdx(*k)).collect() };
        ensure!(bits(&s.t_states()) == bits(&xs(&*s)), "{}: states() is {:?}, the marked fields hold {:?}", info.name, s.t_states(), xs(&*s));
        ensure!(bits(&s.t_derivs()) == bits(&ds(&*s)), "{}: derivs() is {:?}, the marked fields hold {:?}", info.name, s.t_derivs(), ds(&*s));
        let cs: Vec<f64> = info.states.iter().map(|k| s.gc(*k)).collect();
        ensure!(bits(&s.t_storages()) == bits(&cs), "{}: storages() is {:?}, the marked fields hold {cs:?}", info.name, s.t_storages());
        // every writing method against a model made with direct access only
        let dt = *c.rng.pick(&[0.5, 0.25, 1e-3, 0.1, 3., 0., 0.37, -0.5, -3.7, 1e-9, 1e9, -1e9]);
        let v: Vec<f64> = (0..n).map(|_| if c.rng.bool(0.1) { c.rng.any_finite() } else { c.rng.f(-9., 9.) }).collect();
        let small: Vec<f64> = (0..n).map(|_| c.rng.f(-9., 9.)).collect();
        for op in 0..7 {
            let mut a = s.dup_net();
            let mut b = s.dup_net();
            let name = match op {
                0 => {
                    a.t_set_states(v.clone());
                    for (i, k) in info.states.iter().enumerate() {
                        b.gset_x(*k, v[i]);
                    }
                    ensure!(bits(&a.t_states()) == bits(&v), "{}: set_states({v:?}) reads back {:?}", info.name, a.t_states());
                    "set_states"
                }
                1 => {
                    a.t_set_derivs(&v);
                    for (i, k) in info.states.iter().enumerate() {
                        b.gset_dx(*k, if reservoir(*k) { 0. } else { v[i] });
                    }
                    let want: Vec<f64> = info.states.iter().enumerate().map(|(i, k)| if reservoir(*k) { 0. } else { v[i] }).collect();
                    ensure!(bits(&a.t_derivs()) == bits(&want), "{}: set_derivs({v:?}) reads back {:?}", info.name, a.t_derivs());
                    "set_derivs"
                }
                2 => {
                    a.t_step_states(small.clone());
                    for (i, k) in info.states.iter().enumerate() {
                        let x = b.gx(*k) + small[i];
                        b.gset_x(*k, x);
                    }
                    "step_states"
                }
                3 => {
                    a.t_step_derivs(small.clone());
                    for (i, k) in info.states.iter().enumerate() {
                        if reservoir(*k) {
                            // a reservoir decides itself what to do with a derivative
                            let d = a.gdx(*k);
                            b.gset_dx(*k, d);
                            continue;
                        }
                        let x = b.gdx(*k) + small[i];
                        b.gset_dx(*k, x);
                    }
                    "step_derivs"
                }
                4 => {
                    a.t_step_states_by_dt(dt);
                    for k in info.states {
                        let x = b.gx(*k) + dt * b.gdx(*k);
                        b.gset_x(*k, x);
                    }
                    let t = b.time() + dt;
                    b.set_time(t);
                    "step_states_by_dt"
                }
                5 => {
                    a.t_reset_derivs();
                    for k in info.states {
                        b.gset_dx(*k, 0.);
                    }
                    ensure!(a.t_derivs().iter().all(|d| *d == 0.), "{}: after reset_derivs derivs() is {:?}", info.name, a.t_derivs());
                    "reset_derivs"
                }
                _ => {
                    a.t_step_time(dt);
                    let t = b.time() + dt;
                    b.set_time(t);
                    "step_time"
                }
            };
            // element by element, allowing another order of rounding within one element
            let (xa, xb) = (xs(&*a), xs(&*b));
            let (da, db) = (ds(&*a), ds(&*b));
            for i in 0..n {
                ensure!(close(xa[i], xb[i]), "{}: after {name} state {i} ({}) is {}, must be {}", info.name, info.nodes[info.states[i]].name, xa[i], xb[i]);
                ensure!(close(da[i], db[i]), "{}: after {name} derivative {i} ({}) is {}, must be {}", info.name, info.nodes[info.states[i]].name, da[i], db[i]);
            }
            ensure!((a.time() - b.time()).abs() <= 4. * EPS * (a.time().abs() + dt.abs()), "{}: after {name} the time is {}, must be {}", info.name, a.time(), b.time());
            // and nothing else changed: overwrite what may differ in rounding, then compare all
            for k in info.states {
                let (x, d) = (b.gx(*k), b.gdx(*k));
                a.gset_x(*k, x);
                a.gset_dx(*k, d);
            }
            let t = b.time();
            a.set_time(t);
            ensure!(a.dbg() == b.dbg(), "{}: {name} changed something besides the marked states: {} instead of {}", info.name, a.dbg(), b.dbg());
            c.count("operations", 1);
        }
        // solver configuration
        let kind = c.rng.below(7);
        let spec = Spec::random_of(&mut c.rng, kind, 1., 1.);
        s.set_solver(spec.build());
        let sc = s.t_sc();
        ensure!(sc.is_some() == spec.is_adaptive(), "{}: solver configuration of {} is {sc:?}", info.name, rk::NAMES[kind]);
        ensure!(s.t_sc_mut().is_some() == spec.is_adaptive(), "{}: mutable solver configuration of {} is missing or there", info.name, rk::NAMES[kind]);
        if let Some(sc) = sc {
            ensure!(format!("{sc:?}") == format!("{:?}", s.sc().unwrap()), "{}: sc() gives another configuration", info.name);
            let nd = c.rng.f(0.1, 0.9);
            s.t_sc_mut().unwrap().state.dt = nd;
            s.t_sc_mut().unwrap().rtol = 2. * nd;
            let got = s.sc().unwrap();
            ensure!(got.state.dt == nd && got.rtol == 2. * nd && s.t_sc().unwrap().state.dt == nd, "{}: writing through sc_mut() does not reach the solver", info.name);
            c.count("solver_configs", 1);
        }
        let st = s.t_state();
        ensure!(st.time.to_bits() == s.time().to_bits() && st.i == s.index(), "{}: state() is {st:?}", info.name);
        c.count("states", n as u64);
        let _ = nn;
        c.distinct(&format!("{} {:?}", info.name, v));
        if c.idx < 4 {
            c.sample(json!({"system": info.name, "states": info.states.iter().map(|k| info.nodes[*k].name).collect::<Vec<_>>()}));
        }
        Ok(())
    });
    // systems without any connection: pure state lists
    ctx.cases("plain", ctx.n(600, 20_000), |c| {
        let n = *c.rng.pick(&SIZES);
        // (extreme parameters keep the system in units of one)
        let rhs = Rhs { kind: crate::sys::CONST, n, p: vec![1e300; n] };
        let y: Vec<f64> = (0..n).map(|_| c.rng.any_finite()).collect();
        let s = make(&rhs, &y, Spec::random(&mut c.rng, 1., 1.).build(), 0., &[1.]);
        ensure!(bits(&s.x()) == bits(&y), "states");
        c.count("plain", 1);
        c.distinct(&format!("{y:?}"));
        Ok(())
    });
    ctx.require("operations", 1000);
    ctx.require("solver_configs", 100);
    ctx.count("declarations", systems.len() as u64);
}

fn close(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 4. * EPS * (a.abs() + b.abs()) || (a == 0. && b == 0.) || (a - b).abs() <= 1e-15
}

// ---------------------------------------------------------------------------------------- C14

pub fn c14(ctx: &Ctx, systems: &[Maker]) {
    ctx.cases("clone", ctx.n(2500, 100_000), |c| {
        let mut s = c.rng.pick(systems)();
        let info = s.info();
        if c.rng.bool(0.6) {
            let rows = c.rng.below(6);
            s.scramble(&mut c.rng, rows);
        } else {
            // a state reached by walking
            let kind = c.rng.below(7);
            let (_, _, _, spec) = setup(&mut c.rng, &mut *s, kind, true);
            if c.rng.bool(0.8) && !walk(c, &mut *s, &spec)? {
                return Ok(());
            }
        }
        c.desc = s.dbg();
        let before = s.dbg();
        let bare = s.real_bare();
        ensure!(s.dbg() == before, "{}: taking a bare clone changed the original", info.name);
        let want = s.model_bare();
        ensure!(bare.dbg() == want.dbg(), "{}: bare clone is {} but must be {}", info.name, bare.dbg(), want.dbg());
        for (k, l) in bare.lens().iter().enumerate() {
            ensure!(*l == 0, "{}: history column {k} of a bare clone has {l} rows", info.name);
        }
        for (name, got, want) in s.comp_bare() {
            ensure!(got == want, "{}: bare clone of component {name} is {got}, must be {want}", info.name);
            c.count("components", 1);
        }
        // independence, both ways
        let mut b1 = s.real_bare();
        for _ in 0..2 {
            b1.save_state();
            b1.t_step_time(0.5);
            let v: Vec<f64> = b1.t_states().iter().map(|x| x + 1.).collect();
            b1.t_set_states(v);
            b1.t_reset_derivs();
            let mut r2 = Rng::new(c.idx as u64);
            b1.scramble(&mut r2, 2);
        }
        ensure!(s.dbg() == before, "{}: changing a bare clone changed the original", info.name);
        let b2 = s.real_bare();
        let b2d = b2.dbg();
        let mut orig = s.dup_net();
        let mut r2 = Rng::new(c.idx as u64 + 1);
        s.scramble(&mut r2, 1);
        s.save_state();
        ensure!(b2.dbg() == b2d, "{}: changing the original changed its bare clone", info.name);
        // a bare clone behaves as the original from here on
        let mut b3 = b2;
        orig.t_update_derivs();
        b3.t_update_derivs();
        ensure!(orig.model_bare().dbg() == b3.dbg(), "{}: a bare clone evaluates differently", info.name);
        c.count("clones", 3);
        c.count("rows_left_behind", orig.lens()[0] as u64);
        c.distinct(&before);
        if c.idx < 3 {
            c.sample(json!({"system": info.name, "rows_of_original": orig.lens()[0], "columns": orig.lens().len()}));
        }
        Ok(())
    });
    // solvers' internal copies: a solver step records nothing, a walk exactly the report rows
    ctx.cases("internal", ctx.n(1200, 40_000), |c| {
        let kind = c.idx % 7;
        let mut s = c.rng.pick(systems)();
        let (net, t0, report, mut spec) = setup(&mut c.rng, &mut *s, kind, true);
        spec.save = false;
        s.set_solver(spec.build());
        c.desc = describe(&net, t0, &report, &spec);
        let pre = c.rng.below(4);
        for _ in 0..pre {
            s.save_state();
        }
        let len0 = s.all_lens();
        s.set_index(report.len() - 1);
        trace::set_budget(60_000);
        if cut(c, || s.solve_step())? {
            return Ok(());
        }
        ensure!(s.all_lens() == len0, "{}: a {} step changed history lengths from {len0:?} to {:?}", net.info.name, rk::NAMES[kind], s.all_lens());
        c.count(&format!("steps_{}", rk::NAMES[kind]), 1);
        c.distinct(&c.desc.clone());
        Ok(())
    });
    ctx.cases("parts", ctx.n(200, 5000), |c| {
        // unmarked components are cloned with everything they hold
        let mut s = c.rng.pick(systems)();
        s.scramble(&mut c.rng, 3);
        let a = s.real_bare();
        let (la, lw) = (a.all_lens(), s.model_bare().all_lens());
        ensure!(la == lw, "{}: history lengths of a bare clone {la:?}, must be {lw:?}", s.info().name);
        c.distinct(&s.dbg());
        Ok(())
    });
    ctx.require("clones", 500);
    ctx.require("rows_left_behind", 500);
    for k in rk::NAMES {
        ctx.require(&format!("steps_{k}"), 30);
    }
}

// ---------------------------------------------------------------------------------------- C15

pub fn c15(ctx: &Ctx, systems: &[Maker]) {
    ctx.cases("save", ctx.n(3000, 120_000), |c| {
        let mut s = c.rng.pick(systems)();
        let info = s.info();
        let walked = c.rng.bool(0.3);
        if walked {
            let kind = c.rng.below(7);
            let (_, _, _, spec) = setup(&mut c.rng, &mut *s, kind, true);
            if !walk(c, &mut *s, &spec)? {
                return Ok(());
            }
        } else {
            let rows = c.rng.below(5);
            s.scramble(&mut c.rng, rows);
        }
        let mut m = s.dup_net();
        c.desc = s.dbg();
        for k in 0..c.rng.int(1, 4) {
            if k > 0 && c.rng.bool(0.5) {
                // move on between saves
                let dt = c.rng.f(0., 1.);
                let v: Vec<f64> = s.t_states().iter().map(|x| x * 0.5 + 1.).collect();
                s.t_set_states(v.clone());
                m.t_set_states(v);
                let t = s.time() + dt;
                s.set_time(t);
                m.set_time(t);
                let i = s.index() + 1;
                s.set_index(i);
                m.set_index(i);
            }
            let before: usize = s.all_lens().iter().map(|x| x.1).sum();
            s.save_state();
            m.model_save();
            let after: usize = s.all_lens().iter().map(|x| x.1).sum();
            ensure!(s.all_lens() == m.all_lens(), "{}: history lengths after save {k} are {:?}, must be {:?}", info.name, s.all_lens(), m.all_lens());
            ensure!(s.dbg() == m.dbg(), "{}: after save_state the system is {}, must be {}", info.name, s.dbg(), m.dbg());
            c.count("saves", 1);
            c.count("values_appended", (after - before) as u64);
        }
        for (name, got, want) in s.comp_save() {
            ensure!(got == want, "{}: save_state of component {name} gives {got}, must be {want}", info.name);
            c.count("component_saves", 1);
        }
        c.distinct(&c.desc.clone());
        if c.idx < 3 {
            c.sample(json!({"system": info.name, "columns": s.all_lens().iter().take(6).collect::<Vec<_>>()}));
        }
        Ok(())
    });
    // many thousand rows
    ctx.cases("long", ctx.n(16, 300), |c| {
        let mut s = if c.idx % 2 == 0 { systems[(c.idx / 2) % 4.min(systems.len())]() } else { c.rng.pick(systems)() };
        let info = s.info();
        s.scramble(&mut c.rng, 0);
        let mut m = s.dup_net();
        let n = if c.idx % 4 == 0 { c.rng.int(65_500, 70_000) } else { c.rng.logf(2e3, 3e4) as usize };
        c.desc = format!("{} {n} saves", info.name);
        for k in 0..n {
            if k % 3 == 0 {
                let t = k as f64 * 0.5;
                s.set_time(t);
                m.set_time(t);
                s.set_index(k);
                m.set_index(k);
            }
            s.save_state();
            m.model_save();
        }
        ensure!(s.all_lens() == m.all_lens(), "{}: history lengths after {n} saves are {:?}, must be {:?}", info.name, s.all_lens(), m.all_lens());
        ensure!(s.dbg() == m.dbg(), "{}: histories differ from those of {n} saves", info.name);
        c.count("long_saves", n as u64);
        c.distinct(&c.desc.clone());
        Ok(())
    });
    ctx.require("long_saves", 50_000);
    ctx.require("saves", 1000);
    ctx.require("component_saves", 1000);
    ctx.count("declarations", systems.len() as u64);
}
