//! C25: workloads over the whole safe interface, meant to run under AddressSanitizer, LeakSanitizer,
//! ThreadSanitizer and Miri; the counting allocator watches for leaks in every build.
use crate::alloc;
use crate::c_hist::{self, HistFn};
use crate::c_run::subject;
use crate::c_serde::{any_thing, mutate, shipped_things, Fmt, SerdeFn, FMTS};
use crate::ctx::{guarded, Case, Ctx, R};
use crate::ensure;
use crate::net::*;
use crate::rng::Rng;
use crate::sys::*;
use crate::trace;
use crate::Gen;
use dess::prelude::*;
use dess::utilities::almost_eq;
use dess::zip;
use dess_examples::components::*;
use dess_examples::three_thermal_mass_sys::System3TM;
use dess_examples::three_thrml_mass_w_bc_sys::System3TMWithBC;
use serde_json::json;
use std::sync::{mpsc, Arc, Mutex, RwLock};

/// an interpreter is thousands of times slower
const TINY: bool = cfg!(miri);
/// lies beyond the end of vectors handed over
const MARK: f64 = 1.2345e250;

/// runs the same work repeatedly: once caches are warm, nothing may stay allocated
fn steady(c: &mut Case, what: &str, f: &mut dyn FnMut()) -> R {
    let runs = if TINY { 2 } else { 3 };
    for k in 0..runs {
        let ((), _, _, bytes, blocks) = alloc::measured(|| {
            f();
            trace::reset();
        });
        if k + 1 == runs {
            ensure!(bytes == 0 && blocks == 0, "{what}: {bytes} bytes in {blocks} blocks are still allocated after everything was dropped");
            c.count("leak_measurements", 1);
        }
    }
    Ok(())
}

const OPS: usize = 16;
const OP_NAMES: [&str; OPS] = [
    "made", "walked", "stepped", "cloned", "bare_cloned", "bincode", "json", "yaml", "dropped", "compared", "cleared", "direct_steps", "swapped_solver",
    "cut_mid_step", "saved", "report_changed",
];

fn kind_of(r: &mut Rng) -> usize {
    r.below(7)
}

/// a length of time which means something to the system; none once its report times are gone
fn span_of(s: &dyn Ode) -> Option<f64> {
    let t = s.report();
    let (a, b) = (t.first()?, t.last()?);
    let span = (b - a).abs().max((b - s.time()).abs());
    (span.is_finite() && span > 0.).then_some(span)
}
/// the shipped systems do not count their evaluations, and a walk from such states may not end (C20)
fn may_walk(s: &dyn Ode) -> bool {
    s.x().iter().all(|x| x.abs() < 1e50) && span_of(s).is_some()
}

/// random operations on a pool of systems
fn churn(r: &mut Rng, systems: &[Maker], ops: usize, stat: &mut [u64; OPS]) {
    let mut pool: Vec<Box<dyn Ode>> = vec![];
    for k in 0..ops {
        let op = if pool.is_empty() { 0 } else { r.below(OPS + 2) };
        let i = r.below(pool.len().max(1));
        stat[op.min(OPS - 1)] += 1;
        match op {
            0 => {
                let kind = r.below(7);
                let s = subject(r, systems, kind, if TINY { 2 } else { 8 });
                pool.push(s);
            }
            1 => {
                trace::set_budget(if TINY { 60 } else { 4000 });
                if may_walk(&*pool[i]) {
                    let _ = guarded(|| pool[i].walk());
                }
            }
            2 | 16 => {
                trace::set_budget(if TINY { 40 } else { 2000 });
                let s = &mut pool[i];
                let may = may_walk(&**s);
                let _ = guarded(|| {
                    for _ in 0..2 {
                        if may && s.index() < s.report().len() && s.time() < s.report()[s.index()] {
                            s.solve_step();
                            let n = s.index() + 1;
                            s.set_index(n);
                            s.save_state();
                        }
                    }
                });
            }
            3 => {
                let d = pool[i].dup();
                pool.push(d);
            }
            4 => {
                let d = pool[i].bare();
                pool.push(d);
            }
            5 => {
                if let Ok(d) = pool[i].unbin(&pool[i].bin()) {
                    pool.push(d);
                }
            }
            6 => {
                if let Ok(d) = pool[i].unjson(&pool[i].json()) {
                    pool[i] = d;
                }
            }
            7 => {
                if !TINY || k % 4 == 0 {
                    if let Ok(d) = pool[i].unyaml(&pool[i].yaml()) {
                        pool[i] = d;
                    }
                }
            }
            8 => drop(pool.swap_remove(i)),
            9 => {
                let j = r.below(pool.len());
                let _ = (pool[i].eq_dyn(&*pool[j]), pool[i].dbg().len(), pool[i].rows().map(|v| v.len()), pool[i].lens());
            }
            10 => pool[i].clear_histories(),
            11 => {
                trace::set_budget(1000);
                let (kind, h) = (r.below(7), r.f(0.001, 0.05));
                let s = &mut pool[i];
                if let Some(span) = span_of(&**s) {
                    let _ = guarded(|| s.direct(kind, h * span));
                }
            }
            12 => {
                // the shipped systems do not count their evaluations: steps in proportion to what is left
                let Some(span) = span_of(&*pool[i]) else { continue };
                let mut sp = {
                    let kind = kind_of(r);
                    Spec::random_of(r, kind, span, 1.)
                };
                sp.dt = sp.dt.max(span / 40.);
                sp.dt_max = sp.dt_max.max(span / 40.);
                sp.rtol = sp.rtol.max(1e-3);
                sp.atol = sp.atol.max(1e-5);
                pool[i].set_solver(sp.build());
            }
            13 => {
                // user code which panics somewhere within a step; the system lives on
                trace::set_budget(r.int(1, if TINY { 8 } else { 40 }) as u64);
                let s = &mut pool[i];
                if may_walk(&**s) {
                    let _ = guarded(|| s.walk());
                }
                let _ = pool[i].dbg();
            }
            14 => pool[i].save_state(),
            15 => {
                let mut t = pool[i].report();
                if r.bool(0.5) {
                    t.truncate(r.below(t.len() + 1));
                } else {
                    let last = t.last().cloned().unwrap_or(0.);
                    t.push(last + 0.1 * span_of(&*pool[i]).unwrap_or(0.));
                }
                pool[i].set_report(t);
            }
            _ => {
                let s = pool[i].sc();
                drop(s);
            }
        }
        if pool.len() > 6 {
            let j = r.below(pool.len());
            pool.swap_remove(j);
        }
    }
}

/// a vector with no room behind its end, or with marked values there
fn vector(r: &mut Rng, n: usize, marked: bool) -> Vec<f64> {
    let mut v: Vec<f64> = Vec::with_capacity(if marked { n + 16 } else { n });
    v.extend((0..n).map(|_| r.f(-5., 5.)));
    if marked {
        v.extend([MARK; 16]);
        v.truncate(n);
    }
    v
}

fn interface(c: &mut Case, systems: &[Maker]) -> R {
    let mut s = c.rng.pick(systems)();
    s.scramble(&mut c.rng, 1);
    let n = s.t_states().len();
    c.desc = s.info().name.to_string();
    let lens = [0, n.saturating_sub(1), n / 2, n, n + 1, n + 9];
    for _ in 0..if TINY { 6 } else { 40 } {
        let len = *c.rng.pick(&lens);
        let marked = !TINY && c.rng.bool(0.5);
        let v = vector(&mut c.rng, len, marked);
        let which = c.rng.below(5);
        let r = match which {
            0 => guarded(|| s.t_set_states(v)),
            1 => guarded(|| s.t_set_derivs(&v)),
            2 => guarded(|| s.t_step_states(v)),
            3 => guarded(|| s.t_step_derivs(v)),
            _ => guarded(|| s.t_step_states_by_dt(0.25)),
        };
        c.count(if r.is_err() { "vectors_refused" } else { "vectors_taken" }, 1);
        for x in s.t_states().iter().chain(s.t_derivs().iter()) {
            ensure!(!(x.abs() > 1e200), "{}: after a vector of {len} values was handed over for {n} states (operation {which}), a value from beyond its end is in use: {x:e}", s.info().name);
        }
        let (a, b, d) = (s.t_states().len(), s.t_derivs().len(), s.t_storages().len());
        ensure!(a == n && b == n && d == n, "{}: {n} states became {a}, {b}, {d}", s.info().name);
    }
    // still a usable system
    s.t_reset_derivs();
    s.t_update_derivs();
    s.save_state();
    let _ = (s.dup_net().dbg(), s.real_bare().dbg(), s.t_sc(), s.t_state());
    c.count("interfaces", 1);
    c.distinct(&format!("{} {}", c.desc, c.idx));
    Ok(())
}

fn dummy<'a>(seed: u64) -> Case<'a> {
    Case {
        rng: Rng::new(seed),
        section: "dummy",
        idx: 9,
        thorough: false,
        distinct: Default::default(),
        counts: Default::default(),
        maxima: Default::default(),
        samples: vec![],
        known: vec![],
        desc: String::new(),
    }
}

fn small3tm(r: &mut Rng) -> System3TM {
    let mut s = System3TM { solver_type: random_solver_small(r), ..Default::default() };
    s.t_report = (1..=if TINY { 2 } else { 10 }).map(|k| k as f64 * 0.2).collect();
    s.m1.state.temp = r.f(-5., 5.);
    s.m2.state.temp = r.f(-5., 5.);
    s
}
fn small_bc(r: &mut Rng) -> System3TMWithBC {
    let mut s = System3TMWithBC { solver_type: random_solver_small(r), ..Default::default() };
    s.t_report = (1..=if TINY { 2 } else { 10 }).map(|k| k as f64 * 0.2).collect();
    s.m2.state.temp = r.f(-5., 5.);
    s
}
fn random_solver_small(r: &mut Rng) -> SolverTypes {
    let kind = r.below(7);
    let mut sp = Spec::random_of(r, kind, 1., 1.);
    sp.dt = 0.1;
    sp.dt_max = 0.2;
    sp.rtol = sp.rtol.max(1e-3);
    sp.atol = sp.atol.max(1e-6);
    sp.build()
}

/// walks on several threads, systems moved between them and shared read-only by all
fn threads(c: &mut Case, systems: &[Maker]) -> R {
    let n = if TINY { 3 } else { c.rng.int(2, 8) };
    let shared = Arc::new(small3tm(&mut c.rng));
    let guarded_sys = Arc::new(RwLock::new(small_bc(&mut c.rng)));
    let want = {
        let mut s = (*shared).clone();
        s.walk();
        format!("{s:?}")
    };
    let seeds: Vec<u64> = (0..n).map(|_| c.rng.u64()).collect();
    let (tx, rx) = mpsc::channel::<System3TM>();
    let rx = Mutex::new(rx);
    let done = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for seed in &seeds {
            let (shared, guarded_sys, tx, rx, done, want) = (shared.clone(), guarded_sys.clone(), tx.clone(), &rx, &done, &want);
            sc.spawn(move || {
                let mut r = Rng::new(*seed);
                let mut bad = vec![];
                for round in 0..if TINY { 1 } else { 6 } {
                    // the shared system, read and copied
                    let mut s = (*shared).clone();
                    s.walk();
                    if &format!("{s:?}") != want {
                        bad.push(format!("round {round}: a copy of the shared system walked differently on this thread"));
                    }
                    let _ = (shared.states(), shared.derivs(), shared.storages(), shared.bare_clone() == *shared, dess::prelude::SolverBase::sc(&*shared).cloned());
                    let b = shared.to_bincode();
                    if System3TM::from_bincode(&b).ok().as_ref() != Some(&*shared) {
                        bad.push("the shared system does not survive bincode on this thread".into());
                    }
                    if !TINY {
                        let y = shared.to_yaml();
                        if System3TM::from_yaml(&y).ok().as_ref() != Some(&*shared) {
                            bad.push("the shared system does not survive YAML on this thread".into());
                        }
                        let _ = System3TM::from_json(&shared.to_json());
                    }
                    // one which is written by all in turn
                    {
                        let mut g = guarded_sys.write().unwrap_or_else(|e| e.into_inner());
                        let next = g.t_report.last().unwrap() + 0.1;
                        g.t_report.push(next);
                        g.walk();
                        if g.t_report.len() > 40 {
                            *g = small_bc(&mut r);
                        }
                    }
                    {
                        let g = guarded_sys.read().unwrap_or_else(|e| e.into_inner());
                        let _ = (g.states(), g.history.len(), g.m1.history.len());
                    }
                    // sent on, and continued by whoever gets it
                    let _ = tx.send(s);
                    let got = rx.lock().unwrap().try_recv();
                    if let Ok(mut s) = got {
                        s.t_report.push(s.t_report.last().unwrap() + 0.2);
                        s.walk();
                        let (a, b) = (s.history.len(), s.m1.history.len());
                        if a != b || a != s.t_report.len() {
                            bad.push(format!("a system continued on another thread has {a} and {b} rows for {} report times", s.t_report.len()));
                        }
                    }
                    // systems of its own
                    let mut stat = [0; OPS];
                    churn(&mut r, systems, if TINY { 3 } else { 10 }, &mut stat);
                    // helpers
                    let v = Vec::linspace(0., 1., 5);
                    let _ = (v.diff().len(), almost_eq(v[0], v[1], Some(1e-3)));
                }
                done.lock().unwrap().push(bad);
            });
        }
    });
    drop(tx);
    while rx.lock().unwrap().try_recv().is_ok() {}
    let done = done.into_inner().unwrap();
    ensure!(done.len() == n, "{} of {n} threads ended normally", done.len());
    for b in done.into_iter().flatten() {
        return Err(b);
    }
    c.count("threads", n as u64);
    c.count("thread_rounds", 1);
    c.distinct(&format!("threads {} {seeds:?}", c.idx));
    Ok(())
}

fn open_files() -> usize {
    std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0)
}

/// everything C25 runs: `VERIF_SECTIONS` selects some of it
pub fn c25(ctx: &Ctx, systems: &[Maker], gen: &Gen) {
    let dir = ctx.scratch();
    let shipped = shipped_things();
    let serdes: &[SerdeFn] = &gen.serdes;
    ctx.cases("churn", ctx.n(1500, 60_000), |c| {
        let seed = c.rng.u64();
        let ops = if TINY { 12 } else { c.rng.int(10, 80) };
        let mut stat = [0; OPS];
        c.desc = format!("{ops} operations from seed {seed}");
        steady(c, "random operations on a pool of systems", &mut || churn(&mut Rng::new(seed), systems, ops, &mut stat))?;
        for (k, n) in stat.iter().enumerate() {
            c.count(&format!("ops_{}", OP_NAMES[k]), *n);
        }
        c.distinct(&c.desc.clone());
        if c.idx < 3 {
            c.sample(json!({"operations": OP_NAMES.iter().zip(stat).collect::<Vec<_>>()}));
        }
        Ok(())
    });
    ctx.cases("interface", ctx.n(800, 30_000), |c| interface(c, systems));
    ctx.cases("interface_leaks", ctx.n(100, 3000), |c| {
        let seed = c.rng.u64();
        steady(c, "vectors of wrong lengths", &mut || {
            let mut d = dummy(seed);
            let _ = interface(&mut d, systems);
        })
    });
    let mut hists: Vec<HistFn> = vec![
        c_hist::check::<SystemState>,
        c_hist::check::<SolverState>,
        c_hist::check::<ThermalMassState>,
        c_hist::check::<ConductanceState>,
        c_hist::check::<NodeState>,
    ];
    hists.extend(gen.hists.iter());
    ctx.cases("histories", ctx.n(400, 15_000), |c| {
        let seed = c.rng.u64();
        let f = hists[c.idx % hists.len()];
        let mut err = None;
        steady(c, "operations on a history", &mut || {
            let mut d = dummy(seed);
            if f(&mut d).is_err() {
                err = Some(());
            }
        })?;
        ensure!(err.is_none(), "a history does not behave like a list (see C13)");
        c.count("history_sequences", 1);
        c.distinct(&format!("{} {seed}", c.idx % hists.len()));
        Ok(())
    });
    ctx.cases("hostile", ctx.n(1500, 60_000), |c| {
        let seed = c.rng.u64();
        let f = FMTS[c.idx % 3];
        let mut n = [0u64; 2];
        c.desc = format!("{f:?} seed {seed}");
        steady(c, "decoding corrupted data", &mut || {
            let mut r = Rng::new(seed);
            let v = any_thing(&mut r, systems, &shipped, serdes);
            let b = v.enc(f);
            if TINY && b.len() > 2500 {
                return;
            }
            for _ in 0..if TINY { 1 } else { 5 } {
                let mut m = mutate(&mut r, &b, f != Fmt::Bin);
                m.shrink_to_fit();
                n[guarded(|| v.dec(f, &m).is_ok()).unwrap_or(false) as usize] += 1;
            }
            let k = r.below(b.len() + 1);
            let _ = guarded(|| v.dec(f, &b[..k]).is_ok());
        })?;
        c.count("corrupted_rejected", n[0]);
        c.count("corrupted_accepted", n[1]);
        c.distinct(&c.desc.clone());
        Ok(())
    });
    ctx.cases("threads", ctx.n(60, 2000), |c| threads(c, systems));
    ctx.cases("helpers", ctx.n(200, 5000), |c| {
        let seed = c.rng.u64();
        steady(c, "numeric helpers", &mut || {
            let mut r = Rng::new(seed);
            for n in [0, 1, 2, 3, r.int(4, if TINY { 9 } else { 2000 })] {
                let v = Vec::linspace(r.any_finite(), r.any_finite(), n);
                let d = if n > 0 { v.diff() } else { vec![] };
                for (a, (b, e)) in zip!(&v, &d, &v) {
                    let _ = almost_eq(*a, b + e, None);
                }
            }
        })
    });
    if !TINY {
        // one worker alone, so that the open files are its own
        ctx.cases("files", 1, |c| {
            let before = open_files();
            for k in 0..200 {
                let v = any_thing(&mut c.rng, systems, &shipped, serdes);
                let p = format!("{dir}/f{}.{}", k % 7, ["json", "yaml", "bin", "yml", ""][k % 5]);
                let _ = guarded(|| v.out_file(&p));
                let _ = guarded(|| v.in_file(&p).is_ok());
                if k % 3 == 0 {
                    let _ = std::fs::write(&p, "{broken");
                    let _ = guarded(|| v.in_file(&p).is_ok());
                }
                let _ = guarded(|| v.in_file(&format!("{dir}/missing.yaml")).is_ok());
                let _ = guarded(|| v.out_file("/dev/full").is_ok());
                c.count("file_operations", 4);
            }
            let after = open_files();
            ensure!(after == before, "{before} files were open before reading and writing files, {after} afterwards");
            c.distinct("files");
            Ok(())
        });
    }
    if std::env::var("VERIF_SECTIONS").is_err() && !TINY && ctx.n(1000, 1000) >= 1000 {
        for k in OP_NAMES {
            ctx.require(&format!("ops_{k}"), 200);
        }
        for (k, n) in [("leak_measurements", 1000), ("interfaces", 500), ("vectors_refused", 1000), ("vectors_taken", 1000), ("history_sequences", 200), ("corrupted_rejected", 1000), ("threads", 100), ("file_operations", 400)] {
            ctx.require(k, n);
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
}
