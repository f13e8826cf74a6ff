//! C18 (stop, restore, resume), C19 (determinism and isolation), C20 (termination).
use crate::c_net;
use crate::c_num::{cut, random_run, random_y, SAVED_BUDGET};
use crate::c_serde::first_difference;
use crate::ctx::{guarded, Case, Ctx, R};
use crate::ensure;
use crate::net::*;
use crate::rk;
use crate::rng::{hash_str, mix, Rng};
use crate::sys::*;
use crate::trace;
use serde_json::json;
use std::sync::{Arc, Barrier};

/// a system ready for a random run
pub fn subject(r: &mut Rng, systems: &[Maker], kind: usize, rows: usize) -> Box<dyn Ode> {
    if r.bool(0.4) {
        let (rhs, y0, t0, grid, spec, _) = random_run(r, kind, rows);
        make(&rhs, &y0, spec.build(), t0, &grid)
    } else {
        let mut s = r.pick(systems)();
        c_net::setup(r, &mut *s, kind, true);
        s
    }
}
fn saves(s: &dyn Ode) -> bool {
    s.sc().map(|sc| sc.save).unwrap_or(false)
}
/// evaluations allowed for a walk; with its diagnostics saved each one costs more and more
fn allowance(s: &dyn Ode) -> u64 {
    if saves(s) {
        SAVED_BUDGET / 10
    } else {
        20_000
    }
}
fn budget(s: &dyn Ode) {
    trace::set_budget(allowance(s));
}

fn restore(c: &mut Case, s: Box<dyn Ode>, how: usize, dir: &str) -> Result<Box<dyn Ode>, String> {
    Ok(match how {
        0 => s,
        1 => {
            c.count("resumed_from_clone", 1);
            s.dup()
        }
        2 => {
            c.count("resumed_from_bincode", 1);
            s.unbin(&s.bin()).map_err(|e| format!("restoring from bincode: {e}"))?
        }
        3 => {
            c.count("resumed_from_yaml", 1);
            s.unyaml(&s.yaml()).map_err(|e| format!("restoring from yaml: {e}"))?
        }
        4 => {
            c.count("resumed_from_file", 1);
            let p = format!("{dir}/{}-{}.yaml", c.section, c.idx);
            s.out_file(&p).map_err(|e| format!("saving to a file: {e}"))?;
            let b = s.in_file(&p).map_err(|e| format!("restoring from a file: {e}"))?;
            let _ = std::fs::remove_file(&p);
            b
        }
        _ => {
            // as long as the text decodes to the same numbers (see the finding of C16)
            let b = s.unjson(&s.json());
            match b {
                Ok(b) if b.dbg() == s.dbg() => {
                    c.count("resumed_from_json", 1);
                    b
                }
                _ => s,
            }
        }
    })
}

pub fn c18(ctx: &Ctx, systems: &[Maker]) {
    let dir = ctx.scratch();
    ctx.cases("resume", ctx.n(10_000, 300_000), |c| {
        let kind = c.idx % 7;
        let mut s = subject(&mut c.rng, systems, kind, 12);
        let full = s.report();
        let finite = |v: &[f64]| v.iter().all(|x| x.is_finite());
        c.desc = s.dbg();
        let start = s.dup();
        budget(&*s);
        if cut(c, || s.walk())? {
            return Ok(());
        }
        if !finite(&s.x()) {
            return Ok(());
        }
        let want = s.dbg();
        // walking again
        if c.rng.bool(0.3) {
            let how = c.rng.below(6);
            let mut again = restore(c, s, how, &dir)?;
            again.walk();
            ensure!(again.dbg() == want, "walking a finished system again changed it: {}", first_difference(&want, &again.dbg()));
            again.walk();
            ensure!(again.dbg() == want, "walking a finished system a third time changed it");
            c.count("rewalks", 1);
        }
        for round in 0..2 {
            let mut s = start.dup();
            let t0 = s.time();
            // a random set of stops
            let mut stops: Vec<usize> = (1..full.len()).filter(|_| c.rng.bool(0.4)).collect();
            if stops.is_empty() && full.len() > 1 {
                stops.push(c.rng.int(1, full.len() - 1));
            }
            let mut log = vec![];
            for k in stops.iter().cloned().chain([full.len()]) {
                let by_hand = c.rng.bool(0.5) && *full.last().unwrap() > t0;
                budget(&*s);
                if by_hand {
                    // the rest of the list is known all along, or becomes known as one goes
                    let list = if c.rng.bool(0.5) { full.clone() } else { full[..k].to_vec() };
                    s.set_report(list);
                    if cut(c, || {
                        while s.index() < k {
                            s.solve_step();
                            let i = s.index() + 1;
                            s.set_index(i);
                            s.save_state();
                        }
                    })? {
                        return Ok(());
                    }
                    c.count("stops_by_hand", 1);
                } else {
                    s.set_report(full[..k].to_vec());
                    if cut(c, || s.walk())? {
                        return Ok(());
                    }
                    c.count("stops_by_shorter_list", 1);
                }
                let how = c.rng.below(6);
                log.push(format!("{}{k}/{how}", if by_hand { "hand" } else { "walk" }));
                s = restore(c, s, how, &dir)?;
            }
            ensure!(s.report() == full, "{}report list", crate::ctx::HARNESS);
            ensure!(
                s.dbg() == want,
                "{}: stopping and resuming ({}) differs from the uninterrupted run: {}",
                rk::NAMES[kind], log.join(" "), first_difference(&want, &s.dbg())
            );
            c.count(&format!("resumed_runs_{}", rk::NAMES[kind]), 1);
            c.distinct(&format!("{}{log:?}", c.desc));
            if c.idx < 4 && round == 0 {
                c.sample(json!({"solver": rk::NAMES[kind], "rows": full.len(), "stops": log}));
            }
        }
        Ok(())
    });
    let _ = std::fs::remove_dir_all(&dir);
    for k in rk::NAMES {
        ctx.require(&format!("resumed_runs_{k}"), 100);
    }
    for k in ["clone", "bincode", "yaml", "file", "json"] {
        ctx.require(&format!("resumed_from_{k}"), 50);
    }
    ctx.require("rewalks", 100);
    ctx.require("stops_by_hand", 500);
    ctx.require("stops_by_shorter_list", 500);
}

// ---------------------------------------------------------------------------------------- C19

/// the run number `k` of a seed, not started yet
fn numbered(seed: u64, k: usize, systems: &[Maker]) -> Box<dyn Ode> {
    let mut r = Rng::new(mix(seed, 0xC19_0000 + k as u64));
    let s = subject(&mut r, systems, k % 7, 8);
    budget(&*s);
    s
}
/// its result, as text
fn outcome(s: &mut dyn Ode) -> String {
    budget(s);
    match guarded(|| crate::watch::watched(|| s.walk())) {
        Ok(()) => s.dbg(),
        Err(m) => format!("stopped: {m}"),
    }
}

/// `__runs SEED N ORDER`: prints the hash of each run's result; a child process of C19
pub fn child_runs(args: &[String], systems: &[Maker]) {
    let seed: u64 = args[0].parse().unwrap();
    let n: usize = args[1].parse().unwrap();
    let order = args[2].as_str();
    let mut list: Vec<usize> = (0..n).collect();
    match order {
        "forward" => {}
        "backward" => list.reverse(),
        _ => Rng::new(seed ^ 77).shuffle(&mut list),
    }
    let mut out = vec![String::new(); n];
    let traced = order == "traced";
    if traced {
        // warm up: lazily initialised parts of the runtime, and the memory
        for k in 0..n {
            outcome(&mut *numbered(seed, k, systems));
        }
        let mut ready: Vec<Box<dyn Ode>> = list.iter().map(|k| numbered(seed, *k, systems)).collect();
        // the first one probes the system call
        let _ = std::fs::metadata("/");
        let _ = std::fs::metadata("/MONITOR-BEGIN");
        for s in ready.iter_mut() {
            budget(&**s);
            let _ = guarded(|| s.walk());
        }
        let _ = std::fs::metadata("/MONITOR-END");
        for (s, k) in ready.iter().zip(&list) {
            out[*k] = s.dbg();
        }
    } else if order == "statics" {
        let walks = |out: &mut Vec<String>| {
            for k in 0..n {
                out[k] = outcome(&mut *numbered(seed, k, systems));
            }
        };
        // lazily initialised parts first; what changes on every round is the trace of walks
        walks(&mut out);
        let before = crate::watch::Statics::take();
        let idle = before.changed();
        for k in 0..n {
            // a walk that is cut off by a panic leaves traces of it
            let o = outcome(&mut *numbered(seed, k, systems));
            if o != out[k] {
                out[k] = o;
            }
        }
        let changed: Vec<usize> = before.changed().into_iter().filter(|a| !idle.contains(a)).collect();
        println!("STATICS {} {changed:?}", before.size());
    } else {
        for k in list {
            out[k] = outcome(&mut *numbered(seed, k, systems));
        }
    }
    for w in crate::watch::taken() {
        println!("TAKEN {w}");
    }
    for o in out {
        println!("{:016x}", hash_str(&o));
    }
}

fn run_child(seed: u64, n: usize, order: &str, env: &[(&str, &str)], cwd: &str, strace: Option<&str>) -> Result<Vec<String>, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut cmd = match strace {
        Some(log) => {
            let mut c = std::process::Command::new("strace");
            c.args(["-f", "-o", log]).arg(exe);
            c
        }
        None => std::process::Command::new(exe),
    };
    cmd.args(["__runs", &seed.to_string(), &n.to_string(), order]).current_dir(cwd).stdin(std::process::Stdio::null());
    for (k, v) in env {
        cmd.env(k, v);
    }
    let o = cmd.output().map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Err(format!("child process ended with {:?}: {}", o.status, String::from_utf8_lossy(&o.stderr)));
    }
    let (extra, out): (Vec<String>, Vec<String>) =
        String::from_utf8_lossy(&o.stdout).lines().map(|s| s.to_string()).partition(|l| l.starts_with("TAKEN ") || l.starts_with("STATICS "));
    FROM_CHILDREN.lock().unwrap().extend(extra);
    Ok(out)
}

static FROM_CHILDREN: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());

/// what walks took from, or left in, their process
fn process_state(ctx: &Ctx, seed: u64, n: usize, dir: &str) {
    match run_child(seed, n, "statics", &[], dir, None) {
        Ok(l) => ctx.count("walks_with_static_variables_compared", l.len() as u64),
        Err(e) => ctx.violation("process_state", format!("walking fails in a process of its own: {e}")),
    }
    let mut seen: Vec<String> = std::mem::take(&mut *FROM_CHILDREN.lock().unwrap());
    seen.extend(crate::watch::taken().into_iter().map(|t| format!("TAKEN {t}")));
    seen.sort();
    seen.dedup();
    for l in seen {
        if let Some(t) = l.strip_prefix("TAKEN ") {
            ctx.violation("process_state", format!("a walk uses {t}"));
        } else if let Some(t) = l.strip_prefix("STATICS ") {
            let (size, changed) = t.split_once(' ').unwrap_or((t, "?"));
            ctx.count("bytes_of_static_variables_compared", size.parse().unwrap_or(0));
            if changed != "[]" {
                ctx.violation("process_state", format!("walks change static variables of the program (offsets {changed})"));
            }
        }
    }
}

pub fn c19(ctx: &Ctx, systems: &[Maker]) {
    let seed = mix(ctx.seed, 0xC19);
    ctx.count("environment_and_clock_stand_ins_work", crate::watch::works() as u64);
    ctx.require("environment_and_clock_stand_ins_work", 1);
    ctx.cases("repeat", ctx.n(4000, 120_000), |c| {
        let kind = c.idx % 7;
        let s = subject(&mut c.rng, systems, kind, 10);
        c.desc = s.dbg();
        let (mut a, mut b, mut d) = (s.dup(), s.dup(), s.bare());
        let first = outcome(&mut *a);
        // something else in between
        for _ in 0..c.rng.int(1, 4) {
            let k2 = c.rng.below(7);
            let mut o = subject(&mut c.rng, systems, k2, 6);
            outcome(&mut *o);
        }
        let second = outcome(&mut *b);
        ensure!(first == second, "equal systems walk differently: {}", first_difference(&first, &second));
        if !saves(&*s) || s.sc().unwrap().history.dt.is_empty() {
            let third = outcome(&mut *d);
            ensure!(first == third, "a bare clone taken before the run walks differently: {}", first_difference(&first, &third));
        }
        ensure!(s.dbg() == c.desc, "walking clones changed the original");
        c.count("repeats", 1);
        c.count(&format!("repeats_{}", rk::NAMES[kind]), 1);
        c.distinct(&c.desc.clone());
        Ok(())
    });
    // steps of several systems interleaved in random order, some of them equal
    ctx.cases("interleaved", ctx.n(2000, 60_000), |c| {
        let n = c.rng.int(2, 6);
        let mut v: Vec<Box<dyn Ode>> = vec![];
        for _ in 0..n {
            if !v.is_empty() && c.rng.bool(0.3) {
                let k = c.rng.below(v.len());
                let d = v[k].dup();
                v.push(d);
            } else {
                let kind = c.rng.below(7);
                v.push(subject(&mut c.rng, systems, kind, 8));
            }
        }
        let solo_first = c.rng.bool(0.5);
        let alone = |v: &[Box<dyn Ode>]| -> Vec<String> { v.iter().map(|s| outcome(&mut *s.dup())).collect() };
        let start: Vec<Box<dyn Ode>> = v.iter().map(|s| s.dup()).collect();
        let mut solo = if solo_first { alone(&start) } else { vec![] };
        trace::set_budget(0);
        let mut switches = 0;
        let mut schedule = vec![];
        let mut spent = vec![0u64; n];
        let mut stopped = vec![false; n];
        loop {
            let live: Vec<usize> = (0..n).filter(|k| !stopped[*k] && v[*k].time() < *v[*k].report().last().unwrap()).collect();
            if live.is_empty() {
                break;
            }
            let k = *c.rng.pick(&live);
            let s = &mut v[k];
            // the same allowance of evaluations as alone
            let allowance = allowance(&**s);
            trace::set_budget(allowance - spent[k]);
            let r = guarded(|| {
                s.solve_step();
                let i = s.index() + 1;
                s.set_index(i);
                s.save_state();
            });
            spent[k] += trace::count();
            if r.is_err() || spent[k] >= allowance {
                stopped[k] = true;
            }
            switches += 1;
            schedule.push(k);
        }
        if !solo_first {
            solo = alone(&start);
        }
        for k in 0..n {
            if stopped[k] || solo[k].starts_with("stopped") {
                continue;
            }
            let got = v[k].dbg();
            ensure!(got == solo[k], "system {k} of {n} stepped in the order {schedule:?} differs from walking alone: {}", first_difference(&solo[k], &got));
            c.count("interleaved_systems", 1);
        }
        c.count("steps_interleaved", switches);
        c.distinct(&format!("{schedule:?}{}", start[0].dbg()));
        if c.idx < 2 {
            c.sample(json!({"systems": n, "order": schedule}));
        }
        Ok(())
    });
    // another system walks inside the right-hand side of this one
    ctx.cases("nested", ctx.n(1500, 40_000), |c| {
        let kind = c.idx % 7;
        let s = subject(&mut c.rng, systems, kind, 6);
        c.desc = s.dbg();
        let k2 = c.rng.below(7);
        let inner = subject(&mut c.rng, systems, k2, 3);
        let (mut a, mut b) = (s.dup(), s.dup());
        let alone = outcome(&mut *a);
        let inner_alone = outcome(&mut *inner.dup());
        if alone.starts_with("stopped") || inner_alone.starts_with("stopped") {
            return Ok(());
        }
        let every = c.rng.int(1, 30) as u64;
        let bad: std::rc::Rc<std::cell::RefCell<(u64, Option<String>)>> = Default::default();
        let (bad2, inner2, want) = (bad.clone(), inner.dup(), inner_alone.clone());
        trace::set_nested(
            every,
            12,
            Box::new(move || {
                let mut s = inner2.dup();
                s.walk();
                let mut g = bad2.borrow_mut();
                g.0 += 1;
                if s.dbg() != want {
                    g.1 = Some(first_difference(&want, &s.dbg()));
                }
            }),
        );
        let got = outcome(&mut *b);
        trace::clear_nested();
        let g = bad.borrow();
        ensure!(g.1.is_none(), "a system walked during another system's step differs from walking alone: {}", g.1.clone().unwrap());
        ensure!(got == alone, "a system during whose evaluations another one walks ({} times) differs from walking alone: {}", g.0, first_difference(&alone, &got));
        c.count("nested_walks", g.0);
        c.distinct(&c.desc.clone());
        Ok(())
    });
    // concurrently, against child processes which run everything one after the other
    let n = ctx.n(84, 700);
    let dir = ctx.scratch();
    let exe_ok = std::env::current_exe().is_ok();
    if ctx.only.is_none() && exe_ok && !cfg!(miri) {
        let err = |e: String| ctx.inner.lock().unwrap().harness_errors.push(e);
        match run_child(seed, n, "forward", &[], &dir, None) {
            Err(e) => ctx.violation("processes", format!("the runs fail in a process of their own: {e}")),
            Ok(want) if want.len() != n => err(format!("child printed {} lines", want.len())),
            Ok(want) => {
                let others: [(&str, Vec<(&str, &str)>); 4] = [
                    ("forward", vec![]),
                    ("backward", vec![("TZ", "Asia/Tokyo"), ("LANG", "de_DE.UTF-8"), ("HOME", "/nonexistent"), ("RUST_LOG", "trace")]),
                    ("shuffled", vec![("DESS_DT", "0.5"), ("RUST_BACKTRACE", "1"), ("RAYON_NUM_THREADS", "1")]),
                    ("backward", vec![("CARGO_MANIFEST_DIR", "/nonexistent"), ("TMPDIR", "/nonexistent"), ("DEBUG", "1")]),
                ];
                for (order, env) in others {
                    match run_child(seed, n, order, &env, &dir, None) {
                        Err(e) => ctx.violation("processes", format!("the runs ({order}, {env:?}) fail in a process of their own: {e}")),
                        Ok(got) => {
                            if let Some(k) = (0..n).find(|k| got.get(*k) != want.get(*k)) {
                                ctx.violation("processes", format!("run {k} of seed {seed} gives another result in a process which ran the others {order} with {env:?}: {}", numbered(seed, k, systems).dbg()));
                            }
                            ctx.count("runs_compared_across_processes", n as u64);
                        }
                    }
                }
                let left = std::fs::read_dir(&dir).map(|d| d.count()).unwrap_or(0);
                if left > 0 {
                    ctx.violation("processes", format!("walking created {left} files in the working directory"));
                }
                // all at once on eight threads, started together, each in its own order
                for round in 0..if ctx.thorough { 30 } else { 4 } {
                    let barrier = Arc::new(Barrier::new(8));
                    let results: Vec<(usize, String)> = std::thread::scope(|sc| {
                        let hs: Vec<_> = (0..8u64)
                            .map(|t| {
                                let barrier = barrier.clone();
                                std::thread::Builder::new()
                                    .stack_size(64 << 20)
                                    .spawn_scoped(sc, move || {
                                        let mut list: Vec<usize> = (0..n).collect();
                                        let mut r = Rng::new(mix(seed, 1000 * round + t));
                                        // some rounds: every thread walks the same systems at the same time
                                        if round % 2 == 0 {
                                            r.shuffle(&mut list);
                                        }
                                        list.truncate(n / 2);
                                        barrier.wait();
                                        list.into_iter().map(|k| (k, format!("{:016x}", hash_str(&outcome(&mut *numbered(seed, k, systems)))))).collect::<Vec<_>>()
                                    })
                                    .unwrap()
                            })
                            .collect();
                        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
                    });
                    ctx.count("runs_compared_on_threads", results.len() as u64);
                    if let Some((k, _)) = results.iter().find(|(k, h)| *h != want[*k]) {
                        ctx.violation("threads", format!("run {k} of seed {seed} gives another result when other systems walk on other threads (round {round}): {}", numbered(seed, *k, systems).dbg()));
                    }
                    // one system stepped by changing threads
                    let k = (round as usize * 13) % n;
                    let _ = k;
                }
                syscalls(ctx, seed, n, &dir);
                process_state(ctx, seed, n, &dir);
            }
        }
        for k in ["runs_compared_across_processes", "runs_compared_on_threads"] {
            ctx.require(k, 100);
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    for k in rk::NAMES {
        ctx.require(&format!("repeats_{k}"), 50);
    }
    ctx.require("interleaved_systems", 300);
    ctx.require("nested_walks", 300);
}

/// walks need nothing from the operating system but memory
fn syscalls(ctx: &Ctx, seed: u64, n: usize, dir: &str) {
    let log = format!("{dir}/strace.log");
    if run_child(seed, n, "traced", &[], dir, Some(&log)).is_err() {
        ctx.count("system_call_trace_not_available", 1);
        return;
    }
    let Ok(text) = std::fs::read_to_string(&log) else {
        ctx.count("system_call_trace_not_available", 1);
        return;
    };
    let (mut inside, mut begun, mut ended) = (false, 0, 0);
    let mut calls = 0u64;
    for l in text.lines() {
        if l.contains("MONITOR-BEGIN") {
            inside = true;
            begun += 1;
        } else if l.contains("MONITOR-END") {
            inside = false;
            ended += 1;
        } else if inside {
            let name = l.split_once(' ').map(|x| x.1.trim_start()).unwrap_or(l);
            let name = name.split('(').next().unwrap_or("");
            calls += 1;
            let memory = ["brk", "mmap", "munmap", "mremap", "madvise", "mprotect", "futex", "sched_yield", "membarrier", "rt_sigprocmask"];
            if !memory.contains(&name) && !name.starts_with("+++") && !name.starts_with("---") && !name.starts_with("<...") {
                ctx.violation("system_calls", format!("a walk makes the system call {l}"));
                return;
            }
        }
    }
    if begun != 1 || ended != 1 {
        ctx.count("system_call_trace_not_available", 1);
        return;
    }
    ctx.count("system_calls_seen_during_walks", calls);
    ctx.count("walks_under_system_call_trace", n as u64);
    let _ = std::fs::remove_file(&log);
}

// ---------------------------------------------------------------------------------------- C20

pub const STUCK_NAN: &str = "adaptive-walk-does-not-end-after-non-finite-derivatives";
pub const STUCK_TOL: &str = "adaptive-walk-does-not-end-when-the-tolerance-cannot-be-met";

fn evals_per_attempt(kind: usize) -> u64 {
    // what one attempt of an embedded pair with this many stages needs, with one to spare
    match kind {
        rk::RK23 => 4 + 1,
        _ => 6 + 1,
    }
}
fn stages(kind: usize) -> u64 {
    match kind {
        rk::EULER => 1,
        rk::RK4 => 4,
        _ => 2,
    }
}

/// hostile right-hand sides
fn hostile_rhs(r: &mut Rng, n: usize, t0: f64, span: f64) -> Rhs {
    let at = t0 + span * r.f(0.1, 0.9);
    let amp = r.logf(1e-2, 1e6);
    match r.below(10) {
        0 => Rhs { kind: NANAT, n, p: vec![at] },
        1 => Rhs { kind: BLOWUP, n, p: vec![] },
        2 => Rhs { kind: EXPGROW, n, p: (0..n).map(|_| r.f(0.5, 3.)).collect() },
        3 => {
            let mut p = vec![at];
            p.extend((0..n).map(|_| amp));
            Rhs { kind: JUMP, n, p }
        }
        4 => Rhs { kind: SIGN, n, p: (0..n).map(|_| r.f(-2., 2.)).collect() },
        5 => Rhs { kind: DECAY, n, p: (0..n).map(|_| r.logf(1., 1e7)).collect() },
        6 => Rhs { kind: CONST, n, p: (0..n).map(|_| *r.pick(&[0., 1e300, -1e308, 1e-300, f64::INFINITY, f64::NAN])).collect() },
        7 => {
            let mut p = vec![at];
            p.extend((0..n).map(|_| amp));
            Rhs { kind: PULSE, n, p }
        }
        8 => Rhs::random_smooth(r, n, 1e3 / span.max(1e-6)),
        _ => Rhs::random_smooth(r, n, 1.),
    }
}

/// whether the errors of the last step are above both tolerances
fn unmet(st: &dess::solver::SolverState, spec: &Spec) -> bool {
    match (st.norm_err, st.norm_err_rel) {
        (Some(e), Some(r)) => !(e < spec.atol) && !(r <= spec.rtol),
        (Some(e), None) => !(e <= spec.atol),
        _ => false,
    }
}

/// takes adaptive steps one at a time, each of which must advance the time, or be known not to; returns their number
fn watch_steps(c: &mut Case, s: &mut dyn Ode, kind: usize, spec: &Spec, rhs: &Rhs, end: f64, limit: usize) -> Result<usize, String> {
    let attempts = (spec.max_iter as u64).max(1);
    let most = attempts * evals_per_attempt(kind) + 1;
    let (mut done, mut idle, mut idle_rejected, mut idle_from) = (0, 0, false, 0.);
    while s.time() < end && done < limit {
        let before = s.time();
        let y = s.x();
        trace::set_budget(most);
        let left = end - before;
        let first = s.sc().unwrap().state.dt.min(left).min(spec.dt_max);
        // what solve_step does, one step at a time
        let r = guarded(|| s.direct(kind, left));
        if let Err(m) = r {
            if m == trace::BUDGET_MSG {
                return Err(format!("{}: one step from t={before} needs more than {most} evaluations ({attempts} attempts are allowed)", rk::NAMES[kind]));
            }
            return Err(format!("unexpected panic: {m}"));
        }
        done += 1;
        c.count("adaptive_steps", 1);
        let sc = s.sc().unwrap();
        let tries = (sc.state.n_iter as u64).max(1);
        c.count("attempts", tries);
        ensure!(tries <= attempts, "{}: {tries} attempts for one step, {attempts} are allowed", rk::NAMES[kind]);
        if s.time() > before {
            c.count("steps_which_advanced", 1);
            idle = 0;
            continue;
        }
        // the step cannot be seen in the time only when it is shorter than what the time can resolve
        let used = first * 0.25f64.powi(tries as i32 - 1);
        ensure!(!(before + used / 2. > before), "{}: a step of {used} from t={before} leaves the time at {}", rk::NAMES[kind], s.time());
        let f = rhs.eval(before, &y);
        let finite = f.iter().chain(&y).chain(&s.x()).all(|v| v.is_finite()) && sc.state.norm_err.map(|e| e.is_finite()).unwrap_or(false);
        let unmet = unmet(&sc.state, spec);
        if !finite {
            c.known(STUCK_NAN, format!("{} at t={before}: derivative {f:?}", rk::NAMES[kind]));
            c.count("stuck_after_non_finite", 1);
            break;
        } else if unmet {
            ensure!(tries == attempts, "{}: a step from t={before} gave up after {tries} of {attempts} attempts", rk::NAMES[kind]);
            c.known(STUCK_TOL, format!("{} at t={before}: error {:?} for atol={} rtol={}", rk::NAMES[kind], sc.state.norm_err, spec.atol, spec.rtol));
            c.count("stuck_with_unmet_tolerance", 1);
            break;
        }
        // a very short step which succeeded is followed by longer ones
        c.count("steps_below_the_time_resolution", 1);
        if idle == 0 {
            idle_rejected = false;
            idle_from = first;
        }
        idle += 1;
        idle_rejected |= tries > 1;
        c.max("most_steps_in_a_row_below_the_time_resolution", idle as f64);
        if idle >= 150 {
            if idle_rejected {
                // longer steps, up to those that the time can resolve, miss the tolerance
                c.known(STUCK_TOL, format!("{} at t={before}: longer steps than {used} miss atol={} rtol={}", rk::NAMES[kind], spec.atol, spec.rtol));
                c.count("stuck_with_unmet_tolerance", 1);
            } else {
                ensure!(sc.state.dt > idle_from, "{}: {idle} successful steps in a row from t={before} leave the time where it is ({:?})", rk::NAMES[kind], sc.state);
            }
            break;
        }
    }
    Ok(done)
}

pub fn c20(ctx: &Ctx, systems: &[Maker]) {
    // fixed steps: the number of evaluations of a whole walk
    ctx.cases("fixed", ctx.n(6000, 160_000), |c| {
        let kind = *c.rng.pick(&rk::FIXED);
        let n = *c.rng.pick(&[1usize, 2, 3, 6]);
        let (_, _, t0, grid, spec, _) = random_run(&mut c.rng, kind, 20);
        let span = (grid.last().unwrap() - t0).max(1e-9);
        let rhs = hostile_rhs(&mut c.rng, n, t0, span);
        let y0 = random_y(&mut c.rng, n);
        c.desc = format!("{spec:?} rhs={rhs:?} t0={t0} y0={y0:?} grid={grid:?}");
        let mut s = make(&rhs, &y0, spec.build(), t0, &grid);
        let mut steps = 0.;
        let mut t = t0;
        for g in &grid {
            if *g > t {
                // rounding of the accumulated time may cost one more step per interval
                steps += ((g - t) / spec.dt).ceil() + 1.;
                t = *g;
            }
        }
        let most = (steps as u64) * (stages(kind) + 1) + 1;
        trace::set_budget(most);
        let cut = cut(c, || s.walk())?;
        ensure!(!cut, "{}: the walk needs more than {most} evaluations for at most {steps} steps", rk::NAMES[kind]);
        ensure!(*grid.last().unwrap() <= t0 || s.time() >= *grid.last().unwrap(), "the walk ended at {} before the last report time {}", s.time(), grid.last().unwrap());
        c.count("fixed_walks", 1);
        c.count("evaluations", trace::count());
        c.count("fixed_walks_through_non_finite_states", s.x().iter().any(|v| !v.is_finite()) as u64);
        c.distinct(&c.desc.clone());
        Ok(())
    });
    // components, resumed walks and report lists of one element
    ctx.cases("fixed_networks", ctx.n(500, 15_000), |c| {
        let kind = *c.rng.pick(&rk::FIXED);
        let mut s = c.rng.pick(systems)();
        let (_, t0, report, spec) = c_net::setup(&mut c.rng, &mut *s, kind, false);
        c.desc = s.dbg();
        let mut steps = 0.;
        let mut t = t0;
        for g in &report {
            if *g > t {
                steps += ((g - t) / spec.dt).ceil() + 1.;
                t = *g;
            }
        }
        let most = (steps as u64) * (stages(kind) + 1) + 1;
        trace::set_budget(most);
        let cut = cut(c, || s.walk())?;
        ensure!(!cut, "{}: the walk needs more than {most} evaluations for at most {steps} steps", rk::NAMES[kind]);
        c.count("fixed_walks", 1);
        c.distinct(&c.desc.clone());
        Ok(())
    });
    // adaptive steps one by one
    ctx.cases("adaptive_steps", ctx.n(9000, 250_000), |c| {
        let kind = if c.idx % 2 == 0 { rk::RK23 } else { rk::RK45 };
        let n = *c.rng.pick(&[1usize, 2, 3, 6]);
        let t0 = *c.rng.pick(&[0., 0., 1., -3., 1e6, 1e-9]);
        let span = c.rng.logf(1e-3, 1e3);
        let rhs = hostile_rhs(&mut c.rng, n, t0, span);
        let y0 = random_y(&mut c.rng, n);
        let mut spec = Spec::random_of(&mut c.rng, kind, span, 1.);
        spec.max_iter = *c.rng.pick(&[0u8, 1, 2, 3, 5, 10, 60, 200, 254, 255]);
        spec.rtol = *c.rng.pick(&[0., 1e-300, 1e-16, 1e-14, 1e-12, 1e-6, 1e-3, 1., 1e3]);
        spec.atol = *c.rng.pick(&[0., 1e-300, 1e-16, 1e-12, 1e-9, 1e-6, 1.]);
        spec.save = spec.save && c.rng.bool(0.2);
        c.desc = format!("{spec:?} rhs={rhs:?} t0={t0} y0={y0:?} span={span}");
        let end = t0 + span;
        let mut s = make(&rhs, &y0, spec.build(), t0, &[end]);
        let limit = if spec.save { 60 } else { 300 };
        let done = watch_steps(c, &mut *s, kind, &spec, &rhs, end, limit)?;
        c.distinct(&c.desc.clone());
        if c.idx < 3 {
            c.sample(json!({"solver": rk::NAMES[kind], "rhs": rhs.kind, "steps": done, "time": s.time(), "end": end}));
        }
        Ok(())
    });
    // whole adaptive walks
    ctx.cases("adaptive_walks", ctx.n(3000, 80_000), |c| {
        let kind = if c.idx % 2 == 0 { rk::RK23 } else { rk::RK45 };
        let n = *c.rng.pick(&[1usize, 2, 3]);
        let (_, _, t0, grid, mut spec, _) = random_run(&mut c.rng, kind, 10);
        let span = (grid.last().unwrap() - t0).max(1e-9);
        let rhs = hostile_rhs(&mut c.rng, n, t0, span);
        let y0 = random_y(&mut c.rng, n);
        spec.save = false;
        spec.max_iter = *c.rng.pick(&[0u8, 1, 2, 5, 10, 255]);
        c.desc = format!("{spec:?} rhs={rhs:?} t0={t0} y0={y0:?} grid={grid:?}");
        let mut s = make(&rhs, &y0, spec.build(), t0, &grid);
        trace::set_budget(60_000);
        trace::record();
        let stopped = cut(c, || s.walk())?;
        let ev = trace::take();
        if !stopped {
            ensure!(*grid.last().unwrap() <= t0 || s.time() >= *grid.last().unwrap(), "the walk ended at {} before the last report time", s.time());
            c.count("adaptive_walks_ended", 1);
        } else {
            // out of evaluations: either still advancing, or one of the known ways to be stuck
            let half = &ev[ev.len() / 2..];
            let (a, b) = (half[0].0, ev.last().unwrap().0);
            if b > a {
                c.count("adaptive_walks_still_advancing", 1);
            } else {
                let t = s.time();
                let g = *grid.iter().find(|g| **g > t).unwrap_or(grid.last().unwrap());
                c.count("adaptive_walks_looked_at_closely", 1);
                watch_steps(c, &mut *s, kind, &spec, &rhs, g, 200)?;
            }
        }
        c.distinct(&c.desc.clone());
        Ok(())
    });
    // finished, empty-interval and repeated walks do nothing
    ctx.cases("nothing_to_do", ctx.n(500, 10_000), |c| {
        let kind = c.idx % 7;
        let mut s = subject(&mut c.rng, systems, kind, 6);
        c.desc = s.dbg();
        let t = s.time();
        let mut list: Vec<f64> = (0..c.rng.int(1, 4)).map(|_| t - c.rng.f(0., 3.)).collect();
        list.sort_by(|a, b| a.partial_cmp(b).unwrap());
        s.set_report(list);
        let before = s.dbg();
        trace::set_budget(1);
        let stopped = cut(c, || s.walk())?;
        ensure!(!stopped && trace::count() == 0, "a walk whose report times have all passed evaluates the right-hand side");
        ensure!(s.dbg() == before, "a walk whose report times have all passed changes the system");
        c.count("nothing_to_do", 1);
        c.distinct(&c.desc.clone());
        Ok(())
    });
    ctx.require("fixed_walks", 500);
    ctx.require("fixed_walks_through_non_finite_states", 50);
    ctx.require("steps_which_advanced", 5000);
    ctx.require("adaptive_walks_ended", 200);
    let _: fn(&mut Case) -> R = |_| Ok(());
}
