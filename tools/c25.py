"""C25: the same workloads in a plain build (with the heap counted), under AddressSanitizer with LeakSanitizer,
ThreadSanitizer, Miri, and the extension module under AddressSanitizer inside the interpreter."""
import glob, re
from concurrent.futures import ThreadPoolExecutor
from common import *

HERE = os.path.dirname(os.path.abspath(__file__))
HOST = "x86_64-unknown-linux-gnu"
REPORTS = re.compile(r"ERROR: (AddressSanitizer|LeakSanitizer)[^\n]*|WARNING: ThreadSanitizer[^\n]*|error: Undefined Behavior[^\n]*|error: memory leaked[^\n]*|unsafe precondition\(s\) violated[^\n]*|SUMMARY: \w*Sanitizer[^\n]*")
# the sanitizer works, but not in this place
BROKEN = re.compile(r"LeakSanitizer has encountered a fatal error|failed to intercept|Shadow memory range interleaves|ReserveShadowMemoryRange failed|unexpected memory mapping|error: unsupported operation")


def sub_env(root, name, **kw):
    d = os.path.join(root, name)
    os.makedirs(d, exist_ok=True)
    shutil.copy(os.path.join(VERIF, "known_findings.json"), d)
    if not os.path.exists(os.path.join(d, "golden")):
        os.symlink(os.path.join(VERIF, "golden"), os.path.join(d, "golden"))
    e = dict(VERIF_DIR=d, VERIF_SEED=str(SEED), VERIF_TIER="quick", VERIF_PART="1", RUST_BACKTRACE="0")
    e.update({k: str(v) for k, v in kw.items()})
    return d, e


def excerpt(text):
    """the part of the output which says what was wrong"""
    m = REPORTS.search(text)
    k = m.start() if m else max(0, len(text) - 1500)
    frames = [l.strip() for l in text[k:k + 20000].splitlines() if re.search(r"/repo/|dess", l)][:8]
    return (text[k:k + 700] + " ... " + " | ".join(frames))[:2500]


def judge(rep, name, prop, res, d, own):
    """takes the outcome of a run into the report; own: violations of the workload's own monitors count"""
    rc, o, e = res
    text = o + e
    m = REPORTS.search(text)
    if m and not BROKEN.search(text):
        rep.violation("%s reports while the workload of %s runs: %s" % (name, prop, excerpt(text)))
        return
    if rc is None:
        rep.count("runs_stopped_by_time_" + name)
        return
    if rc < 0:
        if rc == -9:
            die("%s was killed" % name)
        rep.violation("the process was killed by signal %d while the workload of %s ran under %s: %s" % (-rc, prop, name, excerpt(text)))
        return
    if BROKEN.search(text):
        rep.count("runs_without_verdict_" + name)
        return
    path = os.path.join(d, "evidence", prop + ".json")
    if not os.path.exists(path):
        die("%s left no evidence (status %s): %s" % (name, rc, text[-1500:]))
    ev = json.load(open(path))
    rep.merge(ev)
    rep.count("cases_under_" + name, ev["coverage"]["evaluations"])
    rep.count("runs_under_" + name)
    if own and ev["violations"]:
        for f in sorted(glob.glob(os.path.join(d, "out", "replay", "*.json")))[:4]:
            v = json.load(open(f))
            rep.violation("%s (under %s)" % (v.get("what"), name), detail=v)


def build(dir_, target, flags, args=(), env=None, timeout=600):
    e = {"RUSTFLAGS": flags}
    e.update(env or {})
    return cargo(["build", "--offline", "--target", HOST] + list(args), dir_, target, env=e, timeout=timeout, toolchain="+nightly")


def main():
    rep = Report("C25", "a case is one random operation sequence (or hostile decode, thread scenario, history sequence) over the safe interface, counted once for each instrument it ran under; "
                 "distinct by sequence and instrument",
                 ["Miri, the sanitizers and the counting allocator see only the executions made; Miri runs few and small ones",
                  "ThreadSanitizer sees the standard library instrumented as well; AddressSanitizer sees the standard library's allocations, not its accesses",
                  "a leak from the Python side is growth of the interpreter's live heap under repetition"])
    exe, err = build_generated(40 if THOROUGH else 10, 12 if THOROUGH else 6)
    if err:
        die("a generated declaration does not compile:\n" + err[-3000:])
    gen = os.path.join(OUT, "gen")
    root = os.path.join(OUT, "c25-%d" % os.getpid())
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    try:
        return work(rep, exe, gen, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def plain(rep, exe, root):
    d, e = sub_env(root, "plain", VERIF_TIER="thorough" if THOROUGH else "quick")
    del e["VERIF_PART"]
    rc, o, err = run([exe, "C25"], env=e, timeout=3400 if THOROUGH else 400)
    if rc == 2:
        die("the plain run: " + o[-1500:])
    if rc is None:
        rep.violation("the workload does not come to an end within the time allowed (it takes seconds)")
        return
    judge(rep, "plain", "C25", (rc, o, err), d, True)


def asan(rep, gen, root):
    t = os.path.join(TARGET, "asan")
    rc, o, e = build(gen, t, "-Zsanitizer=address --cfg no_interpose")
    if rc != 0:
        die("the sanitized harness does not build:\n" + e[-2500:])
    exe = os.path.join(t, HOST, "debug", "dessgen")
    jobs = [("C25", 0.5 if not THOROUGH else 8), ("C13", 0.4), ("C14", 0.4), ("C15", 0.3), ("C16", 0.2), ("C17", 0.25), ("C18", 0.06), ("C19", 0.1), ("C08", 0.3), ("C10", 0.3), ("C12", 0.4), ("C23", 0.2), ("C07", 0.2), ("C04", 0.2)]
    t0 = time.time()
    for prop, scale in jobs:
        if time.time() - t0 > 200 and not THOROUGH:
            rep.count("workloads_skipped_for_time")
            continue
        d, env = sub_env(root, "asan-" + prop, VERIF_SCALE=scale * (5 if THOROUGH and prop != "C25" else 1), VERIF_LIMIT=60 if not THOROUGH else 1200,
                         ASAN_OPTIONS="detect_leaks=1:exitcode=77:malloc_context_size=12:allocator_may_return_null=1:detect_stack_use_after_return=1")
        t1 = time.time()
        judge(rep, "AddressSanitizer", prop, run([exe, prop], env=env, timeout=200 if not THOROUGH else 1500), d, prop == "C25")
        rep.count("seconds_of_asan_" + prop, round(time.time() - t1))


def tsan(rep, root):
    t = os.path.join(TARGET, "tsan")
    h = os.path.join(VERIF, "harness")
    rc, o, e = build(h, t, "-Zsanitizer=thread --cfg no_interpose", ["-Zbuild-std", "--bin", "dessmon"], timeout=700)
    if rc != 0:
        die("the harness does not build for ThreadSanitizer:\n" + e[-2500:])
    exe = os.path.join(t, HOST, "debug", "dessmon")
    k = 10 if THOROUGH else 1
    for prop, sections, scale in (("C25", "threads,churn", 0.4 * k), ("C19", "concurrent,repeat", 0.06 * k)):
        d, env = sub_env(root, "tsan-" + prop, VERIF_SCALE=scale, VERIF_SECTIONS=sections, VERIF_LIMIT=120 if not THOROUGH else 900, TSAN_OPTIONS="exitcode=77:halt_on_error=0:second_deadlock_stack=1")
        judge(rep, "ThreadSanitizer", prop, run([exe, prop], env=env, timeout=200 if not THOROUGH else 1200), d, prop == "C25")


def miri(rep, root):
    t = os.path.join(TARGET, "miri")
    h = os.path.join(VERIF, "harness")
    limit = 1500 if THOROUGH else 70
    base = dict(MIRIFLAGS="-Zmiri-disable-isolation")
    # the first one builds, the others find it done
    rc, o, e = cargo(["miri", "run", "--offline", "--bin", "dessmon", "--", "none"], h, t, env=dict(base, VERIF_SEED="1"), timeout=600, toolchain="+nightly")
    if "unknown property none" not in e:
        die("Miri does not run the harness:\n" + e[-2500:])
    jobs = [("C25", "churn"), ("C25", "churn"), ("C25", "hostile"), ("C25", "interface,histories"), ("C25", "threads"), ("C25", "churn,helpers,interface_leaks"), ("C13", "shipped"), ("C14", "clone")]

    def one(k):
        prop, sections = jobs[k]
        d, env = sub_env(root, "miri-%d" % k, VERIF_SCALE=0.012 if not THOROUGH else 0.1, VERIF_SECTIONS=sections, VERIF_LIMIT=limit, VERIF_THREADS=1, **base)
        env["VERIF_SEED"] = str(SEED * 1000 + k)
        if k % 2:
            env["MIRIFLAGS"] += " -Zmiri-tree-borrows"
        env["MIRIFLAGS"] += " -Zmiri-seed=%d" % (SEED * 100 + k)
        judge(rep, "Miri", prop, cargo(["miri", "run", "--offline", "--bin", "dessmon", "--", prop], h, t, env=env, timeout=limit * 2 + 60, toolchain="+nightly"), d, prop == "C25")

    with ThreadPoolExecutor(8) as pool:
        list(pool.map(one, range(len(jobs))))


def python(rep, exe, root):
    t = os.path.join(TARGET, "asan-py")
    rc, o, e = build(os.path.join(VERIF, "pyext"), t, "-Zsanitizer=address", env={"PYO3_PYTHON": "/usr/bin/python3.12"})
    if rc != 0:
        die("the sanitized extension module does not build:\n" + e[-2500:])
    so = os.path.join(root, "so")
    os.makedirs(so)
    shutil.copy(os.path.join(t, HOST, "debug", "libdess_pyo3.so"), os.path.join(so, "dess_pyo3.so"))
    rc, rt, e = run(["clang", "-print-file-name=libclang_rt.asan-x86_64.so"])
    env = dict(PYTHONMALLOC="malloc", LD_PRELOAD=rt.strip(), ASAN_OPTIONS="detect_leaks=0:exitcode=77:allocator_may_return_null=1", RUST_BACKTRACE="0", PYTHONDONTWRITEBYTECODE="1")
    plan = os.path.join(root, "plan.json")
    rc, o, e = run([exe, "__pyref", str(SEED), "2400" if THOROUGH else "320", root], timeout=600, env={"RUST_BACKTRACE": "0"})
    if rc != 0:
        die("the reference run ended with %s: %s" % (rc, (o + e)[-1500:]))

    def side(k):
        scratch = os.path.join(root, "py%d" % k)
        os.makedirs(scratch)
        result = os.path.join(scratch, "result.json")
        if k < 4:
            cmd = [os.path.join(HERE, "py_side.py"), so, plan, str(k), "4", result, scratch, str(SEED)]
        else:
            cmd = [os.path.join(HERE, "py_mem.py"), so, "%d-%d" % (SEED, k), "150" if THOROUGH else "12", result, scratch]
        return k, run(["python3-vt"] + cmd, cwd=scratch, env=env, timeout=1500 if THOROUGH else 300), result

    with ThreadPoolExecutor(8) as pool:
        for k, (rc, o, e), result in pool.map(side, range(8)):
            text = o + e
            if REPORTS.search(text) and not BROKEN.search(text):
                rep.violation("AddressSanitizer reports in the interpreter which uses the extension module: " + excerpt(text))
                continue
            if rc is None:
                rep.count("runs_stopped_by_time_python")
                continue
            if rc < 0:
                rep.violation("the interpreter which uses the extension module was killed by signal %d: %s" % (-rc, text[-800:]))
                continue
            if rc != 0 or not os.path.exists(result):
                die("the Python workload ended with %s: %s" % (rc, text[-1500:]))
            r = json.load(open(result))
            rep.count("runs_under_AddressSanitizer_in_Python")
            for c, v in r["counts"].items():
                rep.count("python_" + c, v)
                if c in ("lists", "scenarios"):
                    for n in range(v):
                        rep.case(("python", k, c, n))
            if k >= 4:
                for p in r["problems"][:2]:
                    rep.violation("through Python: " + p)


def timed(f, rep, *args):
    t0 = time.time()
    try:
        return f(rep, *args)
    finally:
        rep.count("seconds_of_" + f.__name__, round(time.time() - t0))


def work(rep, exe, gen, root):
    timed(plain, rep, exe, root)
    if not rep.viol:
        with ThreadPoolExecutor(4) as pool:
            jobs = [pool.submit(timed, *j) for j in ((asan, rep, gen, root), (miri, rep, root), (tsan, rep, root), (python, rep, exe, root))]
            for j in jobs:
                try:
                    j.result()
                except SystemExit:
                    if not rep.viol:
                        raise
    for c, v in (("cases_under_plain", 3000), ("cases_under_AddressSanitizer", 5000), ("cases_under_ThreadSanitizer", 100), ("cases_under_Miri", 12), ("runs_under_Miri", 4),
                 ("runs_under_AddressSanitizer_in_Python", 6), ("python_growth_measurements", 50), ("leak_measurements", 2000), ("threads", 100)):
        rep.require(c, v)
    return rep.finish()
