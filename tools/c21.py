"""C21: the Python module.  The extension module is built from the working tree, loaded by a real
interpreter and driven through the same scenarios as a Rust reference run of the same sources."""
import glob, random
import c22
from concurrent.futures import ThreadPoolExecutor
from common import *

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "python3-vt"
NPROC = 8


def main():
    rep = Report("C21", "a case is one scenario (a system built through Python, with its walks, copies and round trips), one decoding or one demonstration script; "
                 "distinct by class, constructor, solver type and operations",
                 ["the reference of each scenario is the Rust API of the same tree, so that an error which both share is left to C01-C20",
                  "matplotlib and seaborn are replaced by stand-ins which check the series they are asked to draw",
                  "CPython 3.12 only (the interpreter which is installed)"])
    exe = build_harness()
    rc, o, e = cargo(["build", "--offline"], os.path.join(VERIF, "pyext"), os.path.join(TARGET, "py"), env={"PYO3_PYTHON": "/usr/bin/python3.12"})
    if rc != 0:
        if "/repo/" in e and "error" in e:
            rep.case("compile")
            rep.violation("the extension module does not compile although the library does: " + "\n".join(l for l in e.splitlines() if "warning" not in l)[:2500])
            return rep.finish()
        die("the extension module does not build:\n" + e[-3000:])
    root = os.path.join(OUT, "c21-%d" % os.getpid())
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    try:
        return work(rep, exe, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def printing(rep, cfg, root):
    """text, keys and values printed from Rust"""
    r = random.Random(SEED)
    letters = ["a", "B", " ", "'", '"', "{", "}", "{x}", "\\", "%", "\n", "\t", "\u00e9", "\U0001f600", "#", ":", "()", "0", "print", "None"]
    calls, want = [], []

    def text():
        return "".join(r.choice(letters) for _ in range(r.choice([0, 1, 2, 5, 12])))

    def lit(t):
        return '"%s"' % "".join(c if c.isascii() and c.isalnum() else "\\u{%x}" % ord(c) for c in t)

    def value():
        k = r.randrange(6)
        if k == 0:
            x = r.choice([0.0, -1.5, 1e300, 123456.789, 2.0 ** -30, float(r.randrange(1000))])
            return "%r_f64" % x, "%.3g" % x
        if k == 1:
            n = r.randrange(-10 ** 6, 10 ** 6)
            return "(%d_i64)" % n, "%.3g" % n
        if k == 2:
            t = text()
            return lit(t), t
        if k == 3:
            v = [float(r.randrange(9)) for _ in range(r.randrange(4))]
            return "vec![%s] as Vec<f64>" % ", ".join(map(repr, v)), repr(v)
        if k == 4:
            return "None::<f64>", "None"
        return "String::from(%s)" % lit("s"), "s"

    for _ in range(60):
        t = text()
        calls.append("print_to_py!(%s);" % r.choice([lit(t), "&String::from(%s)" % lit(t)]))
        want.append(t + "\n")
    for _ in range(120):
        pairs = [(text(), value()) for _ in range(r.choice([1, 1, 2, 3]))]
        calls.append("print_to_py!(%s);" % ", ".join("%s, %s" % (lit(k), v[0]) for k, v in pairs))
        want.append("".join("%s: %s\n" % (k, v[1]) for k, v in pairs))
    d = os.path.join(root, "printing")
    os.makedirs(d)
    with open(os.path.join(d, "lib.rs"), "w") as f:
        f.write("use dess::prelude::*;\n" + "".join("#[pyfunction]\nfn print%d() {\n    %s\n}\n" % (k, c) for k, c in enumerate(calls)))
        f.write("#[pymodule]\nfn printing(_py: Python, m: &PyModule) -> PyResult<()> {\n" + "".join("    m.add_function(wrap_pyfunction!(print%d, m)?)?;\n" % k for k in range(len(calls))) + "    Ok(())\n}\n")
    with open(os.path.join(d, "want.json"), "w") as f:
        json.dump(want, f)
    rc, msgs, raw = cfg.compile(os.path.join(d, "lib.rs"), "link", "printing", "cdylib", os.path.join(d, "printing.so"), d)
    if rc != 0:
        return rep.violation("calls of print_to_py with text, numbers and lists do not compile: " + c22.brief(msgs))
    rc, o, e = run([PY, os.path.join(HERE, "py_print.py"), d], cwd=d, timeout=120, env={"RUST_BACKTRACE": "0", "PYTHONDONTWRITEBYTECODE": "1"})
    try:
        res = json.loads(o.splitlines()[-1])
    except (ValueError, IndexError):
        return rep.violation("the interpreter which prints from Rust ends with %s: %s" % (rc, (o + e)[-800:]))
    for b in res["bad"][:3]:
        rep.violation(b)
    for k in range(res["n"]):
        rep.case(("print", k))
    rep.count("prints_compared", res["n"])


def work(rep, exe, root):
    so = os.path.join(root, "so")
    os.makedirs(so)
    shutil.copy(os.path.join(TARGET, "py", "debug", "libdess_pyo3.so"), os.path.join(so, "dess_pyo3.so"))
    n = 20000 if THOROUGH else 3000
    rc, o, e = run([exe, "__pyref", str(SEED), str(n), root], timeout=600, env={"RUST_BACKTRACE": "0"})
    if rc != 0:
        die("the reference run ended with %s: %s" % (rc, (o + e)[-2000:]))
    plan_path = os.path.join(root, "plan.json")
    plan = json.load(open(plan_path))
    for sc in plan["scenarios"]:
        rep.case(("scenario", sc["class"], sc["how"], str(sc["solver_type"]), tuple(op["op"] for op in sc["ops"]), len(sc["report"])))
    for d in plan["decodes"]:
        rep.case(("decode", d["class"], d["fmt"], d["data"]))
    for c in plan["defaults"]:
        rep.case(("default", c))

    def side(k):
        scratch = os.path.join(root, "scratch%d" % k)
        os.makedirs(scratch)
        result = os.path.join(root, "result%d.json" % k)
        rc, o, e = run([PY, os.path.join(HERE, "py_side.py"), so, plan_path, str(k), str(NPROC), result, scratch, str(SEED)], cwd=scratch,
                       timeout=780 if THOROUGH else 400, env={"RUST_BACKTRACE": "0", "PYTHONDONTWRITEBYTECODE": "1"})
        return rc, (o + e)[-1500:], result, os.listdir(scratch)

    with ThreadPoolExecutor(NPROC) as ex:
        sides = list(ex.map(side, range(NPROC)))
    for k, (rc, err, result, left) in enumerate(sides):
        if rc == 0:
            r = json.load(open(result))
            for c, v in r["counts"].items():
                rep.count(c, v)
            for s in r["samples"]:
                rep.sample(s)
            for p in r["problems"]:
                rep.violation(p["what"], replay_cmd="VERIF_SEED=%d ./check.sh C21" % SEED)
        elif rc is None:
            rep.violation("the interpreter which drives the module (part %d) does not come to an end; the same calls in Rust take seconds" % k)
        elif rc < 0:
            rep.violation("the interpreter which drives the module (part %d) was killed by signal %d: %s" % (k, -rc, err))
        elif os.path.exists(result) or "ImportError" in err or "dess_pyo3" in err:
            rep.violation("the interpreter which drives the module (part %d) ended with status %d: %s" % (k, rc, err))
        else:
            die("py_side.py (part %d) ended with status %d: %s" % (k, rc, err))

    with ThreadPoolExecutor(8) as pool:
        # declarations other than the shipped ones: what they expose to Python
        cfg = c22.configs(rep)
        if cfg is None:
            return rep.finish()
        gen = os.path.join(root, "generated")
        os.makedirs(gen)
        c22.valid(rep, cfg[1:], gen, 96 if THOROUGH else 18, SEED + 1000, pool)
    printing(rep, cfg[1], root)

    scripts = sorted(glob.glob(os.path.join(REPO, "python", "*", "*.py")))

    def demo(path):
        cwd = os.path.join(root, "demo-" + os.path.basename(path))
        os.makedirs(cwd)
        env = {"PYTHONPATH": so + ":" + os.path.join(HERE, "stubs"), "PYTHONDONTWRITEBYTECODE": "1", "STUB_COUNTS": os.path.join(cwd, "counts"),
               "RUST_BACKTRACE": "0"}
        return path, run([PY, path], cwd=cwd, env=env, timeout=300), os.path.join(cwd, "counts")

    with ThreadPoolExecutor(4) as ex:
        for path, (rc, o, e), counts in ex.map(demo, scripts):
            name = os.path.relpath(path, REPO)
            rep.case(("demo", name))
            if rc != 0:
                rep.violation("the demonstration script %s ends with %s: %s" % (name, "a timeout" if rc is None else rc, e[-1200:]))
                continue
            rep.count("demonstration_scripts")
            c = dict(kv.split("=") for kv in open(counts).read().split())
            rep.count("demo_series_drawn", int(c["lines"]))
            rep.count("demo_points_drawn", int(c["points"]))
            if int(c["not_finite"]):
                rep.violation("%s draws %s values which are not finite" % (name, c["not_finite"]))

    for c, v in (("scenarios", n), ("operations", n), ("floats_compared", 10000), ("walks", 500), ("held_values_compared", 100), ("invalid_calls_refused", 5000),
                 ("decodings_accepted", 20), ("decodings_refused", 20), ("scenarios_on_threads", 50), ("classes", 10), ("panics_as_exceptions", 1),
                 ("demo_points_drawn", 1000), ("generated_attributes_read", 100), ("prints_compared", 100), ("copies_copy", 20), ("copies_deepcopy", 20), ("copies_clone", 20)):
        rep.require(c, v)
    if len(scripts) != rep.counts.get("demonstration_scripts", 0):
        rep.errors.append("not all scripts ran")
    return rep.finish()
