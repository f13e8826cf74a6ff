"""C22: the macros run inside the compiler, on random programs which use them: valid ones have to compile (with and
without the Python feature), to run, and to expose to Python what they declare; programs with one misuse have to be
rejected with a message which names it."""
import re
from concurrent.futures import ThreadPoolExecutor
import macros
from common import *

HERE = os.path.dirname(os.path.abspath(__file__))


def artifacts(dir_, target, env=None):
    """builds the crate and returns crate name -> rlib/so of what it links"""
    rc, o, e = cargo(["build", "--offline", "--message-format=json"], dir_, target, env=env)
    if rc != 0:
        return None, e
    res = {}
    for l in o.splitlines():
        if l.startswith("{"):
            m = json.loads(l)
            if m.get("reason") == "compiler-artifact":
                for f in m["filenames"]:
                    if f.endswith((".rlib", ".so")):
                        res.setdefault(m["target"]["name"].replace("-", "_"), f)
    return res, None


class Config:
    """how to compile a program, without or with the Python feature"""

    def __init__(self, name, arts, target, crates, flags):
        self.name = name
        self.flags = ["--edition", "2021", "-L", "dependency=" + os.path.join(target, "debug", "deps"), "-A", "warnings", "--error-format=json"] + flags
        for c in crates:
            self.flags += ["--extern", "%s=%s" % (c, arts[c])]

    def compile(self, src, emit, crate_name, crate_type="lib", out=None, cwd=None):
        cmd = ["rustc", src, "--crate-name", crate_name, "--crate-type", crate_type, "--emit=" + emit] + self.flags + ["-o", out]
        rc, o, e = run(cmd, cwd=cwd, env={"RUST_BACKTRACE": "0"}, timeout=300)
        msgs = []
        for l in e.splitlines():
            if l.startswith("{"):
                m = json.loads(l)
                if m.get("level") == "error":
                    msgs.append(m)
        return rc, msgs, e


def configs(rep):
    a, err = artifacts(os.path.join(VERIF, "harness"), os.path.join(TARGET, "h"))
    if a is None:
        die("the harness does not build against /repo:\n" + err[-3000:])
    b, err = artifacts(os.path.join(VERIF, "pyext"), os.path.join(TARGET, "py"), {"PYO3_PYTHON": "/usr/bin/python3.12"})
    if b is None:
        if rep is not None and "/repo/" in err:
            rep.case("pyo3")
            rep.violation("the library's own declarations do not compile with the Python feature: " + "\n".join(l for l in err.splitlines() if "warning" not in l)[:2500])
            return None
        die("the extension module does not build:\n" + err[-3000:])
    crates = ["dess", "dess_examples", "serde"]
    return [Config("without the Python feature", a, os.path.join(TARGET, "h"), crates, ["-C", "debuginfo=0"]),
            Config("with the Python feature", b, os.path.join(TARGET, "py"), crates + ["pyo3"], ["-C", "debuginfo=0", "--cfg", 'feature="pyo3"'])]


def texts(msgs):
    """everything the error messages say"""
    out = []
    for m in msgs:
        out.append(m["message"])
        for s in m["spans"]:
            out.append(s.get("label") or "")
        for c in m.get("children", []):
            out.append(c["message"])
            for s in c["spans"]:
                out.append(s.get("label") or "")
    return out


def brief(msgs):
    return " | ".join(m["message"].replace("\n", " ")[:200] for m in msgs[:5])


def lines_of(msgs, file):
    return [s["line_start"] for m in msgs for s in m["spans"] if os.path.basename(s["file_name"]) == file]


def valid(rep, cfgs, root, n, seed, pool):
    """n valid programs, compiled in groups, run, and loaded into Python; returns nothing"""
    progs = [macros.Program("%d/valid/%d" % (seed, k), "p%d" % k) for k in range(n)]
    group = 6
    groups = [progs[k:k + group] for k in range(0, n, group)]

    def one(args):
        gi, g, cfg = args
        py = "with the" in cfg.name
        d = os.path.join(root, "v%d%s" % (gi, "py" if py else ""))
        os.makedirs(d)
        main = "".join("mod %s;\n" % p.name for p in g)
        for p in g:
            with open(os.path.join(d, p.name + ".rs"), "w") as f:
                f.write(p.source())
        if py:
            main = "use dess::prelude::*;\n" + main
            main += "#[pymodule]\nfn gen%d(py: Python, m: &PyModule) -> PyResult<()> {\n" % gi
            for c in ["ThermalMass", "ThermalMassState", "ThermalMassStateHistoryVec", "Conductance", "ConductanceState", "ConductanceStateHistoryVec"]:
                main += "    m.add_class::<dess_examples::components::%s>()?;\n" % c
            for p in g:
                main += "    let s = PyModule::new(py, \"%s\")?;\n" % p.name
                for c in p.expected_api():
                    main += "    s.add_class::<%s::%s>()?;\n" % (p.name, c)
                main += "    m.add_submodule(s)?;\n"
            main += "    Ok(())\n}\n"
            src, ctype, out = os.path.join(d, "lib.rs"), "cdylib", os.path.join(d, "gen%d.so" % gi)
        else:
            main += "fn main() {\n" + "".join("    %s::check();\n    println!(\"ok %s\");\n" % (p.name, p.name) for p in g) + "}\n"
            src, ctype, out = os.path.join(d, "main.rs"), "bin", os.path.join(d, "prog")
        with open(src, "w") as f:
            f.write(main)
        rc, msgs, raw = cfg.compile(src, "link", "gen%d" % gi, ctype, out, d)
        if rc is None:
            return rep.violation("compiling valid programs takes more than 300 s, %s" % cfg.name)
        if rc != 0:
            bad = sorted({os.path.basename(s["file_name"]) for m in msgs for s in m["spans"]})
            p = next((p for p in g if p.name + ".rs" in bad), None)
            if not msgs:
                die("rustc fails without an error message: " + raw[-2000:])
            return rep.violation("a valid program does not compile %s: %s" % (cfg.name, brief(msgs)), files=bad, source=p.source() if p else main)
        rep.count("valid_programs_compiled_" + ("pyo3" if py else "plain"), len(g))
        if not py:
            rc, o, e = run([out], cwd=d, timeout=120, env={"RUST_BACKTRACE": "0"})
            ok = o.split().count("ok")
            if rc != 0:
                p = g[min(ok, len(g) - 1)]
                return rep.violation("a valid program, once compiled, does not do what it declares (status %s): %s" % (rc, e[-800:]), source=p.source())
            rep.count("valid_programs_run", ok)
            return
        plan = {"module": "gen%d" % gi, "programs": {p.name: p.expected_api() for p in g}}
        with open(os.path.join(d, "plan.json"), "w") as f:
            json.dump(plan, f)
        rc, o, e = run(["python3-vt", os.path.join(HERE, "py_gen.py"), d], cwd=d, timeout=120, env={"RUST_BACKTRACE": "0", "PYTHONDONTWRITEBYTECODE": "1"})
        try:
            res = json.loads(o.splitlines()[-1])
        except (ValueError, IndexError):
            return rep.violation("the interpreter which loads a module of generated classes ends with %s: %s" % (rc, (o + e)[-1000:]))
        for prob in res["problems"][:3]:
            p = next((p for p in g if p.name == prob["program"]), g[0])
            rep.violation("generated Python class: " + prob["what"], source=p.source())
        for c, v in res["counts"].items():
            rep.count(c, v)

    for p in progs:
        rep.case(("valid", p.name, len(p.nodes), tuple(c for c, _ in p.classes), p.system.walk))
    list(pool.map(one, [(gi, g, c) for gi, g in enumerate(groups) for c in cfgs]))


def misuse(rep, cfgs, root, per_kind, seed, pool):
    jobs = []
    for kind in macros.Misuse.KINDS:
        for k in range(per_kind):
            for c in cfgs:
                if kind in macros.Misuse.ONLY_PYO3 and "without" in c.name:
                    continue
                jobs.append((kind, k, c))

    def one(job):
        kind, k, cfg = job
        name = "m_%s_%d" % (kind, k)
        p = macros.Misuse("%d/%s/%d" % (seed, kind, k), name, kind, k)
        text = p.source()
        base = name + ("py" if "with the" in cfg.name else "") + ".rs"
        src = os.path.join(root, base)
        with open(src, "w") as f:
            f.write(text)
        rep.case((kind, k))
        rc, msgs, raw = cfg.compile(src, "metadata", name, "lib", src + ".rmeta", root)
        if rc is None:
            return rep.violation("compiling a program with the misuse `%s` takes more than 300 s" % kind, source=text)
        if rc == 0:
            return rep.violation("a program with the misuse `%s` is accepted %s" % (kind, cfg.name), source=text)
        if not msgs:
            die("rustc fails without an error message: " + raw[-2000:])
        if any("internal compiler error" in m["message"] for m in msgs):
            die("compiler crash: " + brief(msgs))
        said = texts(msgs)
        if p.want and not any(re.search(p.want, t) for t in said):
            return rep.violation("no error message about the misuse `%s` matches /%s/ %s: %s" % (kind, p.want, cfg.name, brief(msgs)), source=text)
        if p.documented:
            # rejections by the macros carry no code of the compiler's own checks, which only see the expansion
            own = texts([m for m in msgs if not m.get("code")])
            if not any(re.search(p.want, t) for t in own):
                return rep.violation("the macro does not report the documented misuse `%s` itself (nothing it says matches /%s/) %s: %s" % (kind, p.want, cfg.name, brief(msgs)), source=text)
            if any("panicked" in m["message"] for m in msgs):
                return rep.violation("the macro panics on the documented misuse `%s` %s: %s" % (kind, cfg.name, brief(msgs)), source=text)
            lo, hi = p.spans[p.where]
            if not any(lo <= l <= hi for l in lines_of(msgs, base)):
                return rep.violation("the error about the misuse `%s` in lines %d-%d points to lines %s %s: %s" % (kind, lo, hi, sorted(set(lines_of(msgs, base)))[:5], cfg.name, brief(msgs)), source=text)
            rep.count("documented_misuses_rejected")
        rep.count("misuses_rejected")
        rep.count("rejected_" + kind)
        if k == 0 and "with the" in cfg.name:
            rep.sample({"misuse": kind, "messages": brief(msgs)[:300]}, 8)

    list(pool.map(one, jobs))


def main():
    rep = Report("C22", "a case is one generated program (valid, or with one misuse); distinct by program shape and misuse",
                 ["rustc 1.99 and the locked dependencies; other compiler versions may phrase or place the errors of rustc itself differently",
                  "generic structs are not among the valid programs: the macros document no support for them"])
    cfgs = configs(rep)
    if cfgs is None:
        return rep.finish()
    root = os.path.join(OUT, "c22-%d" % os.getpid())
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    try:
        with ThreadPoolExecutor(8) as pool:
            valid(rep, cfgs, root, 240 if THOROUGH else 36, SEED, pool)
            misuse(rep, cfgs, root, 40 if THOROUGH else 4, SEED, pool)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    rep.require("valid_programs_compiled_plain", 30)
    rep.require("valid_programs_compiled_pyo3", 30)
    rep.require("valid_programs_run", 30)
    rep.require("documented_misuses_rejected", 60)
    rep.require("misuses_rejected", 150)
    rep.require("generated_classes", 60)
    rep.require("generated_functions_called", 30)
    rep.require("generated_attributes_read", 300)
    for k in macros.Misuse.KINDS:
        rep.require("rejected_" + k, 3)
    return rep.finish()
