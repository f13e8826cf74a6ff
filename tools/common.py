"""Shared helpers of the checks' drivers."""
import json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.environ.get("VERIF_DIR") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
OUT = os.path.join(VERIF, "out")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"


def die(msg, code=2):
    print("ERROR " + msg, flush=True)
    sys.exit(code)


def run(cmd, cwd=None, env=None, timeout=None, stdin=None):
    """-> (returncode or None on timeout, stdout, stderr)"""
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL, text=True,
                         errors="replace", start_new_session=True)
    try:
        o, er = p.communicate(stdin, timeout=timeout)
        return p.returncode, o, er
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        o, er = p.communicate()
        return None, o, er


def cargo(args, cwd, target, env=None, timeout=700, toolchain=None):
    cmd = ["cargo"] + ([toolchain] if toolchain else []) + args
    e = {"CARGO_TARGET_DIR": target, "CARGO_TERM_COLOR": "never"}
    e.update(env or {})
    return run(cmd, cwd=cwd, env=e, timeout=timeout)


def build_harness():
    rc, o, e = cargo(["build", "--offline", "--bin", "dessmon"], os.path.join(VERIF, "harness"), os.path.join(TARGET, "h"))
    if rc != 0:
        die("the harness does not build against /repo:\n" + e[-3000:])
    return os.path.join(TARGET, "h", "debug", "dessmon")


def build_generated(nsys, nhist):
    """-> (binary, None) or (None, compiler messages about the generated sources)"""
    import gen
    build_harness()
    out = os.path.join(OUT, "gen")
    gen.generate(out, SEED, nsys, nhist, VERIF)
    shutil.copy(os.path.join(VERIF, "harness", "Cargo.lock"), os.path.join(out, "Cargo.lock"))
    rc, o, e = cargo(["build", "--offline"], out, os.path.join(TARGET, "h"))
    if rc == 0:
        return os.path.join(TARGET, "h", "debug", "dessgen"), None
    if "could not compile `dessgen`" in e and "--> src/" in e:
        return None, "\n".join(l for l in e.splitlines() if "warning" not in l)
    die("the generated crate does not build:\n" + e[-3000:])


class Report:
    """Violations, known findings and evidence for checks whose driver is Python."""

    def __init__(self, prop, rule, assumptions=()):
        self.prop, self.rule, self.assumptions = prop, rule, list(assumptions)
        self.t0 = time.time()
        self.evals = 0
        self.distinct = set()
        self.counts = {}
        self.samples = []
        self.viol = []
        self.known = {}
        self.errors = []
        self.lock = __import__("threading").Lock()

    def count(self, k, n=1):
        with self.lock:
            self.counts[k] = self.counts.get(k, 0) + n

    def case(self, key):
        with self.lock:
            self.evals += 1
            self.distinct.add(key)

    def sample(self, s, limit=6):
        with self.lock:
            if len(self.samples) < limit:
                self.samples.append(s)

    def violation(self, what, **more):
        with self.lock:
            self.viol.append(dict(property=self.prop, what=what, seed=SEED, **more))

    def require(self, k, n):
        if not self.viol and self.counts.get(k, 0) < n:
            self.errors.append("observed only %d of `%s`, need %d" % (self.counts.get(k, 0), k, n))

    def merge(self, ev):
        """takes over the evidence of a sub-run of the Rust harness"""
        c = ev.get("coverage", {})
        self.evals += c.get("evaluations", 0)
        self.distinct.update(("sub", ev.get("property"), i) for i in range(c.get("distinct_nontrivial", 0)))
        for k, v in c.get("observed", {}).items():
            self.count(k, v)
        for s in c.get("samples", [])[:4]:
            self.samples.append(s)

    def finish(self):
        code = 0
        os.makedirs(os.path.join(OUT, "replay"), exist_ok=True)
        listed = known_ids(self.prop)
        for k, (n, what) in self.known.items():
            if k in listed:
                print("KNOWN-FINDING: property=%s %s (%d times) e.g. %s" % (self.prop, k, n, what.replace("\n", " ")[:300]))
            else:
                self.viol.append(dict(property=self.prop, what="finding %s which the known-findings file does not list: %s" % (k, what)))
        for i, v in enumerate(self.viol[:8]):
            path = os.path.join(OUT, "replay", "%s-py%d.json" % (self.prop, i))
            v.setdefault("replay_cmd", "VERIF_SEED=%d ./check.sh %s" % (SEED, self.prop))
            json.dump(v, open(path, "w"), indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  " + str(v["what"]).replace("\n", " ")[:1500], file=sys.stderr)
            code = 1
        if not code and self.errors:
            for e in self.errors[:10]:
                print("ERROR property=%s %s" % (self.prop, e))
            code = 2
        ev = dict(property=self.prop, tier="thorough" if THOROUGH else "quick", seed=SEED, level="exploration",
                  coverage=dict(evaluations=self.evals, distinct_nontrivial=len(self.distinct), rule=self.rule,
                                samples=self.samples[:8], observed=dict(sorted(self.counts.items()))),
                  assumptions=self.assumptions, wall_s=time.time() - self.t0, violations=len(self.viol))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1, default=str)
        print("%s: %d cases, %d distinct non-trivial, %d violations, %.1fs" % (self.prop, self.evals, len(self.distinct), len(self.viol), time.time() - self.t0))
        return code


def known_ids(prop):
    try:
        d = json.load(open(os.path.join(VERIF, "known_findings.json")))
    except OSError:
        return set()
    return {k["id"] for k in d.get("known", []) if k["property"] == prop}
