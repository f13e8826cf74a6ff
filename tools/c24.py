"""C24: the example program and its run functions, run as an unprivileged user in a scratch copy of the fixtures, with
every system call that could change a file recorded."""
import hashlib, random, re, threading
from concurrent.futures import ThreadPoolExecutor
from common import *

FIX = "dess-examples/src/tests/fixtures"
BENCH = ["%s benchmark.yaml" % n for n in ("euler", "heuns", "midpoint", "ralstons", "rk23", "rk4", "rk45")]
BASE = ["euler_baseline.yaml", "euler_w_bc_baseline.yaml"]
CALLS = ("open,openat,openat2,creat,unlink,unlinkat,rename,renameat,renameat2,mkdir,mkdirat,rmdir,truncate,ftruncate,link,linkat,symlink,symlinkat,"
         "chmod,fchmod,fchmodat,chown,fchown,lchown,fchownat,utimensat,utimes,mknod,mknodat,socket,execve")
NOBODY = 65534


def tree(root):
    """path -> (mode, content hash) of everything below root"""
    res = {}
    for d, dirs, files in os.walk(root):
        for n in dirs:
            res[os.path.relpath(os.path.join(d, n), root) + "/"] = os.stat(os.path.join(d, n)).st_mode
        for n in files:
            p = os.path.join(d, n)
            res[os.path.relpath(p, root)] = (os.stat(p).st_mode, hashlib.sha256(open(p, "rb").read()).hexdigest())
    return res


def effects(trace):
    """the calls of a strace log which (try to) change something: [(call, path, succeeded)]"""
    out, n = [], 0
    for l in trace.splitlines():
        m = re.match(r"^(?:\d+ +)?(\w+)\((.*)$", l)
        if not m:
            continue
        n += 1
        call, rest = m.groups()
        paths = re.findall(r'"((?:[^"\\]|\\.)*)"', rest)
        ok = not re.search(r"= -1 E\w+", rest)
        if call in ("open", "openat", "openat2", "creat"):
            if call != "creat" and not re.search(r"O_WRONLY|O_RDWR|O_CREAT|O_TRUNC|O_APPEND|O_TMPFILE", rest):
                continue
            if paths and paths[0] in ("/dev/null", "/dev/tty"):
                continue
        elif call == "execve":
            if n <= 1:
                continue
        elif call == "socket":
            paths = [rest[:60]]
        out.append((call, paths[0] if paths else rest[:80], ok))
    return out, n


class Box:
    """a scratch copy for one run, owned by an unprivileged user"""

    def __init__(self, root, name):
        self.dir = os.path.join(root, name)
        self.fix = os.path.join(self.dir, "ws", FIX)
        os.makedirs(os.path.dirname(self.fix))
        shutil.copytree(os.path.join(REPO, FIX), self.fix)
        os.makedirs(os.path.join(self.dir, "cwd", "dess-examples", "src"))
        shutil.copytree(os.path.join(REPO, FIX), os.path.join(self.dir, "cwd", FIX))
        self.own()

    def own(self):
        for d, dirs, files in os.walk(self.dir):
            os.chown(d, NOBODY, NOBODY)
            for n in files:
                os.chown(os.path.join(d, n), NOBODY, NOBODY)

    def start(self, cmd, env, trace):
        e = {"PATH": os.environ["PATH"], "HOME": os.path.join(self.dir, "cwd"), "RUST_BACKTRACE": "0"}
        e.update({k: v for k, v in env.items() if v is not None})
        return subprocess.Popen(["strace", "-f", "-s", "4096", "-o", trace, "-e", "trace=" + CALLS] + cmd, cwd=os.path.join(self.dir, "cwd"), env=e,
                                stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                                user=NOBODY, group=NOBODY, extra_groups=[], start_new_session=True)


def stop(p):
    try:
        os.killpg(p.pid, 9)
    except ProcessLookupError:
        pass


def quiet(rep, root, name, what, cmd, env, slow_ok=False):
    """one run which must not change any file"""
    box = Box(root, name)
    if env.get("CARGO_MANIFEST_DIR") == "BOX":
        env = dict(env, CARGO_MANIFEST_DIR=os.path.join(box.dir, "ws", "dess-examples"))
    before = tree(box.dir)
    trace = os.path.join(root, name + ".trace")
    open(trace, "w").close()
    os.chown(trace, NOBODY, NOBODY)
    p = box.start(cmd, env, trace)
    try:
        o, e = p.communicate(timeout=200)
    except subprocess.TimeoutExpired:
        stop(p)
        p.communicate()
        eff, n = effects(open(trace, errors="replace").read())
        rep.violation("%s: has not completed after 200 s (a run takes less than a second)" % what, effects=eff[:5])
        return
    after = tree(box.dir)
    eff, n = effects(open(trace, errors="replace").read())
    rep.case((name.rsplit("-", 1)[0], what))
    rep.count("system_calls_seen", n)
    if n == 0:
        rep.errors.append("strace recorded nothing: " + e[-300:])
        return
    if p.returncode != 0:
        rep.violation("%s: ends with status %d: %s" % (what, p.returncode, e[-500:]))
    elif eff:
        rep.violation("%s: calls %s" % (what, "; ".join("%s(%s)%s" % (c, pth, "" if ok else " (failed)") for c, pth, ok in eff[:5])))
    elif before != after:
        rep.violation("%s: changes %s" % (what, sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))[:5]))
    else:
        rep.count("quiet_runs")
        if "elapsed" in o:
            rep.count("quiet_runs_with_output")
    shutil.rmtree(box.dir)


def writes(rep, root, name, what, cmd, prepare, wait_for, want, exe, budget, optional=()):
    """one run with the overwrite option"""
    box = Box(root, name)
    prepare(box.fix)
    box.own()
    start = tree(box.dir)
    trace = os.path.join(root, name + ".trace")
    open(trace, "w").close()
    os.chown(trace, NOBODY, NOBODY)
    p = box.start(cmd, {"CARGO_MANIFEST_DIR": os.path.join(box.dir, "ws", "dess-examples")}, trace)
    t0, done = time.time(), None
    eaten = []
    rd = threading.Thread(target=lambda: eaten.append(p.communicate()))
    rd.start()
    if wait_for:
        # stop the program once the files of the first part are there
        while p.poll() is None and time.time() - t0 < budget:
            eff, _ = effects(open(trace, errors="replace").read())
            if {os.path.basename(f) for _, f, ok in eff if ok} >= set(wait_for):
                time.sleep(1.0)
                break
            time.sleep(0.1)
        finished = p.poll() is not None
        stop(p)
    else:
        rd.join(budget)
        finished = not rd.is_alive()
        stop(p)
    rd.join()
    o, e = eaten[0]
    rep.case((what,))
    after = tree(box.dir)
    eff, n = effects(open(trace, errors="replace").read())
    rep.count("system_calls_seen", n)
    if finished and p.returncode != 0:
        return rep.violation("%s: ends with status %s: %s" % (what, p.returncode, e[-500:]))
    want = list(want)
    if not finished and not wait_for:
        rep.count("overwrite_runs_cut_short")
        want = [w for w in want if w not in optional]
    touched = {f for c, f, ok in eff}
    allowed = {os.path.join(box.fix, w) for w in list(want) + list(optional)}
    foreign = [(c, f) for c, f, ok in eff if os.path.normpath(os.path.join(box.dir, "cwd", f)) not in allowed]
    if foreign:
        return rep.violation("%s: also calls %s" % (what, foreign[:4]))
    other = sorted(k for k in set(start) | set(after) if start.get(k) != after.get(k) and os.path.join(box.dir, k) not in allowed)
    if other:
        return rep.violation("%s: changes %s" % (what, other[:5]))
    missing = [w for w in want if os.path.join(box.fix, w) not in {os.path.normpath(os.path.join(box.dir, "cwd", f)) for f in touched}]
    if missing:
        return rep.violation("%s: does not write %s" % (what, missing))
    rc, o2, e2 = run([exe, "__exref", box.fix, os.path.join(REPO, FIX)], timeout=120, env={"RUST_BACKTRACE": "0"})
    lines = dict((l.split(" ", 2)[1], l) for l in o2.splitlines() if l.startswith(("ok ", "bad ")))
    for w in want:
        key = w.replace(" benchmark.yaml", "")
        l = lines.get(key, "bad %s was not looked at" % key)
        if not l.startswith("ok"):
            return rep.violation("%s: the file %s" % (what, l[4:]))
        rep.count("files_verified")
    rep.count("overwrite_runs")
    if finished:
        rep.count("overwrite_runs_completed")
    shutil.rmtree(box.dir)


def refused(rep, root, name, what, cmd, exe_env):
    """the files cannot be written: this must show in the exit status"""
    box = Box(root, name)
    fix = box.fix
    os.chmod(fix, 0o555)
    for f in os.listdir(fix):
        os.chmod(os.path.join(fix, f), 0o444)
        os.chown(os.path.join(fix, f), 0, 0)
    os.chown(fix, 0, 0)
    before = tree(box.dir)
    trace = os.path.join(root, name + ".trace")
    open(trace, "w").close()
    os.chown(trace, NOBODY, NOBODY)
    p = box.start(cmd, {"CARGO_MANIFEST_DIR": os.path.join(box.dir, "ws", "dess-examples")}, trace)
    try:
        o, e = p.communicate(timeout=60)
    except subprocess.TimeoutExpired:
        stop(p)
        p.communicate()
        return rep.violation("%s: goes on although a benchmark file could not be written" % what)
    rep.case((what,))
    if p.returncode == 0:
        return rep.violation("%s: ends with status 0 although the files could not be written" % what)
    if tree(box.dir) != before:
        return rep.violation("%s: changes files" % what)
    rep.count("refused_runs")


def main():
    rep = Report("C24", "a case is one run of the example program or of one of its run functions: command line, environment and state of the scratch copy",
                 ["runs happen as an unprivileged user in scratch copies, so that a misplaced write is recorded by the tracer but reaches nothing",
                  "command lines are valid Unicode (std::env::args itself panics on others)",
                  "the two baselines need 2*10^9 steps each; when the machine is too slow for them within the budget, only the first part of that run is judged"])
    exe = build_harness()
    rc, o, e = cargo(["build", "--offline", "--release"], os.path.join(VERIF, "exbin"), os.path.join(TARGET, "ex"))
    if rc != 0:
        if "/repo/" in e:
            rep.case("compile")
            rep.violation("the example program does not compile: " + "\n".join(l for l in e.splitlines() if "warning" not in l)[:2500])
            return rep.finish()
        die("the example program does not build:\n" + e[-3000:])
    root = tempfile.mkdtemp(prefix="dess-c24-")
    os.chmod(root, 0o755)
    try:
        return work(rep, exe, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def work(rep, exe, root):
    prog, mon = os.path.join(root, "exbin"), os.path.join(root, "dessmon")
    shutil.copy(os.path.join(TARGET, "ex", "release", "exbin"), prog)
    shutil.copy(exe, mon)
    for f in (prog, mon):
        os.chmod(f, 0o755)
    committed = tree(os.path.join(REPO, FIX))
    r = random.Random(SEED)
    args = [[], ["false"], ["TRUE"], ["True"], ["true "], [" true"], ["1"], ["--true"], ["-h"], ["--help"], ["--overwrite"], [""], ["false", "true"], ["x", "true"], ["tru"],
            ["truetrue"], ["true\n"], ["'true'"], ["--overwrite=true"], ["yes"], ["0"], ["tr\u00fce"], ["overwrite"], ["x"] * 3000, ["false"] + ["true"] * 3, ["y" * 100000]]
    for _ in range(60 if THOROUGH else 10):
        a = ["".join(r.choice("true TRUEfals-=1\u00e9") for _ in range(r.randrange(1, 7))) for _ in range(r.randrange(1, 4))]
        if a[0] != "true":
            args.append(a)
    envs = [{"CARGO_MANIFEST_DIR": "BOX"}, {"CARGO_MANIFEST_DIR": "BOX"}, {}, {"CARGO_MANIFEST_DIR": "/nonexistent/x"}, {"CARGO_MANIFEST_DIR": ""}, {"CARGO_MANIFEST_DIR": "/"},
            {"CARGO_MANIFEST_DIR": "BOX", "OVERWRITE": "true", "TRUE": "true", "RUST_LOG": "trace"}]
    with ThreadPoolExecutor(7) as pool:
        jobs = []

        def fill(size):
            def f(fix):
                for b in BENCH + BASE:
                    if size is None:
                        os.unlink(os.path.join(fix, b))
                    else:
                        with open(os.path.join(fix, b), "w") as h:
                            h.write("stale: [1, 2\n" * size)
            return f
        # the complete run of the program first: it takes minutes
        jobs.append(pool.submit(writes, rep, root, "w-full", "`dess-examples true`", [prog, "true"], fill(20000), None, BENCH + BASE, exe, 640, BASE))
        for k, (a, size) in enumerate([(["true", "x"], 0), (["true", "true"], None), (["true", "false"], 20000)]):
            jobs.append(pool.submit(writes, rep, root, "w-part%d" % k, "`dess-examples %s` up to the baselines" % " ".join(a), [prog] + a, fill(size), BENCH, BENCH, exe, 100, ()))
        for k, size in enumerate([0, None, 20000]):
            jobs.append(pool.submit(writes, rep, root, "w-fn%d" % k, "run_three_tm_sys(true)%s" % ["", " with missing files", " with longer files"][k], [mon, "__ex", "tm_overwrite"],
                                    fill(size), None, BENCH, exe, 200, ()))
        jobs.append(pool.submit(refused, rep, root, "r-bin", "`dess-examples true` without permission", [prog, "true"], {}))
        jobs.append(pool.submit(refused, rep, root, "r-fn", "run_three_tm_sys(true) without permission", [mon, "__ex", "tm_overwrite"], {}))
        for k, a in enumerate(args):
            env = envs[k % len(envs)] if k else {"CARGO_MANIFEST_DIR": "BOX"}
            jobs.append(pool.submit(quiet, rep, root, "q-%d" % k, "`dess-examples %s` with %s" % (" ".join(map(repr, a))[:80], env), [prog] + a, env))
        for k, env in enumerate(envs):
            for fn in ("tm", "bc", "base", "base_bc"):
                jobs.append(pool.submit(quiet, rep, root, "f%s-%d" % (fn, k), "%s(false) with %s" % (fn, env), [mon, "__ex", fn], env))
        for j in jobs:
            j.result()
    if tree(os.path.join(REPO, FIX)) != committed:
        rep.violation("the fixtures of the repository itself changed")
    for c, n in (("quiet_runs", 50), ("quiet_runs_with_output", 30), ("overwrite_runs", 6), ("files_verified", 40), ("refused_runs", 2), ("system_calls_seen", 300)):
        rep.require(c, n)
    return rep.finish()
