"""Runs inside the interpreter which loads the extension module: repeats the scenarios of plan.json
through Python and reports every difference.  usage: py_side.py SO_DIR PLAN FROM STEP RESULT SCRATCH SEED"""
import array, copy, gc, json, math, os, random, struct, sys, threading
so_dir, plan_path, first, step, result, scratch, seed = sys.argv[1:8]
sys.path.insert(0, so_dir)
import dess_pyo3 as D

first, step = int(first), int(step)
counts, problems, samples = {}, [], []


def count(k, n=1):
    counts[k] = counts.get(k, 0) + n


class Bad(Exception):
    pass


def fl(d):
    return struct.unpack("<d", struct.pack("<Q", int(d["f"], 16)))[0]


def show(x):
    return repr(x)[:200]


def same(obj, want, path):
    """obj seen through its attributes against the dump of the Rust value"""
    if want is None:
        if obj is not None:
            raise Bad("%s is %s instead of None" % (path, show(obj)))
    elif isinstance(want, bool):
        if obj is not want:
            raise Bad("%s is %s instead of %s" % (path, show(obj), want))
    elif isinstance(want, int):
        if type(obj) is not int or obj != want:
            raise Bad("%s is %s instead of %s" % (path, show(obj), want))
    elif isinstance(want, str):
        if obj != want:
            raise Bad("%s is %s instead of %s" % (path, show(obj), want))
    elif isinstance(want, list):
        if type(obj) is not list or len(obj) != len(want):
            raise Bad("%s is %s, a list of %d elements is expected" % (path, show(obj), len(want)))
        for k, (o, w) in enumerate(zip(obj, want)):
            same(o, w, "%s[%d]" % (path, k))
    elif "f" in want:
        count("floats_compared")
        x = fl(want)
        if type(obj) is not float or not (struct.pack("<d", obj) == struct.pack("<d", x) or (math.isnan(obj) and math.isnan(x))):
            raise Bad("%s is %s instead of %r" % (path, show(obj), x))
    else:
        count("objects_compared")
        if type(obj).__name__ != want["s"]:
            raise Bad("%s is of type %s instead of %s" % (path, type(obj).__name__, want["s"]))
        for name, w in want["a"].items():
            try:
                v = getattr(obj, name)
            except AttributeError as e:
                raise Bad("%s has no attribute %s" % (path, name))
            same(v, w, path + "." + name)
        for name, w in want["m"].items():
            same(getattr(obj, name)(), w, "%s.%s()" % (path, name))
        if "e" in want:
            e = want["e"]
            if obj.to_json() != e["json"]:
                raise Bad("%s.to_json() is %s instead of %s" % (path, show(obj.to_json()), e["json"][:200]))
            if obj.to_yaml() != e["yaml"]:
                raise Bad("%s.to_yaml() is %s instead of %s" % (path, show(obj.to_yaml()), e["yaml"][:200]))
            b = obj.to_bincode()
            if type(b) is not bytes or b.hex() != e["bincode"]:
                raise Bad("%s.to_bincode() differs" % path)


def component(spec, rng):
    cls, args = spec
    args = {k: fl(args[k]) for k in ("c", "h", "temperature", "temp0") if k in args}
    c = getattr(D, cls)
    if rng.random() < 0.5:
        return c(**args)
    return c(*args.values())


def config(c):
    a = {k: (fl(c[k]) if isinstance(c[k], dict) else c[k]) for k in ("dt_init", "dt_max", "max_iter", "rtol", "atol", "save", "save_states")}
    if c["short"]:
        if not a["save_states"]:
            del a["save_states"]
            if not a["save"]:
                del a["save"]
    if c["keywords"]:
        items = list(a.items())
        random.Random(len(str(a))).shuffle(items)
        return D.AdaptiveSolverConfig(**dict(items))
    return D.AdaptiveSolverConfig(*a.values())


def dup(obj, how):
    count("copies_" + how)
    return {"copy": copy.copy, "deepcopy": copy.deepcopy, "clone": lambda o: o.clone()}[how](obj)


def scenario(sc, k):
    rng = random.Random("%s/%d" % (seed, k))
    parts = {n: component(a, rng) for n, a in sc["args"].items()}
    for n, p in parts.items():
        same(p, sc["inputs"][n], n)
    report = [fl(x) for x in sc["report"]]
    arg = {"list": list, "tuple": tuple, "array": lambda v: array.array("d", v)}[sc["report_as"]](report)
    cls = getattr(D, sc["class"])
    firstarg = sc["solver_type"] if sc["how"] == "new" else config(sc["conf"])
    ctor = cls if sc["how"] == "new" else getattr(cls, sc["how"])
    name = "solver_type" if sc["how"] == "new" else "sol"
    if rng.random() < 0.5:
        s = ctor(firstarg, parts["m1"], parts["m2"], parts["h12"], parts["m3"], parts["h23"], arg)
    else:
        items = [(name, firstarg), ("t_report", arg)] + list(parts.items())
        rng.shuffle(items)
        s = ctor(**dict(items))
    count("constructed_" + sc["how"])
    prev = None
    for n, op in enumerate(sc["ops"]):
        path = "%s after operation %d (%s)" % (sc["class"], n, " ".join(str(v) for kk, v in op.items() if kk not in ("want", "copy")))
        held = None
        if op["op"] == "walk":
            held = [(a, getattr(s, a)) for a in ("m1", "h23", "state", "history", "solver_conf")]
            r = s.walk()
            if r is not None:
                raise Bad("%s: walk returned %s" % (path, show(r)))
            count("walks")
        elif op["op"] == "copy":
            s = dup(s, op["how"])
        elif op["op"] == "walk_copy":
            t = dup(s, op["how"])
            t.walk()
            same(t, op["copy"], path + ", the copy")
            count("walks")
        elif op["op"] == "round":
            f = op["fmt"]
            try:
                if f == "json":
                    s = cls.from_json(s.to_json())
                elif f == "yaml":
                    s = cls.from_yaml(s.to_yaml())
                elif f == "bincode":
                    s = cls.from_bincode(s.to_bincode())
                else:
                    p = os.path.join(scratch, "s%s-%d.%s" % (first, threading.get_ident(), f.split(".")[1]))
                    s.to_file(p)
                    s = cls.from_file(p)
                    os.remove(p)
                if op.get("fails"):
                    raise Bad("%s succeeds, in Rust it fails" % path)
            except Bad:
                raise
            except Exception as e:
                if not op.get("fails"):
                    raise Bad("%s raised %s: %s" % (path, type(e).__name__, show(e)))
            count("round_trips_" + f)
        same(s, op["want"], path)
        if held is not None and prev is not None:
            for a, v in held:
                same(v, prev["a"][a], "%s: the earlier value of %s" % (path, a))
                count("held_values_compared")
        prev = op["want"]
        count("operations")
    for n, p in parts.items():
        same(p, sc["inputs"][n], "argument %s after the runs" % n)
    count("solver_" + sc["solver_type"].split('"')[1])
    if k < 2:
        samples.append({"class": sc["class"], "how": sc["how"], "solver_type": sc["solver_type"][:80], "operations": [o["op"] for o in sc["ops"]]})


def decode(d, k):
    data = bytes.fromhex(d["data"])
    cls = getattr(D, d["class"])
    try:
        if d["file"]:
            p = os.path.join(scratch, "d%s.%s" % (first, d["fmt"]))
            with open(p, "wb") as f:
                f.write(data)
            got = cls.from_file(p)
        elif d["fmt"] == "bincode":
            got = cls.from_bincode(data)
        else:
            got = getattr(cls, "from_" + d["fmt"])(data.decode("utf8", "surrogateescape"))
    except Exception as e:
        if d["want"] is not None:
            raise Bad("%s from %s %r raised %s (%s); in Rust it succeeds" % (d["class"], d["fmt"], data[:200], type(e).__name__, show(e)))
        count("decodings_refused")
        return
    if d["want"] is None:
        raise Bad("%s from %s %r gives %s; in Rust it fails" % (d["class"], d["fmt"], data[:200], got.to_yaml()[:100]))
    same(got, d["want"], "decoded %s" % d["class"])
    count("decodings_accepted")


def ordinary(what, f, must=True):
    """the call raises an ordinary exception"""
    try:
        r = f()
    except Exception as e:
        count("invalid_calls_refused")
        return
    except BaseException as e:
        raise Bad("%s raises %s, which is no ordinary exception: %s" % (what, type(e).__name__, show(e)))
    if must:
        raise Bad("%s is accepted and gives %s" % (what, show(r)))
    count("odd_calls_accepted")


def invalid_calls():
    m, c = D.ThermalMass(1.0, 2.0), D.Conductance(3.0)
    res = D.ThermalReservoir(4.0)
    cfg = D.AdaptiveSolverConfig(0.1, 1.0, 5, 1e-5, 1e-9)
    rk4 = '{"RK4Fixed": {"dt": 0.5}}'
    grid = [0.0, 1.0]
    good = {"tm": D.System3TM(rk4, m, m, c, m, c, grid), "bc": D.System3TMWithBC(rk4, res, m, c, m, c, grid)}
    junk = [None, "1.0", "", b"1", [], {}, (), object(), m, c, cfg, 1j, 10 ** 400, float, lambda: 1]

    def each(desc, fn, values, must=True):
        for v in values:
            ordinary("%s with %s" % (desc, show(v)), lambda: fn(v), must)

    for cls, n in ((D.ThermalMass, 2), (D.Conductance, 1), (D.ThermalReservoir, 1)):
        for pos in range(n):
            each("%s argument %d" % (cls.__name__, pos), lambda v: cls(*[v if k == pos else 1.0 for k in range(n)]), junk)
        ordinary("%s()" % cls.__name__, cls)
        ordinary("%s with too many arguments" % cls.__name__, lambda: cls(*[1.0] * (n + 1)))
        ordinary("%s with an unknown keyword" % cls.__name__, lambda: cls(nope=1.0))
    conf_args = [0.1, 1.0, 5, 1e-5, 1e-9, True, False]
    for pos in range(7):
        values = [j for j in junk if not (pos >= 5 and j is None)]
        each("AdaptiveSolverConfig argument %d" % pos, lambda v: D.AdaptiveSolverConfig(*[v if k == pos else a for k, a in enumerate(conf_args)]), values)
    each("AdaptiveSolverConfig max_iter", lambda v: D.AdaptiveSolverConfig(0.1, 1.0, v, 1e-5, 1e-9), [-1, 256, 1.5, 2 ** 64, -2 ** 70, "5", 5.0])
    ordinary("AdaptiveSolverConfig()", D.AdaptiveSolverConfig)
    bad_types = ["", "RK4", "RK4Fixed", '"RK4Fixed"', "{}", "[]", "null", "1", '{"RK4Fixed": {}}', '{"RK4Fixed": {"dt": "x"}}', '{"RK4Fixed": {"dt": null}}',
                 '{"RK4Fixed": 1}', '{"Nope": {"dt": 1.0}}', '{"RK4Fixed": {"dt": 1.0}', '{"RK4Fixed": {"dt": 1e999}}', "{" * 5000, '["' * 3000, "\0", "\ud800", "é" * 10,
                 '{"RK45CashKarp": {"dt": 1.0}}', '{"RK4Fixed": {"dt": 1.0}, "EulerFixed": {"dt": 1.0}}', '{"RK4Fixed": {"dt": 1.0}} x']
    for name, s in good.items():
        cls = type(s)
        m1 = m if name == "tm" else res
        base = [rk4, m1, m, c, m, c, grid]
        each("%s solver_type" % cls.__name__, lambda v: cls(v, *base[1:]), bad_types + [j for j in junk if not isinstance(j, str)])
        for pos in range(1, 7):
            ok = {1: type(m1), 2: D.ThermalMass, 3: D.Conductance, 4: D.ThermalMass, 5: D.Conductance}.get(pos)
            values = [j for j in junk if not (ok and isinstance(j, ok))] + ([res] if ok is D.ThermalMass else [])
            if pos == 6:
                # (an empty sequence is a list of times, too)
                values = [j for j in values if j not in ([], (), b"1", "", {})] + [["a"], [None], [[1.0]], [1.0, "2"], "12", 5, [10 ** 400], {"a": 1}, [m]]
            each("%s argument %d" % (cls.__name__, pos), lambda v: cls(*[v if k == pos else a for k, a in enumerate(base)]), values)
            for ctor in (cls.new_rk45_cash_karp, cls.new_rk23_bogacki_shampine):
                each("%s.%s argument %d" % (cls.__name__, ctor.__name__, pos), lambda v: ctor(*[v if k == pos else a for k, a in enumerate([cfg] + base[1:])]), values[:8])
        for ctor in (cls.new_rk45_cash_karp, cls.new_rk23_bogacki_shampine):
            each("%s.%s sol" % (cls.__name__, ctor.__name__), lambda v: ctor(v, *base[1:]), [rk4, None, 1.0, m, {}])
            ordinary("%s.%s()" % (cls.__name__, ctor.__name__), ctor)
        ordinary("%s()" % cls.__name__, cls)
        ordinary("%s with a missing argument" % cls.__name__, lambda: cls(*base[:-1]))
        ordinary("%s with too many arguments" % cls.__name__, lambda: cls(*base, 1))
        ordinary("walk with an argument", lambda: s.walk(1))
    missing = os.path.join(scratch, "no such directory", "x.json")
    blob = os.path.join(scratch, "blob%s.json" % first)
    with open(blob, "wb") as f:
        f.write(bytes(range(256)))
    plain = os.path.join(scratch, "plain%s.json" % first)
    with open(plain, "w") as f:
        f.write("{]")
    for obj in list(good.values()) + [m, c, res, cfg, m.state, m.history, c.state, c.history, good["tm"].state, good["tm"].history, cfg.state, cfg.history]:
        cls = type(obj)
        n = cls.__name__
        each(n + ".from_json", cls.from_json, ["", "{", "[1", "nul", "\ud800", "{" * 3000, '{"a":' * 3000, None, 1, b"{}", [], "\0"])
        each(n + ".from_yaml", cls.from_yaml, ["", "{", "- a\n b", "\ud800", None, 1, b"{}", [], "a: &x [*x]", "*nope", "\0", "!!int x"])
        each(n + ".from_bincode", cls.from_bincode, [b"", b"\0", b"\xff" * 7, "x", None, 1, [], bytearray(8)])
        each(n + ".from_file", cls.from_file, [missing, blob, plain, "", scratch, os.path.join(scratch, "x.txt"), os.path.join(scratch, "x"), "\0.json", "\ud800.json", None, 1, b"x.json", "a" * 5000 + ".json"])
        each(n + ".to_file", obj.to_file, [missing, scratch, "", os.path.join(scratch, "y.txt"), os.path.join(scratch, "y"), "\0.json", "\ud800.json", None, 1, b"y.json", "/dev/null/x.json", "a" * 5000 + ".yaml"])
        ordinary(n + ".nope", lambda: obj.nope)
        ordinary(n + ".to_json(1)", lambda: obj.to_json(1))
        each(n + ".__deepcopy__", obj.__deepcopy__, [1, "x", []])
        for a in [x for x in dir(cls) if not x.startswith("_")]:
            # there are no setters, so that nothing can be changed behind the back of the system
            def put(a=a):
                before = obj.to_yaml()
                try:
                    setattr(obj, a, 1.0)
                finally:
                    if obj.to_yaml() != before:
                        count("settable_attributes")
            ordinary("setting %s.%s" % (n, a), put, must=False)
    for y in ("y.txt", "y"):
        if os.path.exists(os.path.join(scratch, y)):
            raise Bad("to_file with an unsupported suffix created " + y)
    # what the Rust library itself refuses by a panic must leave the interpreter and the object in order
    for s in good.values():
        e = type(s)(rk4, m if type(s) is D.System3TM else res, m, c, m, c, [])
        before = e.to_yaml()
        try:
            e.walk()
        except BaseException as x:
            count("panics_as_exceptions")
        if e.to_yaml() != before:
            raise Bad("a walk without report times changed the system")
    # and everything still works
    for s in good.values():
        w = s.clone()
        w.walk()
        if w.history.len() != 2 - (w.history.time[0] != 0.0) and w.history.len() not in (1, 2):
            raise Bad("after the invalid calls a walk records %d rows" % w.history.len())


def threads(plan):
    """several Python threads walking their own systems"""
    picked = [(k, sc) for k, sc in enumerate(plan["scenarios"]) if k % step == first][:24]
    errs = []

    def work(part):
        try:
            for k, sc in part:
                scenario(sc, k)
                count("scenarios_on_threads")
        except BaseException as e:
            errs.append("on a thread: %s" % e)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    ts = [threading.Thread(target=work, args=(picked[n::4],)) for n in range(4)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    sys.setswitchinterval(old)
    if errs:
        raise Bad(errs[0])


def guarded(what, f, *args):
    try:
        f(*args)
    except Bad as e:
        problems.append({"what": "%s: %s" % (what, e)})
    except BaseException as e:
        problems.append({"what": "%s: raised %s: %s" % (what, type(e).__name__, show(e))})


def main():
    plan = json.load(open(plan_path))
    if first == 0:
        for cls, want in plan["defaults"].items():
            def check():
                c = getattr(D, cls, None)
                if c is None:
                    raise Bad("the module has no class %s" % cls)
                d = c.default()
                same(d, want, cls + ".default()")
                for how in ("copy", "deepcopy", "clone"):
                    same(dup(d, how), want, "%s of %s.default()" % (how, cls))
                count("classes")
            guarded("default", check)
        guarded("attributes", lambda: [same(getattr(D, c), None, c) for c in ()])
    guarded("invalid calls", invalid_calls)
    for k, sc in enumerate(plan["scenarios"]):
        if k % step == first and len(problems) < 5:
            guarded("scenario %d" % k, scenario, sc, k)
            count("scenarios")
    for k, d in enumerate(plan["decodes"]):
        if k % step == first and len(problems) < 5:
            guarded("decoding %d" % k, decode, d, k)
    if len(problems) < 5:
        guarded("threads", threads, plan)
    gc.collect()
    json.dump({"counts": counts, "problems": problems, "samples": samples}, open(result, "w"))


main()
