"""Runs inside an interpreter with an AddressSanitizer runtime preloaded: random operations on the objects of the
(instrumented) extension module; each list of operations is repeated, and the live heap must not grow with the repetitions.
usage: py_mem.py SO_DIR SEED LISTS RESULT SCRATCH"""
import copy, ctypes, gc, json, os, random, sys, threading
so_dir, seed, lists, result, scratch = sys.argv[1:6]
sys.path.insert(0, so_dir)
import dess_pyo3 as D

live = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
live.restype = ctypes.c_size_t
counts, problems = {}, []


def count(k, n=1):
    counts[k] = counts.get(k, 0) + n


SOLVERS = ['{"EulerFixed": {"dt": %r}}', '{"HeunsMethod": {"dt": %r}}', '{"MidpointMethod": {"dt": %r}}', '{"RalstonsMethod": {"dt": %r}}', '{"RK4Fixed": {"dt": %r}}']


def system(r):
    m = [D.ThermalMass(r.uniform(1, 3), r.uniform(-5, 5)) for _ in range(3)]
    c = [D.Conductance(r.uniform(0.1, 3)) for _ in range(2)]
    bc = r.random() < 0.4
    if bc:
        m[0] = D.ThermalReservoir(1.5)
    cls = D.System3TMWithBC if bc else D.System3TM
    t = [0.2 * (k + 1) for k in range(r.randrange(1, 7))]
    rest = (m[0], m[1], c[0], m[2], c[1], t)
    if r.random() < 0.4:
        conf = D.AdaptiveSolverConfig(0.1, 0.3, r.randrange(1, 9), 1e-4, 1e-6, r.random() < 0.7, r.random() < 0.5)
        return r.choice([cls.new_rk45_cash_karp, cls.new_rk23_bogacki_shampine])(conf, *rest)
    return cls(r.choice(SOLVERS) % r.uniform(0.05, 0.3), *rest)


def anything(r):
    k = r.randrange(8)
    if k < 4:
        return system(r)
    if k == 4:
        return D.ThermalMass(1.0, 2.0)
    s = system(r)
    s.walk()
    return r.choice([s.history, s.state, s.m2, s.h12.history, s.m2.state])


FIELDS = {}


def operation(r, pool):
    o = r.choice(pool)
    k = r.randrange(12)
    cls = type(o)
    if k == 0:
        pool.append(anything(r))
    elif k == 1 and hasattr(o, "walk"):
        o.walk()
    elif k == 2:
        pool.append(r.choice([copy.copy, copy.deepcopy, lambda x: x.clone()])(o))
    elif k == 3:
        pool.append(cls.from_json(o.to_json()))
    elif k == 4:
        pool.append(cls.from_yaml(o.to_yaml()))
    elif k == 5:
        pool.append(cls.from_bincode(o.to_bincode()))
    elif k == 6:
        p = os.path.join(scratch, "m%d.%s" % (threading.get_ident(), r.choice(["json", "yaml"])))
        o.to_file(p)
        pool.append(cls.from_file(p))
    elif k == 7:
        fs = FIELDS.setdefault(cls.__name__, [a for a in dir(cls) if not a.startswith("_")])
        v = getattr(o, r.choice(fs))
        if not callable(v):
            count("attributes_read")
    elif k == 8:
        for bad in (lambda: cls.from_json("{]"), lambda: cls.from_yaml("- {"), lambda: cls.from_bincode(b"\x01\xff"), lambda: cls.from_file("/nonexistent/x.json"),
                    lambda: o.to_file("/nonexistent/x.json"), lambda: cls("x", 1, 2, 3), lambda: o.nope, lambda: D.System3TM("{", 1), lambda: D.ThermalMass("x", 1.0),
                    lambda: D.AdaptiveSolverConfig(1, 1, 300, 1, 1)):
            try:
                bad()
            except BaseException:
                count("calls_refused")
    elif k == 9 and hasattr(o, "len"):
        o.len()
    elif k == 10:
        pool.append(cls.default())
    elif k == 11 and len(pool) > 1:
        pool.remove(o)
    while len(pool) > 6:
        pool.pop(0)
    count("operations")


def run(key, n):
    r = random.Random(key)
    pool = [anything(r)]
    for _ in range(n):
        try:
            operation(r, pool)
        except (ValueError, RuntimeError, OSError, TypeError, AttributeError):
            # (JSON does not write infinite numbers)
            count("operations_refused")


def empty_walk():
    """a panic within the library, which becomes an exception"""
    s = D.System3TM('{"EulerFixed": {"dt": 0.1}}', D.ThermalMass(1.0, 2.0), D.ThermalMass(1.0, 2.0), D.Conductance(1.0), D.ThermalMass(1.0, 2.0), D.Conductance(1.0), [])
    try:
        s.walk()
    except BaseException:
        count("panics")


def growth(what, f):
    for _ in range(15):
        f()
    gc.collect()
    marks = []
    for _ in range(4):
        for _ in range(15):
            f()
        gc.collect()
        marks.append(live())
    steps = [b - a for a, b in zip(marks, marks[1:])]
    count("growth_measurements", 3)
    if all(s >= 15 * 8 for s in steps):
        problems.append("%s: the live heap grows by %s bytes with every 15 repetitions" % (what, steps))


devnull = os.open(os.devnull, os.O_WRONLY)
for k in range(int(lists)):
    key = "%s/%d" % (seed, k)
    n = random.Random(key + "n").randrange(5, 30)
    growth("operations %s (%d of them)" % (key, n), lambda: run(key, n))
    count("lists")
keep = os.dup(2)
os.dup2(devnull, 2)
growth("walks which panic", empty_walk)
os.dup2(keep, 2)
ts = [threading.Thread(target=run, args=("%s/t%d" % (seed, k), 150)) for k in range(4)]
[t.start() for t in ts]
[t.join() for t in ts]
json.dump({"counts": counts, "problems": problems}, open(result, "w"))
