"""Runs inside the interpreter: loads a module of generated classes from the given folder and compares what
Python sees with what the programs declare."""
import copy, importlib, json, sys
d = sys.argv[1]
sys.path.insert(0, d)
plan = json.load(open(d + "/plan.json"))
counts, problems = {}, []


def count(k, n=1):
    counts[k] = counts.get(k, 0) + n


def norm(v):
    if isinstance(v, tuple):
        return [norm(x) for x in v]
    if isinstance(v, (list, bytes)):
        return [norm(x) for x in v]
    return v


def check(mod, cls_name, want):
    cls = getattr(mod, cls_name)
    seen = sorted(n for n in dir(cls) if not n.startswith("_") or n in want["names"])
    if seen != want["names"]:
        raise AssertionError("%s has the attributes %s, it declares %s" % (cls_name, sorted(set(seen) - set(want["names"])), sorted(set(want["names"]) - set(seen))))
    count("generated_classes")
    o = cls.default()
    copies = [o, copy.copy(o), copy.deepcopy(o), o.clone(), cls.from_json(o.to_json()), cls.from_yaml(o.to_yaml())]
    for x in copies:
        if x.to_json() != o.to_json():
            raise AssertionError("a copy of %s differs" % cls_name)
        for n, v in want["values"].items():
            got = norm(getattr(x, n))
            if got != v or type(got) is not type(v):
                raise AssertionError("%s.%s is %r, declared as %r" % (cls_name, n, got, v))
            count("generated_attributes_read")
    data = json.loads(o.to_json())
    for n in want["plain"]:
        got = norm(getattr(o, n))
        if got != data[n]:
            raise AssertionError("%s.%s is %r but serialized as %r" % (cls_name, n, got, data[n]))
        count("generated_attributes_read")
    for n in want["names"]:
        m = getattr(o, n)
        if n in want["fns"]:
            got = m(1.0) if want["fns"][n] == "static" else m()
            if want["fns"][n] == "class":
                if type(got) is not cls or got.to_json() != o.to_json():
                    raise AssertionError("%s.%s() gives %r" % (cls_name, n, got))
            elif got != (18.0 if want["fns"][n] == "static" else 17):
                raise AssertionError("%s.%s() gives %r" % (cls_name, n, got))
            count("generated_functions_called")
        if callable(m) and n == "len":
            if m() != 0:
                raise AssertionError("%s.len() of an empty history is %r" % (cls_name, m()))
    if want["walk"]:
        before = o.to_json()
        k = o.clone()
        k.walk()
        if o.to_json() != before or k.to_json() == before:
            raise AssertionError("%s: walking a copy" % cls_name)
        if "state" in want["names"] and k.state.time != 2.0:
            raise AssertionError("%s: after the walk the time is %r" % (cls_name, k.state.time))
        if "history" in want["names"] and k.history.time != [0.5, 1.0, 2.0]:
            raise AssertionError("%s: after the walk the history holds %r" % (cls_name, k.history.time))
        count("generated_walks")


top = importlib.import_module(plan["module"])
for prog, classes in plan["programs"].items():
    mod = getattr(top, prog)
    for c, want in classes.items():
        try:
            check(mod, c, want)
        except BaseException as e:
            problems.append({"program": prog, "what": "%s: %s" % (type(e).__name__, e)})
print(json.dumps({"counts": counts, "problems": problems}))
