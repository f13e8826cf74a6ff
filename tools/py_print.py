"""Runs inside the interpreter: calls the compiled print functions and compares what arrives at sys.stdout."""
import contextlib, io, json, sys
d = sys.argv[1]
sys.path.insert(0, d)
import printing
bad = []
want = json.load(open(d + "/want.json"))
for k, text in enumerate(want):
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            getattr(printing, "print%d" % k)()
        got = out.getvalue()
    except BaseException as e:
        got = "%s: %s" % (type(e).__name__, e)
    if got != text:
        bad.append("print number %d gives %r instead of %r" % (k, got, text))
print(json.dumps({"n": len(want), "bad": bad}))
