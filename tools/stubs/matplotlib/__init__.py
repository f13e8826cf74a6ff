"""Stand-in for the plotting library, which is not installed: checks what it is asked to draw."""
import atexit, os
COUNTS = {"lines": 0, "points": 0, "not_finite": 0}


@atexit.register
def _write():
    p = os.environ.get("STUB_COUNTS")
    if p:
        with open(p, "w") as f:
            f.write(" ".join("%s=%d" % kv for kv in COUNTS.items()))
