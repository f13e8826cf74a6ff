import math
from . import COUNTS


class _Any:
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n in ("plot", "semilogy", "semilogx", "loglog", "scatter", "step"):
            return _draw
        return _Any()

    def __call__(self, *a, **k):
        return _Any()

    def __getitem__(self, i):
        return _Any()

    def __iter__(self):
        return iter([_Any() for _ in range(3)])


def _draw(x, y=None, *a, **k):
    series = [list(v) if hasattr(v, "__len__") and not isinstance(v, str) else [v] for v in ((x, y) if y is not None and not isinstance(y, str) else (x,))]
    if len(series) == 2 and len(series[0]) != len(series[1]):
        raise ValueError("x and y must have same first dimension, but have shapes (%d,) and (%d,)" % (len(series[0]), len(series[1])))
    for s in series:
        for v in s:
            COUNTS["points"] += 1
            if isinstance(v, (int, float)) and not math.isfinite(v):
                COUNTS["not_finite"] += 1
    COUNTS["lines"] += 1
    return [_Any()]


rcParams = {"axes.prop_cycle": _Any()}


def subplots(*a, **k):
    return _Any(), _Any()


def __getattr__(n):
    if n.startswith("__"):
        raise AttributeError(n)
    return getattr(_Any(), n)
