def __getattr__(n):
    if n.startswith("__"):
        raise AttributeError(n)
    return lambda *a, **k: None
