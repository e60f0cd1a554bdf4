"""Registry of harnesses.  A property module calls @harness(...) on functions f(ctx, **params)."""
REGISTRY = []


class Harness:
    def __init__(self, fn, quick, thorough, path_seconds, max_paths, math, narrow, known, slow_ok):
        self.fn, self.name = fn, fn.__name__
        self.quick, self.thorough = quick, thorough
        self.path_seconds, self.max_paths, self.math = path_seconds, max_paths, math
        self.narrow, self.known = narrow, known
        self.doc = " ".join((fn.__doc__ or "").split())

    def instances(self, tier):
        if tier == "quick" or self.thorough is None:
            return list(self.quick)
        out = list(self.quick)
        for p in self.thorough:
            if p not in out:
                out.append(p)
        return out


def harness(quick=({},), thorough=None, path_seconds=20, max_paths=300000, math=False, narrow=2, known=False, slow_ok=False):
    """quick/thorough: lists of parameter dicts (bounds); math: sin/cos/sqrt are uninterpreted functions;
    narrow: width of the integer ranges used if the code has to be executed on concrete values (None: no fallback)"""
    def deco(fn):
        h = Harness(fn, quick, thorough, path_seconds, max_paths, math, narrow, known, slow_ok)
        REGISTRY.append(h)
        return h
    return deco
