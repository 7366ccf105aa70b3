"""Numeric evaluation of specification terms on concrete inputs."""
import math
from fractions import Fraction
import terms as t

JITTER = 1.0                # relative change of angles and roots: how far a result depends on rounding


class Cannot(Exception):
    pass


class Env:
    """vars: name -> number / bool; sels: tag -> function(*idx); ufs: name -> function"""

    def __init__(self, vars_, sels, ufs=None):
        self.vars, self.sels = vars_, sels
        self.ufs = dict(UFS)
        if ufs:
            self.ufs.update(ufs)


def _pow(a, b):
    return math.pow(a, b)


def _f32(x):
    import numpy as np
    return float(np.float32(x))


def _rint(x):
    return int(round(x))


UFS = {
    "sin": lambda x: math.sin(x * JITTER), "cos": lambda x: math.cos(x * JITTER), "tan": lambda x: math.tan(x * JITTER), "sqrt": lambda x: math.sqrt(x * JITTER) if x >= 0 else float("nan"),
    "fabs": abs, "exp": math.exp, "log": math.log, "inv": lambda x: 1.0 / x if x else float("inf"),
    "toreal": float, "floor": lambda x: math.floor(x), "ceil": lambda x: math.ceil(x), "trunc": lambda x: math.trunc(x),
    "round": lambda x: math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1), "rint": _rint, "pow": _pow,
    "hypot": math.hypot, "rnd32": _f32, "asin": math.asin, "acos": math.acos, "atan": math.atan,
    "atan2": math.atan2, "log10": math.log10, "log2": math.log2, "cosh": math.cosh, "sinh": math.sinh,
    "tgamma": math.gamma, "exp2": lambda x: 2.0 ** x,
    "cpow_re": lambda a, b, n: (complex(a, b) ** n).real if (a or b or n > 0) else float("nan"),
    "cpow_im": lambda a, b, n: (complex(a, b) ** n).imag if (a or b or n > 0) else float("nan"),
    "fdiv": lambda a, b: a // b if b else 0,
    "sdiv": lambda a, b: (abs(a) // abs(b)) * (1 if (a >= 0) == (b >= 0) else -1),
}


import re
_G = re.compile(r"g\d+$")


def ev(x, env, loc=None):
    """value of x; env.vars may change between calls only in the index variables g0, g1, ..."""
    c = env.__dict__.setdefault("compiled", {}).setdefault(JITTER, {})
    L = env.__dict__.setdefault("loc", {})
    return comp(x, env, c, L)()


def comp(x, env, C, L):
    f = C.get(x)
    if f is None:
        f = C[x] = memoise(x, comp1(x, env, C, L), env, L)
    return f


def memoise(x, f, env, L):
    if x.k in ("var", "bvar", "true", "false"):
        return f
    vs = []
    for v in t.fv(x):
        n = v.a[0]
        if n not in env.vars or _G.match(n):
            vs.append(v)
    store = {}
    ev_ = env.vars

    def g():
        try:
            key = tuple([L[v] if v in L else ev_[v.a[0]] for v in vs])
        except KeyError as e:
            raise Cannot("free variable %s" % e)
        r = store.get(key)
        if r is None:
            r = store[key] = f()
        return r
    return g


def comp1(x, env, C, L):
    k = x.k
    go = lambda y: comp(y, env, C, L)
    if k == "poly":
        real = x.s == "r"
        ts = [(float(c) if real else int(c), [(go(a), e) for a, e in mono]) for mono, c in x.a]

        def f():
            tot = 0.0 if real else 0
            for c, fs in ts:
                v = c
                for a, e in fs:
                    av = a()
                    v *= av if e == 1 else av ** e
                tot += v
            return tot
        return f
    if k in ("var", "bvar"):
        n = x.a[0]

        def f():
            if x in L:
                return L[x]
            if n in env.vars:
                return env.vars[n]
            raise Cannot("free variable " + n)
        return f
    if k in ("uf", "sel", "ub"):
        h = (env.sels if k == "sel" else env.ufs).get(x.a[0])
        if h is None:
            n = x.a[0]

            def f():
                raise Cannot("uninterpreted %s" % n)
            return f
        as_ = [go(y) for y in x.a[1:]]
        return lambda: h(*[a() for a in as_])
    if k == "ite":
        c, a, b = (go(y) for y in x.a)
        return lambda: a() if c() else b()
    if k in ("sum", "prod"):
        v = x.a[0]
        lo, hi, body = (go(y) for y in x.a[1:])
        start = (0.0 if x.s == "r" else 0) if k == "sum" else (1.0 if x.s == "r" else 1)

        def f():
            l, h = int(lo()), int(hi())
            if h - l > 200000:
                raise Cannot("large sum")
            r = start
            save = L.get(v)
            for i in range(l, h):
                L[v] = i
                b = body()
                r = r + b if k == "sum" else r * b
            if save is None:
                L.pop(v, None)
            else:
                L[v] = save
            return r
        return f
    if k in ("le", "rle"):
        a = go(x.a[0])
        return lambda: a() <= 0
    if k == "rlt":
        a = go(x.a[0])
        return lambda: a() < 0
    if k == "eq":
        a = go(x.a[0])
        return lambda: a() == 0
    if k == "not":
        a = go(x.a[0])
        return lambda: not a()
    if k in ("and", "or"):
        as_ = [go(y) for y in x.a]
        return (lambda: all(a() for a in as_)) if k == "and" else (lambda: any(a() for a in as_))
    if k in ("true", "false"):
        return lambda: k == "true"

    def f():
        raise Cannot(k)
    return f
