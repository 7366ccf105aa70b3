"""Uniform and Briggs imaging weights."""
from spec import *

MOD = "visibility/sdp_weighting.cpp"
C0 = 299792458
CASES = [("double", {"uvw": 8, "freq_hz": 8, "grid": 8, "input": 8, "output": 8}),
         ("mixed", {"uvw": 8, "freq_hz": 8, "grid": 4, "input": 4, "output": 4})]


def valid(c):
    return [eq(c.sh("uvw", 2), I(3)), eq(c.sh("uvw", 0), c.sh("input", 0)), eq(c.sh("uvw", 1), c.sh("input", 1)),
            eq(c.sh("freq_hz", 0), c.sh("input", 2)), eq(c.sh("grid", 1), c.sh("grid", 0)),
            eq(c.sh("grid", 2), c.sh("input", 3))] + [eq(c.sh("output", k), c.sh("input", k)) for k in range(4)]


def cell(c, q, t_, b, ch):
    """grid cell of coordinate q (0: u, 1: v) of one visibility"""
    half = sdiv(c.sh("grid", 0), I(2))
    x = mul(c.v("uvw", t_, b, q), scale(c.v("freq_hz", ch), Fraction(1, C0)), t.inv(c["max_abs_uv"]), t.toreal(half))
    return add(t.toint("floor", x), half)


def inside(c, t_, b, ch):
    n = c.sh("grid", 0)
    u, v = cell(c, 0, t_, b, ch), cell(c, 1, t_, b, ch)
    return and_(le(I(0), u), lt(u, n), le(I(0), v), lt(v, n))


def grid_at(c, lab, u, v, p):
    """the weights of all visibilities falling in a cell are added to it"""
    inner = lambda t_, b, ch: ite(and_(eq(cell(c, 0, t_, b, ch), u), eq(cell(c, 1, t_, b, ch), v), inside(c, t_, b, ch)),
                                  c.v("input", t_, b, ch, p), R(0))
    return add(c.v("grid", u, v, p),
               rsum(I(0), c.sh("input", 0), lambda t_: rsum(I(0), c.sh("input", 1), lambda b: rsum(
                   I(0), c.sh("input", 2), lambda ch: inner(t_, b, ch)))))


def uniform(c, lab, t_, b, ch, p):
    g = grid_at(c, lab, cell(c, 0, t_, b, ch), cell(c, 1, t_, b, ch), p)
    return ite(inside(c, t_, b, ch), t.inv(g), c.v("output", t_, b, ch, p))


def ssum(c, lab, f):
    return rsum(I(0), c.sh("input", 0), lambda t_: rsum(I(0), c.sh("input", 1), lambda b: rsum(
        I(0), c.sh("input", 2), lambda ch: rsum(I(0), c.sh("input", 3), lambda p: ite(
            inside(c, t_, b, ch), f(grid_at(c, lab, cell(c, 0, t_, b, ch), cell(c, 1, t_, b, ch), p)), R(0))))))


def briggs(c, lab, t_, b, ch, p):
    g = grid_at(c, lab, cell(c, 0, t_, b, ch), cell(c, 1, t_, b, ch), p)
    s1, s2 = ssum(c, lab, lambda x: x), ssum(c, lab, lambda x: mul(x, x))
    num = mul(scale(t.inv(contracts.f_pow(R(10), c["robust_param"])), 5), scale(t.inv(contracts.f_pow(R(10), c["robust_param"])), 5))
    rob = mul(num, t.inv(mul(s2, t.inv(s1))))
    return ite(inside(c, t_, b, ch), mul(c.v("input", t_, b, ch, p), t.inv(add(R(1), mul(rob, g)))),
               c.v("output", t_, b, ch, p))


def args(*extra):
    return [M("uvw", 3), M("freq_hz", 1), Real("max_abs_uv"), *extra, M("grid", 3, "inout"), M("input", 4),
            M("output", 4, "out"), Status()]


HINTS = {"uvw": lambda rng, nr, n, v: nr.uniform(-1.3, 1.3, n) * 100, "freq_hz": lambda rng, nr, n, v: nr.uniform(0.5, 1.4, n) * 1e8,
         "max_abs_uv": lambda rng: rng.choice([30.0, 40.0, 20.0]), "grid": lambda rng, nr, n, v: nr.randint(0, 3, n) * 1.0,
         "input": lambda rng, nr, n, v: nr.uniform(0.5, 2, n), "robust_param": lambda rng: rng.uniform(-2, 2)}
SPECS = [
    Spec("sdp_weighting_uniform", MOD, args(), cases=CASES, valid=valid, outs={"grid": grid_at, "output": uniform}),
    Spec("sdp_weighting_briggs", MOD, args(Real("robust_param")), cases=CASES, valid=valid,
         outs={"grid": grid_at, "output": briggs}),
]
for s_ in SPECS:
    s_.hints = HINTS
for s_ in SPECS:
    s_.cost = 28
