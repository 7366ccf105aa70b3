"""Channel selection and coordinate bounds."""
from spec import *
from script import Script


def V(n, nd, mode="in", **kw):
    """array accessed through a strided view"""
    return M(n, nd, mode, contig=False, **kw)


MOD = "grid_data/sdp_gridder_clamp_channels.cpp"
C_0 = 299792458
SAFE = 2147483645


def rowrange(c):
    neg_ = or_(lt(c["start_row"], I(0)), lt(c["end_row"], I(0)))
    return ite(neg_, I(0), c["start_row"]), ite(neg_, c.sh("uvws", 0), c["end_row"])


def f_abs(x):
    return contracts.f_fabs(x)


def imax(a, b):
    return ite(le(a, b), b, a)


def imin(a, b):
    return ite(le(a, b), a, b)


def phases(x, f0, df, lo, hi):
    u0, du = mul(x, scale(f0, Fraction(1, C_0))), mul(x, scale(df, Fraction(1, C_0)))
    resolved = lt(scale(rmax(f_abs(sub(lo, u0)), f_abs(sub(hi, u0))), Fraction(1, SAFE)), f_abs(du))
    up, inside = lt(R(0), du), and_(le(lo, u0), lt(u0, hi))
    return [and_(resolved, up), and_(resolved, not_(up)), and_(not_(resolved), inside), and_(not_(resolved), not_(inside))]


def cases(c, k):
    """rows outside the range; inside it, how the channels advance in each coordinate"""
    lo, hi = rowrange(c)
    here = and_(le(lo, k), lt(k, hi))
    us = phases(c.v("uvws", k, I(0)), c["freq0_hz"], c["dfreq_hz"], c["min_u"], c["max_u"])
    vs = phases(c.v("uvws", k, I(1)), c["freq0_hz"], c["dfreq_hz"], c["min_v"], c["max_v"])
    return [not_(here)] + [and_(here, u, v) for u in us for v in vs]


def narrowed(x, f0, df, lo, hi, s, e, none):
    """range of channels of [s, e) at which the coordinate x is in [lo, hi)"""
    u0, du = mul(x, scale(f0, Fraction(1, C_0))), mul(x, scale(df, Fraction(1, C_0)))
    resolved = lt(scale(rmax(f_abs(sub(lo, u0)), f_abs(sub(hi, u0))), Fraction(1, SAFE)), f_abs(du))
    first = lambda b: t.toint("ceil", mul(sub(b, u0), inv(du)))       # first channel at or past b, going up
    a, b = first(lo), first(hi)
    up = lt(R(0), du)
    inside = and_(le(lo, u0), lt(u0, hi))
    s1 = ite(resolved, imax(s, ite(up, a, b)), ite(inside, s, none))
    e1 = ite(resolved, imin(e, ite(up, b, a)), ite(inside, e, none))
    return s1, imax(e1, s1)


def single(c, k):
    x = c.v("uvws", k, c["dim"])
    return narrowed(x, c["freq0_hz"], c["dfreq_hz"], c["min_u"], c["max_u"], c.v("start_ch_in", k), c.v("end_ch_in", k), I(0))


def both(c, k):
    r = c.v("start_ch_in", k), c.v("end_ch_in", k)
    s, e = narrowed(c.v("uvws", k, I(0)), c["freq0_hz"], c["dfreq_hz"], c["min_u"], c["max_u"], r[0], r[1], I(0))
    s2, e2 = narrowed(c.v("uvws", k, I(1)), c["freq0_hz"], c["dfreq_hz"], c["min_v"], c["max_v"], s, e, I(0))
    return ite(le(e, s), s, s2), ite(le(e, s), e, e2)


def out(fn, name, q):
    def f(c, lab, k):
        lo, hi = rowrange(c)
        return ite(and_(le(lo, k), lt(k, hi)), fn(c, k)[q], c.v(name, k))
    return f


def sizes(dim):
    def f(c):
        hi = rowrange(c)[1]
        d = c["dim"] if dim else I(1)
        return [le(I(0), d), lt(d, c.sh("uvws", 1)), le(hi, c.sh("uvws", 0))] + [
            le(hi, c.sh(n, 0)) for n in ("start_ch_in", "end_ch_in", "start_ch_out", "end_ch_out")]
    return f


def arrays():
    return [V("start_ch_in", 1, sort="i"), V("end_ch_in", 1, sort="i")]


def outs():
    return [V("start_ch_out", 1, "inout", sort="i"), V("end_ch_out", 1, "inout", sort="i"), Int("start_row"), Int("end_row"), Status()]


CASES = [(l, {"uvws": p, "start_ch_in": INT, "end_ch_in": INT, "start_ch_out": INT, "end_ch_out": INT})
         for l, p in (("double", 8), ("float", 4))]

SPECS = [
    Spec("sdp_gridder_clamp_channels_single", MOD,
         [V("uvws", 2), Int("dim"), Real("freq0_hz"), Real("dfreq_hz")] + arrays() + [Real("min_u"), Real("max_u")] + outs(),
         cases=CASES, valid=sizes(1),
         outs={"start_ch_out": out(single, "start_ch_out", 0), "end_ch_out": out(single, "end_ch_out", 1)}),
    Spec("sdp_gridder_clamp_channels_uv", MOD,
         [V("uvws", 2), Real("freq0_hz"), Real("dfreq_hz")] + arrays() +
         [Real("min_u"), Real("max_u"), Real("min_v"), Real("max_v")] + outs(),
         cases=CASES, valid=sizes(0),
         outs={"start_ch_out": out(both, "start_ch_out", 0), "end_ch_out": out(both, "end_ch_out", 1)}),
]
uni = lambda a, b: lambda rng, nr, n, v: nr.uniform(a, b, n)
num = lambda a, b: lambda rng: rng.uniform(a, b)
ints = lambda a, b: lambda rng, nr, n, v: nr.randint(a, b, n)
# half of the draws are small dyadic numbers, so that channels fall exactly on the bounds
dyadic = lambda f, *xs: lambda rng: C_0 * rng.choice(xs) if rng.random() < 0.6 else f(rng)
bound = lambda a, b: lambda rng: float(rng.randint(int(a), int(b))) if rng.random() < 0.6 else rng.uniform(a, b)
coords = lambda rng, nr, n, v: (nr.choice([-8, -4, -2, -1, 0, 1, 2, 4, 8], n).astype(float) if rng.random() < 0.6 else
                                nr.uniform(-20, 20, n) * (nr.rand(n) > 0.1))
HINTS = {"uvws": coords, "freq0_hz": dyadic(num(0.5e8, 2e8), 0.25, 0.5, 1.0),
         "dfreq_hz": dyadic(lambda rng: rng.choice([0.0, rng.uniform(1e5, 1e7), rng.uniform(-1e7, -1e5)]), 0.125, 0.25, -0.125, -0.25),
         "min_u": bound(-8, 2), "max_u": bound(-2, 8), "min_v": bound(-8, 2), "max_v": bound(-2, 8),
         "start_ch_in": ints(0, 6), "end_ch_in": ints(0, 60)}
SPECS[0].split = {n: (lambda c, k: [not_(and_(le(rowrange(c)[0], k), lt(k, rowrange(c)[1])))] + [
    and_(le(rowrange(c)[0], k), lt(k, rowrange(c)[1]), p) for p in phases(
        c.v("uvws", k, c["dim"]), c["freq0_hz"], c["dfreq_hz"], c["min_u"], c["max_u"])]) for n in ("start_ch_out", "end_ch_out")}
SPECS[1].split = {"start_ch_out": cases, "end_ch_out": cases}
for s_ in SPECS:
    s_.hints = HINTS
    s_.cost = 10


def lemma(s):
    """what the first channel at or past a bound selects"""
    u0, du, b, ch = s.real("u0"), s.real("du"), s.real("bound"), s.int("channel")
    x = add(u0, mul(toreal(ch), du))
    first = t.toint("ceil", mul(sub(b, u0), inv(du)))
    past = le(first, ch)
    for name, f in (("increasing", [lt(R(0), du), past, lt(x, b)]), ("increasing", [lt(R(0), du), not_(past), le(b, x)]),
                    ("decreasing", [lt(du, R(0)), past, lt(b, x)]), ("decreasing", [lt(du, R(0)), not_(past), le(x, b)])):
        s.prove("result", "a channel is at or past the first one exactly if its coordinate is, %s" % name, not_(and_(*f)))


SPECS.append(Script("sdp_gridder_clamp_channels_single", MOD, lemma, label="selection lemma"))
