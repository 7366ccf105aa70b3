"""Gridder utility functions."""
from spec import *

MOD = "grid_data/sdp_gridder_utils.cpp"
C0 = 299792458
PI = Fraction(3.141592653589793)


def same2(c, a, b):
    return [eq(c.sh(a, 0), c.sh(b, 0)), eq(c.sh(a, 1), c.sh(b, 1))]


def V(n, nd, mode="in", **kw):
    """array accessed through a strided view"""
    return M(n, nd, mode, contig=False, **kw)


# ---- sub-grid access -----------------------------------------------------------------
def wrap(i, n, s, off):
    return emod(add(i, sdiv(n, I(2)), neg(sdiv(s, I(2))), off), n)


def source(c, i, j):
    n0, n1, s0, s1 = c.sh("grid", 0), c.sh("grid", 1), c.sh("subgrid", 0), c.sh("subgrid", 1)
    return wrap(i, n0, s0, c["offset_u"]), wrap(j, n1, s1, c["offset_v"])


def dest(c, i, j):
    n0, n1, s0, s1 = c.sh("grid", 0), c.sh("grid", 1), c.sh("subgrid", 0), c.sh("subgrid", 1)
    return wrap(i, n0, s0, neg(c["offset_u"])), wrap(j, n1, s1, neg(c["offset_v"]))


GRIDC = [("cdouble", {"grid": CDOUBLE, "subgrid": CDOUBLE}), ("cfloat", {"grid": CFLOAT, "subgrid": CFLOAT}),
         ("double", {"grid": 8, "subgrid": 8}), ("float", {"grid": 4, "subgrid": 4})]


def cut(c, lab, i, j):
    u, v = source(c, i, j)
    return c.cv("grid", u, v) if lab[0] == "c" else c.v("grid", u, v)


def addin(c, lab, a, b):
    def f(k):
        def g(i, j):
            u, v = dest(c, i, j)
            x = mul(c.v("subgrid", i, j, *k), c["factor"])
            return ite(and_(eq(u, a), eq(v, b)), x, R(0))
        return add(c.v("grid", a, b, *k), rsum(I(0), c.sh("subgrid", 0), lambda i: rsum(
            I(0), c.sh("subgrid", 1), lambda j: g(i, j))))
    return (f((0,)), f((1,))) if lab[0] == "c" else f(())


nonempty = lambda c: [ne(c.sh("grid", 0), I(0)), ne(c.sh("grid", 1), I(0))]


# ---- element-wise functions ----------------------------------------------------------
def full(c, lab, name, i, j):
    """element of a real or complex array as a pair"""
    return c.cv(name, i, j) if c.mems[name].cplx else (c.v(name, i, j), R(0))


def cpow(z, e):
    """z to an integer power"""
    return contracts.cpow(z[0], z[1], e)


def scaled(c, z, w, isnull):
    e = c["exponent"]
    one, no = eq(e, I(1)), or_(eq(e, I(0)), isnull)
    a, b = cmul(z, w), cmul(z, cpow(w, e))
    return tuple(ite(no, z[k], ite(one, a[k], b[k])) for k in (0, 1))


ACC = [("cd,%s" % n, {"out": o, "in1": i, "in2": CDOUBLE}) for o in (CDOUBLE, CFLOAT) for n, i in
       (("cd", CDOUBLE), ("cf", CFLOAT), ("d", 8), ("f", 4))]
for k, (l, c) in enumerate(ACC):
    ACC[k] = (("cf" if c["out"] == CFLOAT else "cd") + l[2:], c)
ACC += [("real %d %d" % (o, i), {"out": o, "in1": i}) for o in (8, 4) for i in (CDOUBLE, CFLOAT)]


def accumulated(c, lab, i, j):
    z = full(c, lab, "in1", i, j)
    if lab.startswith("real"):
        return add(c.v("out", i, j), z[0])
    return cadd(c.cv("out", i, j), scaled(c, z, c.cv("in2", i, j), c.nullm("in2")))


def inverse(c, lab, i, j):
    z, w = full(c, lab, "in1", i, j), c.cv("in2", i, j)
    one = eq(c["exponent"], I(1))
    p = cpow(w, c["exponent"])
    w = tuple(ite(one, w[k], p[k]) for k in (0, 1))
    d = inv(add(mul(w[0], w[0]), mul(w[1], w[1])))
    q = cmul(z, conj(w))
    return (mul(q[0], d), mul(q[1], d))


INV = [(n, {"out": o, "in1": i, "in2": CDOUBLE}) for n, o, i in
       (("cd d", CDOUBLE, 8), ("cf f", CFLOAT, 4), ("cd cd", CDOUBLE, CDOUBLE), ("cf cf", CFLOAT, CFLOAT))]
AB = [("cd cd", CDOUBLE, CDOUBLE), ("cf cf", CFLOAT, CFLOAT), ("cd cf", CDOUBLE, CFLOAT), ("d d", 8, 8),
      ("f f", 4, 4), ("d f", 8, 4)]


def diff(c, lab, i, j):
    a, b = full(c, lab, "a", i, j), full(c, lab, "b", i, j)
    return csub(a, b) if c.mems["a"].cplx else sub(a[0], b[0])


def rms(c, lab):
    def sq(i, j):
        a, b = full(c, lab, "a", i, j), full(c, lab, "b", i, j)
        d = csub(a, b)
        return add(mul(d[0], d[0]), mul(d[1], d[1]))
    n0, n1 = c.sh("a", 0), c.sh("a", 1)
    return f_sqrt(mul(rsum(I(0), n0, lambda i: rsum(I(0), n1, lambda j: sq(i, j))), inv(t.toreal(mul(n0, n1)))))


def nonzero(c, lab):
    def one(i, j):
        z = full(c, lab, "image", i, j)
        return ite(and_(eq(z[0], R(0)), eq(z[1], R(0))), I(0), I(1))
    return rsum(I(0), c.sh("image", 0), lambda i: rsum(I(0), c.sh("image", 1), lambda j: one(i, j)))


def shifted(c, lab, k, j, i):
    w = lt(add(k, I(1)), c.sh("subgrids", 0))
    return tuple(ite(w, c.v("subgrids", add(k, I(1)), j, i, q), c.v("subgrids", k, j, i, q)) for q in (0, 1))


def rows(c):
    w = or_(lt(c["start_row"], I(0)), lt(c["end_row"], I(0)))
    return ite(w, I(0), c["start_row"]), ite(w, c.sh("a", 0), c["end_row"])


# ---- coordinates -----------------------------------------------------------------------
def lm_to_n(l, m, hu, hv):
    easy = sub(f_sqrt(sub(R(1), add(mul(l, l), mul(m, m)))), R(1))
    h1 = sub(add(mul(hu, l), mul(hv, m)), R(1))
    h2 = add(mul(hu, hu), mul(hv, hv), R(1))
    sheared = mul(add(f_sqrt(sub(mul(h1, h1), mul(h2, add(mul(l, l), mul(m, m))))), h1), inv(h2))
    return ite(and_(eq(hu, R(0)), eq(hv, R(0))), easy, sheared)


def pixel(c, i, n):
    return mul(t.toreal(sub(i, sdiv(n, I(2)))), c["theta"], inv(t.toreal(n)))


def pattern(c, lab, i, j):
    n = c["subgrid_size"]
    l, m = pixel(c, i, n), pixel(c, j, n)
    return cis(mul(R(2 * PI), c["w_step"], lm_to_n(l, m, c["shear_u"], c["shear_v"])))


def w_step(c, lab):
    h = mul(c["fov"], R(Fraction(1, 2)))
    ns = [lm_to_n(a, b, c["shear_u"], c["shear_v"]) for b in (neg(h), h) for a in (neg(h), h)]
    m = rmin(rmin(ns[0], ns[1]), rmin(ns[2], ns[3]))
    x0 = ite(eq(c["x0"], R(0)), mul(c["fov"], inv(c["theta"])), c["x0"])
    return inv(mul(scale(m, -2), inv(x0)))


def lmn_pixels(c, lab, k, q):
    n0, n1 = c.sh("image", 0), c.sh("image", 1)
    return None


def kernel(c, lab, i, s):
    n = c.sh("window", 0)
    over = sub(c.sh("kernel", 0), I(1))
    half = sdiv(n, I(2))
    u = sub(t.toreal(sub(s, half)), mul(t.toreal(sub(i, over)), inv(t.toreal(over))))
    x = rsum(I(0), n, lambda k: mul(c.v("window", k), f_cos(mul(
        R(2 * PI), u, t.toreal(sub(k, half)), inv(t.toreal(n))))))
    return mul(x, inv(t.toreal(n)))


# ---- direct transforms -------------------------------------------------------------------
def chans(c):
    return and_(not_(c.nullm("start_chs")), not_(c.nullm("end_chs")))


def active(c, i):
    return or_(not_(chans(c)), lt(c.v("start_chs", i), c.v("end_chs", i)))


def shift(c):
    on = lt(R(0), c["theta"])
    du = ite(on, mul(t.toreal(c["offset_u"]), inv(c["theta"])), R(0))
    dv = ite(on, mul(t.toreal(c["offset_v"]), inv(c["theta"])), R(0))
    dw = ite(on, mul(t.toreal(c["offset_w"]), c["w_step"]), R(0))
    return du, dv, dw


def uvw_at(c, i, ch):
    il = scale(add(c["freq0_hz"], mul(c["dfreq_hz"], t.toreal(ch))), Fraction(1, C0))
    return [sub(mul(c.v("uvw", i, k), il), d) for k, d in enumerate(shift(c))]


def predicted(c, lab, i, ch):
    u = uvw_at(c, i, ch)
    s = csum(I(0), c.sh("flux", 0), lambda s: cscale2(
        cis(scale(add(*[mul(c.v("lmn", s, k), u[k]) for k in range(3)]), -2 * PI)), c.v("flux", s)))
    z = c.cv("vis", i, ch)
    a = active(c, i)
    return tuple(add(z[k], ite(a, s[k], R(0))) for k in (0, 1))


def cscale2(z, x):
    return (mul(z[0], x), mul(z[1], x))


def imaged(c, lab, a, b):
    s = add(mul(a, c.sh("image", 0)), b)

    def one(i, ch):
        u = uvw_at(c, i, ch)
        return cmul(c.cv("vis", i, ch), cis(scale(add(*[mul(c.v("lmn", s, k), u[k]) for k in range(3)]), 2 * PI)))
    p = []
    for q in (0, 1):
        p.append(rsum(I(0), c.sh("uvw", 0), lambda i: ite(active(c, i), rsum(
            I(0), c.sh("vis", 1), lambda ch: one(i, ch)[q]), R(0))))
    w = ite(c.nullm("taper"), R(1), mul(c.v("taper", a), c.v("taper", b)))
    return cadd(c.cv("image", a, b), cscale2(tuple(p), w))


def offs():
    return [Int("offset_u"), Int("offset_v"), Int("offset_w"), Real("theta"), Real("w_step"), Real("freq0_hz"),
            Real("dfreq_hz")]


def chan_arrays():
    return [M("start_chs", 1, contig=False, nullable=True, sort="i", when=chans),
            M("end_chs", 1, contig=False, nullable=True, sort="i", when=chans)]


def chan_sizes(c):
    return [or_(not_(chans(c)), and_(eq(c.sh(n, 0), c.sh("uvw", 0)), c.istype(n, INT))) for n in ("start_chs", "end_chs")]



SPECS = [
    Spec("sdp_gridder_subgrid_cut_out", MOD, [V("grid", 2), Int("offset_u"), Int("offset_v"), V("subgrid", 2, "out"), Status()],
         cases=GRIDC, valid=nonempty, outs={"subgrid": cut}),
    Spec("sdp_gridder_subgrid_add", MOD, [V("grid", 2, "inout"), Int("offset_u"), Int("offset_v"), V("subgrid", 2),
                                          Real("factor"), Status()],
         cases=GRIDC, valid=nonempty, outs={"grid": addin}),
    Spec("sdp_gridder_accumulate_scaled_arrays", MOD, [
        V("out", 2, "inout"), V("in1", 2),
        V("in2", 2, nullable=True, when=lambda c: and_(not_(c.nullm("in2")), ne(c["exponent"], I(0)),
                                                       c.istype("out", CFLOAT, CDOUBLE))), Int("exponent"), Status()],
         cases=ACC, valid=lambda c: same2(c, "in1", "out") + [
             or_(c.nullm("in2"), eq(c["exponent"], I(0)), not_(c.istype("out", CFLOAT, CDOUBLE)),
                 and_(*same2(c, "in2", "out")))],
         outs={"out": accumulated}),
    Spec("sdp_gridder_scale_inv_array", MOD, [V("out", 2, "out"), V("in1", 2), V("in2", 2), Int("exponent"), Status()],
         cases=INV, valid=lambda c: same2(c, "in1", "out") + same2(c, "in2", "out"), outs={"out": inverse}),
    Spec("sdp_gridder_residual", MOD, [V("a", 2), V("b", 2), V("out", 2, "out"), Status()],
         cases=[(n, {"a": a, "b": b, "out": a}) for n, a, b in AB],
         valid=lambda c: same2(c, "a", "out") + same2(c, "b", "out"), outs={"out": diff}),
    Spec("sdp_gridder_rms_diff", MOD, [V("a", 2), V("b", 2), Status()],
         cases=[(n, {"a": a, "b": b}) for n, a, b in AB], valid=lambda c: same2(c, "a", "b"), ret=rms),
    Spec("sdp_gridder_count_nonzero_pixels", MOD, [V("image", 2), Status()],
         cases=[(str(k), {"image": k}) for k in (4, 8, CFLOAT, CDOUBLE)], ret=nonzero),
    Spec("sdp_gridder_shift_subgrids", MOD, [V("subgrids", 3, "inout"), Status()],
         cases=[(str(k), {"subgrids": k}) for k in (CFLOAT, CDOUBLE)], outs={"subgrids": shifted}),
    Spec("sdp_gridder_sum_diff", MOD, [V("a", 1, sort="i"), V("b", 1, sort="i"), IntOut("result"), Int("start_row"),
                                       Int("end_row"), Status()],
         cases=[("int", {"a": INT, "b": INT})],
         valid=lambda c: [eq(c.sh("a", 0), c.sh("b", 0)), le(rows(c)[1], c.sh("a", 0))],
         cells={"result": lambda c, lab: rsum(rows(c)[0], rows(c)[1], lambda i: sub(c.v("a", i), c.v("b", i)))}),
    Spec("sdp_gridder_make_w_pattern", MOD, [Int("subgrid_size"), Real("theta"), Real("shear_u"), Real("shear_v"),
                                             Real("w_step"), V("w_pattern", 2, "out"), Status()],
         cases=[("cd", {"w_pattern": CDOUBLE})],
         valid=lambda c: [eq(c.sh("w_pattern", k), c["subgrid_size"]) for k in (0, 1)], outs={"w_pattern": pattern}),
    Spec("sdp_gridder_make_kernel", MOD, [V("window", 1), V("kernel", 2, "out"), Status()],
         cases=[("d", {"window": 8, "kernel": 8}), ("f", {"window": 4, "kernel": 4})],
         valid=lambda c: [eq(c.sh("window", 0), c.sh("kernel", 1))], outs={"kernel": kernel},
         defined=lambda c: [ge(c.sh("kernel", 0), I(2)), ge(c.sh("window", 0), I(1))]),
    Spec("sdp_gridder_determine_w_step", MOD, [Real("theta"), Real("fov"), Real("shear_u"), Real("shear_v"), Real("x0")],
         ret=w_step),
    Spec("sdp_gridder_dft", MOD, [V("uvw", 2)] + chan_arrays() + [V("flux", 1), V("lmn", 2)] + offs() +
         [V("vis", 2, "inout"), Status()],
         cases=[("d", {"uvw": 8, "flux": 8, "lmn": 8, "vis": CDOUBLE}), ("f", {"uvw": 4, "flux": 8, "lmn": 4, "vis": CFLOAT})],
         valid=lambda c: [eq(c.sh("uvw", 1), I(3)), eq(c.sh("lmn", 1), I(3)), eq(c.sh("lmn", 0), c.sh("flux", 0)),
                          eq(c.sh("vis", 0), c.sh("uvw", 0))] + chan_sizes(c), outs={"vis": predicted}),
    Spec("sdp_gridder_idft", MOD, [V("uvw", 2), V("vis", 2)] + chan_arrays() + [V("lmn", 2), V("taper", 1, nullable=True)] +
         offs() + [V("image", 2, "inout"), Status()],
         cases=[("d", {"uvw": 8, "image": CDOUBLE, "lmn": 8, "vis": CDOUBLE, "taper": 8}),
                ("f", {"uvw": 4, "image": CFLOAT, "lmn": 4, "vis": CFLOAT, "taper": 8})],
         valid=lambda c: [eq(c.sh("uvw", 1), I(3)), eq(c.sh("lmn", 1), I(3)), eq(c.sh("image", 0), c.sh("image", 1)),
                          eq(c.sh("lmn", 0), mul(c.sh("image", 0), c.sh("image", 0))),
                          eq(c.sh("vis", 0), c.sh("uvw", 0)), or_(c.nullm("taper"), eq(c.sh("taper", 0), c.sh("image", 0)))]
         + chan_sizes(c), outs={"image": imaged}),
]

uni = lambda a, b: lambda rng, nr, n, v: nr.uniform(a, b, n)
HINTS = {"uvw": uni(-20, 20), "lmn": uni(-0.3, 0.3), "freq0_hz": lambda rng: rng.uniform(0.5e8, 2e8),
         "dfreq_hz": lambda rng: rng.choice([0.0, rng.uniform(1e5, 1e7)]), "theta": lambda rng: rng.choice([0.0, 0.1, rng.uniform(0.02, 0.6)]),
         "w_step": lambda rng: rng.choice([0.0, rng.uniform(1, 20)]), "fov": lambda rng: rng.uniform(0.01, 0.5),
         "shear_u": lambda rng: rng.choice([0.0, rng.uniform(-0.3, 0.3)]), "shear_v": lambda rng: rng.choice([0.0, rng.uniform(-0.3, 0.3)]),
         "x0": lambda rng: rng.choice([0.0, rng.uniform(0.1, 0.5)]), "flux": uni(0, 2), "taper": uni(0.2, 1.5),
         "offset_w": lambda rng: rng.randint(-3, 3), "exponent": lambda rng: rng.randint(-1, 3)}
for s_ in SPECS:
    s_.hints = HINTS
COST = {"accumulate": 75, "idft": 35, "gridder_dft": 20, "subgrid_add": 40, "cut_out": 15, "residual": 17}
for s_ in SPECS:
    s_.cost = next((v for k, v in COST.items() if k in s_.fn), 8)
