"""Station beams and element responses."""
from spec import *
from specs.phase_rotate import PI

MOD = "station_beam/sdp_station.cpp"
f_cos, f_sin = contracts.f_cos, contracts.f_sin


def is4(c, n):
    return c4(c.mems[n])


def c4(m):
    r = FALSE
    for n in range(2, 7):
        x = eq(m.shape(n - 1), I(4))
        if n > 2:
            x = or_(x, and_(eq(m.shape(n - 1), I(2)), eq(m.shape(n - 2), I(2))))
        r = or_(r, and_(eq(m.ndims, I(n)), x))
    return r


def npol(c):
    return ite(is4(c, "station_beam"), I(4), I(1))


PREC = [("double", 8, CDOUBLE), ("float", 4, CFLOAT)]

def station_valid(c):
    n = c.numel("element_x")
    np_ = add(c["index_offset_points"], c["num_points"])
    out = [le(I(0), c["index_offset_points"]), le(I(0), c["num_points"]), le(I(0), c["index_offset_station_beam"])]
    for m in ("element_weights", "element_y", "element_z"):
        out.append(le(n, c.numel(m)))
    for m in ("point_x", "point_y"):
        out.append(le(np_, c.numel(m)))
    out.append(or_(c.nullm("point_z"), le(np_, c.numel("point_z"))))
    out.append(or_(c.nullm("element_beam"), c.nullm("element_beam_index"), le(n, c.numel("element_beam_index"))))
    out.append(or_(c.nullm("element_beam"), not_(c.nullm("element_beam_index")),
                   le(mul(n, c["num_points"], npol(c)), c.numel("element_beam"))))
    out.append(le(mul(npol(c), add(c["index_offset_station_beam"], c["num_points"])), c.numel("station_beam")))
    return out


def row_ok(c, v):
    """element beam indices select rows of the element beam matrix (documented)"""
    return and_(le(I(0), v), le(mul(add(v, I(1)), c["num_points"], npol(c)), c.numel("element_beam")))


def station_out(pol):
    def f(c, lab, k):
        old = c.cv("station_beam", k)
        n = c.numel("element_x")
        p = emod(k, I(4)) if pol else I(0)
        i = sub(fdiv(k, I(4)) if pol else k, c["index_offset_station_beam"])
        at = add(i, c["index_offset_points"])

        def term(e, beam, index, p):
            path = add(mul(c.v("point_x", at), c.v("element_x", e)), mul(c.v("point_y", at), c.v("element_y", e)),
                       ite(c.nullm("point_z"), R(0), mul(c.v("point_z", at), c.v("element_z", e))))
            w = cmul(cis(mul(c["wavenumber"], path)), c.cv("element_weights", e))
            if not beam:
                return w
            row = c.v("element_beam_index", e) if index else e
            pos = add(mul(row, c["num_points"]), i)
            return cmul(w, c.cv("element_beam", add(mul(pos, I(4)), I(p)) if pol else pos))

        norm = ite(ne(c["normalise"], I(0)), inv(toreal(n)), R(1))
        def value(p):
            s = [csum(I(0), n, lambda e: term(e, b, x, p)) for b, x in ((0, 0), (1, 0), (1, 1))]
            return [mul(norm, ite(c.nullm("element_beam"), s[0][q], ite(c.nullm("element_beam_index"), s[1][q], s[2][q])))
                    for q in (0, 1)]
        vs = [value(q) for q in range(4 if pol else 1)]
        val = vs[-1]
        for q in range(len(vs) - 2, -1, -1):
            val = [ite(eq(p, I(q)), a, b) for a, b in zip(vs[q], val)]
        g = and_(le(I(0), i), lt(i, c["num_points"]))
        if pol:
            g = and_(g, ite(le(p, I(1)), ne(c["eval_x"], I(0)), ne(c["eval_y"], I(0))))
        return tuple(ite(g, val[q], old[q]) for q in (0, 1))
    return f


def beam_case(d, z):
    return {"element_weights": z, "element_x": d, "element_y": d, "element_z": d, "point_x": d, "point_y": d, "point_z": d,
            "element_beam_index": 2, "element_beam": z, "station_beam": z}


def station(pol):
    haveb = lambda c: not_(c.nullm("element_beam"))
    sp = Spec("sdp_station_beam_aperture_array", MOD,
              [Real("wavenumber"), M("element_weights", "flat"), M("element_x", "flat"), M("element_y", "flat"),
               M("element_z", "flat"), Int("index_offset_points"), Int("num_points"), M("point_x", "flat"), M("point_y", "flat"),
               M("point_z", "flat", nullable=True), M("element_beam_index", "flat", nullable=True, when=haveb, sort="i"),
               M("element_beam", "flat", nullable=True), Int("index_offset_station_beam"), M("station_beam", "flat", "out"),
               Int("normalise"), Int("eval_x"), Int("eval_y"), Status()],
              cases=[(l, beam_case(d, z)) for l, d, z in PREC], valid=station_valid,
              facts=lambda c: [is4(c, "station_beam") if pol else not_(is4(c, "station_beam"))],
              outs={"station_beam": station_out(pol)}, opts={"elements": {"element_beam_index": row_ok}})
    sp.label = "polarised" if pol else "scalar"
    if pol:
        sp.split = {"station_beam": station_split}
    sp.hints = {"element_beam_index": lambda rng, nr, n, v: nr.randint(0, max(1, rows(v)), n)}
    return sp


def station_split(c, k):
    p = emod(k, I(4))
    i = sub(fdiv(k, I(4)), c["index_offset_station_beam"])
    g = and_(le(I(0), i), lt(i, c["num_points"]))
    ex, ey = ne(c["eval_x"], I(0)), ne(c["eval_y"], I(0))
    out = []
    for q in range(4):
        e = ex if q < 2 else ey
        out += [and_(g, eq(p, I(q)), e), and_(g, eq(p, I(q)), not_(e))]
    return out + [not_(g)]


def rows(v):
    sh = [v.get("station_beam.shape%d" % k, 0) for k in range(v["station_beam.ndims"])]
    pol = len(sh) > 1 and sh[-1] == 4 or len(sh) > 2 and sh[-2:] == [2, 2]
    n = 1
    for k in range(v["element_beam.ndims"]):
        n *= v.get("element_beam.shape%d" % k, 1)
    return n // max(1, v["num_points"] * (4 if pol else 1))


SPECS = [station(0), station(1)]

# ------------------------------------------------------------------ dipole
DIP = "station_beam/sdp_element_dipole.cpp"
C0 = 299792458


def dipole_valid(c):
    np_, st, off = c["num_points"], c["stride_element_beam"], c["index_offset_element_beam"]
    need = add(mul(sub(np_, I(1)), st), off, ite(is4(c, "element_beam"), I(2), I(1)))
    return [le(I(0), np_), le(I(1), st), le(I(0), off), le(np_, c.numel("theta_rad")), le(np_, c.numel("phi_rad")),
            or_(le(np_, I(0)), le(need, c.numel("element_beam")))]


def response(c, th, ph, deg=R(0)):
    """(E_theta, E_phi) of a dipole, and where it is defined"""
    ph = add(ph, deg)
    kl = mul(c["dipole_length_m"], c["freq_hz"], R(PI / C0))
    d = add(R(1), mul(f_cos(ph), f_cos(ph), sub(mul(f_cos(th), f_cos(th)), R(1))))
    v = mul(sub(f_cos(mul(kl, f_cos(ph), f_sin(th))), f_cos(kl)), inv(d))
    z = eq(d, R(0))
    return (ite(z, R(0), neg(mul(f_cos(ph), f_cos(th), v))), ite(z, R(0), mul(f_sin(ph), v)))


def dipole_out(pol, stride):
    def f(c, lab, k):
        old = c.cv("element_beam", k)
        q = sub(k, c["index_offset_element_beam"])
        i = fdiv(q, I(stride)) if stride > 1 else q
        w = emod(q, I(stride)) if stride > 1 else I(0)
        g = and_(le(I(0), i), lt(i, c["num_points"]))
        th, ph = c.v("theta_rad", i), c.v("phi_rad", i)
        a = response(c, th, ph)
        if pol:
            return (ite(and_(g, eq(w, I(0))), a[0], ite(and_(g, eq(w, I(1))), a[1], old[0])),
                    ite(and_(g, le(w, I(1))), R(0), old[1]))
        b = response(c, th, ph, R(PI / 2))
        amp = contracts.f_sqrt(scale(add(*[mul(x, x) for x in a + b]), Fraction(1, 2)))
        g = and_(g, eq(w, I(0)))
        return (ite(g, amp, old[0]), ite(g, R(0), old[1]))
    return f


def dipole(pol, stride):
    sp = Spec("sdp_element_beam_dipole", DIP,
              [Int("num_points"), M("theta_rad", "flat"), M("phi_rad", "flat"), Real("freq_hz"), Real("dipole_length_m"),
               Int("stride_element_beam"), Int("index_offset_element_beam"), M("element_beam", "flat", "out"), Status()],
              cases=[(l, {"theta_rad": d, "phi_rad": d, "element_beam": z}) for l, d, z in PREC], valid=dipole_valid,
              facts=lambda c: [is4(c, "element_beam") if pol else not_(is4(c, "element_beam"))]
              + ([eq(c["stride_element_beam"], I(stride))] if stride else []),
              outs={"element_beam": dipole_out(pol, stride)} if stride else {})
    sp.hints = {"freq_hz": lambda rng: rng.uniform(5e7, 3e8), "dipole_length_m": lambda rng: rng.uniform(0.5, 3),
                "theta_rad": lambda rng, nr, n, v: nr.uniform(0.3, 1.3, n), "phi_rad": lambda rng, nr, n, v: nr.uniform(-6, 6, n)}
    sp.label = ("polarised" if pol else "scalar") + (" stride %d" % stride if stride else " any stride")
    return sp


SPECS += [dipole(0, 1), dipole(0, 4), dipole(1, 4), dipole(1, 2), dipole(0, 0), dipole(1, 0)]

# ------------------------------------------------------------------ spherical waves
HARP = "station_beam/sdp_element_spherical_wave_harp.cpp"


def harp_valid(c):
    n, l, off = c["num_points"], c["l_max"], c["index_offset_element_beam"]
    l1 = add(l, I(1))
    return [is4(c, "element_beam"), le(I(0), n), le(I(0), l), le(I(0), off), le(n, c.numel("theta_rad")), le(n, c.numel("phi_x_rad")),
            le(n, c.numel("phi_y_rad")), le(scale(sub(mul(l1, l1), I(1)), 4), c.numel("coeffs")),
            le(scale(add(n, off), 4), c.numel("element_beam"))]


sp = Spec("sdp_element_beam_spherical_wave_harp", HARP,
          [Int("num_points"), M("theta_rad", "flat"), M("phi_x_rad", "flat"), M("phi_y_rad", "flat"), Int("l_max"),
           M("coeffs", "flat"), Int("index_offset_element_beam"), M("element_beam", "flat", "out"), Status()],
          cases=[(l, {"theta_rad": d, "phi_x_rad": d, "phi_y_rad": d, "coeffs": z, "element_beam": z}) for l, d, z in PREC],
          valid=harp_valid, outs={"element_beam": lambda c, lab, k: c.cv("element_beam", k)})


def harp_outside(c, k):
    i = sub(fdiv(k, I(4)), c["index_offset_element_beam"])
    return [not_(and_(le(I(0), i), lt(i, c["num_points"])))]


harp_outside.partial = True
sp.split = {"element_beam": harp_outside}   # only what is left alone
SPECS.append(sp)
for s_ in SPECS:
    s_.cost = 20
