"""Phase rotation of baseline coordinates and visibilities."""
from spec import *

MOD = "visibility/sdp_phase_rotate.cpp"
s, co = contracts.f_sin, contracts.f_cos


def uvw_out(c, lab, i, j, k):
    da = neg(sub(c["new"].c[0], c["orig"].c[0]))
    dd = sub(c["new"].c[1], c["orig"].c[1])
    x = [c.v("uvw_in", i, j, q) for q in range(3)]
    m = [[co(da), R(0), s(da)],
         [mul(s(da), s(dd)), co(dd), neg(mul(co(da), s(dd)))],
         [neg(mul(s(da), co(dd))), s(dd), mul(co(da), co(dd))]]
    rows = [add(*[mul(a, b) for a, b in zip(r, x)]) for r in m]
    return ite(eq(k, I(0)), rows[0], ite(eq(k, I(1)), rows[1], rows[2]))


def vis_out(c, lab, t_, b, ch, p):
    dec0, dec = c["orig"].c[1], c["new"].c[1]
    da = sub(c["new"].c[0], c["orig"].c[0])
    l1 = mul(co(dec), s(da))
    m1 = sub(mul(co(dec0), s(dec)), mul(s(dec0), co(dec), co(da)))
    n1 = add(mul(s(dec0), s(dec)), mul(co(dec0), co(dec), co(da)))
    d = [neg(l1), neg(m1), sub(R(1), n1)]
    freq = add(c["channel_start_hz"], mul(t.toreal(ch), c["channel_step_hz"]))
    path = add(*[mul(d[q], c.v("uvw", t_, b, q)) for q in range(3)])
    ph = mul(TWO_PI_OVER_C, freq, path)
    return cmul(c.cv("vis_in", t_, b, ch, p), cis(ph))


PI = Fraction(3.141592653589793)
TWO_PI_OVER_C = scale(R(2 * PI), Fraction(1) / 299792458)

SPECS = [
    Spec("sdp_phase_rotate_uvw", MOD, [Sky("orig"), Sky("new"), M("uvw_in", 3), M("uvw_out", 3, "out"), Status()],
         cases=[("double", {"uvw_in": 8, "uvw_out": 8}), ("float", {"uvw_in": 4, "uvw_out": 4})],
         valid=lambda c: [eq(c.sh("uvw_in", 2), I(3))] + [eq(c.sh("uvw_in", k), c.sh("uvw_out", k)) for k in range(3)],
         outs={"uvw_out": uvw_out}),
    Spec("sdp_phase_rotate_vis", MOD,
         [Sky("orig"), Sky("new"), Real("channel_start_hz"), Real("channel_step_hz"), M("uvw", 3), M("vis_in", 4),
          M("vis_out", 4, "out"), Status()],
         cases=[("double", {"uvw": 8, "vis_in": CDOUBLE, "vis_out": CDOUBLE}),
                ("float", {"uvw": 4, "vis_in": CFLOAT, "vis_out": CFLOAT})],
         valid=lambda c: [eq(c.sh("uvw", 2), I(3))] + [eq(c.sh("vis_in", k), c.sh("vis_out", k)) for k in range(4)]
         + [eq(c.sh("uvw", k), c.sh("vis_in", k)) for k in range(2)]
         + [or_(eq(c.sh("vis_in", 3), I(1)), eq(c.sh("vis_in", 3), I(4)))],
         outs={"vis_out": vis_out}),
]
