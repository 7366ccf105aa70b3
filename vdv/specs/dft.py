"""Direct Fourier transform prediction of visibilities."""
from spec import *
from specs.phase_rotate import TWO_PI_OVER_C, PI

MOD = "visibility/sdp_dft.cpp"
CASES = [("double", {"source_directions": 8, "source_fluxes": CDOUBLE, "uvw": 8, "vis": CDOUBLE}),
         ("mixed", {"source_directions": 8, "source_fluxes": CDOUBLE, "uvw": 8, "vis": CFLOAT})]


def dot(c, k, i):
    return add(*[mul(c.v("source_directions", k, q), c.v("uvw", *i, q)) for q in range(3)])


def vis00(c, lab, t_, b, ch, p):
    return csum(I(0), c.sh("source_directions", 0),
                lambda k: cmul(cis(scale(dot(c, k, (t_, b, ch)), -2 * PI)), c.cv("source_fluxes", k, ch, p)))


def vis01(c, lab, t_, b, ch, p):
    freq = add(c["channel_start_hz"], mul(t.toreal(ch), c["channel_step_hz"]))
    return csum(I(0), c.sh("source_directions", 0),
                lambda k: cmul(cis(neg(mul(TWO_PI_OVER_C, freq, dot(c, k, (t_, b))))),
                               c.cv("source_fluxes", k, ch, p)))


def common(c):
    return [eq(c.sh("source_directions", 1), I(3)), eq(c.sh("source_fluxes", 0), c.sh("source_directions", 0)),
            eq(c.sh("source_fluxes", 1), c.sh("vis", 2)), eq(c.sh("source_fluxes", 2), c.sh("vis", 3)),
            or_(eq(c.sh("vis", 3), I(1)), eq(c.sh("vis", 3), I(4))),
            eq(c.sh("uvw", 0), c.sh("vis", 0)), eq(c.sh("uvw", 1), c.sh("vis", 1))]


SPECS = [
    Spec("sdp_dft_point_v00", MOD, [M("source_directions", 2), M("source_fluxes", 3), M("uvw", 4), M("vis", 4, "out"),
                                    Status()], cases=CASES,
         valid=lambda c: common(c) + [eq(c.sh("uvw", 2), c.sh("vis", 2)), eq(c.sh("uvw", 3), I(3))],
         outs={"vis": vis00}),
    Spec("sdp_dft_point_v01", MOD, [M("source_directions", 2), M("source_fluxes", 3), M("uvw", 3),
                                    Real("channel_start_hz"), Real("channel_step_hz"), M("vis", 4, "out"), Status()],
         cases=CASES, valid=lambda c: common(c) + [eq(c.sh("uvw", 2), I(3))], outs={"vis": vis01}),
]
for s_ in SPECS:
    s_.cost = 45
