"""Correction of facets for the w-plane they were gridded at."""
from spec import *
from specs.gridder_utils import lm_to_n, PI

MOD = "grid_data/sdp_gridder_grid_correct.cpp"


def position(c, i, name, d, off):
    """coordinate of a facet pixel, counted from the centre of the image"""
    p = add(i, neg(sdiv(c.sh(name, d), I(2))), c[off])
    return mul(toreal(p), c["theta"], inv(toreal(c["image_size"])))


def plane(c, lab, i, j):
    l, m = position(c, i, "facet", 0, "facet_offset_l"), position(c, j, "facet", 1, "facet_offset_m")
    phase = mul(R(2 * PI), c["w_step"], lm_to_n(l, m, c["shear_u"], c["shear_v"]), toreal(c["w_offset"]))
    x, w = c.cv("facet", i, j), cis(phase)
    y, z = cmul(x, conj(w)), cmul(x, w)
    same = eq(c["w_offset"], I(0))
    return tuple(ite(same, a, ite(eq(c["inverse"], I(0)), b, d)) for a, b, d in zip(x, y, z))


SPECS = [
    Spec("sdp_gridder_grid_correct_w_stack", MOD,
         [Int("image_size"), Real("theta"), Real("w_step"), Real("shear_u"), Real("shear_v"),
          M("facet", 2, "inout", contig=False), Int("facet_offset_l"), Int("facet_offset_m"), Int("w_offset"),
          Int("inverse"), Status()],
         cases=[("cd", {"facet": CDOUBLE}), ("cf", {"facet": CFLOAT})],
         valid=lambda c: [], outs={"facet": plane}, exact=False),
]
SPECS[0].hints = {"theta": lambda rng: rng.uniform(0.01, 0.4), "w_step": lambda rng: rng.uniform(0.5, 50),
                  "shear_u": lambda rng: rng.choice([0.0, rng.uniform(-0.4, 0.4)]), "shear_v": lambda rng: rng.choice([0.0, rng.uniform(-0.4, 0.4)]),
                  "image_size": lambda rng: rng.randint(20, 200)}
