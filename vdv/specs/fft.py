"""Operations on transformed arrays."""
from spec import *

MOD = "fourier_transforms/sdp_fft.cpp"


def norm(c, lab, i, j):
    return cscale(c.cv("data", i, j), inv(toreal(mul(c.sh("data", 0), c.sh("data", 1)))))


def phase(c, lab, i, j):
    return cscale(c.cv("data", i, j), sub(R(1), scale(toreal(emod(add(i, j), I(2))), 2)))


CASES = [("cd", {"data": CDOUBLE}), ("cf", {"data": CFLOAT})]
SPECS = [
    Spec("sdp_fft_norm", MOD, [M("data", 2, "inout", contig=False), Status()], cases=CASES, valid=lambda c: [], outs={"data": norm}),
    Spec("sdp_fft_phase", MOD, [M("data", 2, "inout", contig=False), Status()], cases=CASES, valid=lambda c: [], outs={"data": phase}),
]
