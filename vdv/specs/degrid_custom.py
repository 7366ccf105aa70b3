"""Degridding with user-supplied oversampled kernels."""
from spec import *

C_0 = 299792458


def cs2(k, v):
    return cscale(v, k)


def sample(c, t_, b, ch):
    """grid position and kernel rows of one sample"""
    inv_w = scale(add(c["channel_start_hz"], mul(t.toreal(ch), c["channel_step_hz"])), Fraction(1, C_0))
    ov, ow = c.sh("uv_kernel", 0), c.sh("w_kernel", 0)
    u, v, w = (mul(inv_w, c.v("uvw", t_, b, q)) for q in range(3))
    half = mul(add(sdiv(c.sh("grid", 3), I(2)), I(1)), ov)
    ix = sub(add(t.toint("round", mul(c["theta"], u, t.toreal(ov))), half), I(1))
    iy = sub(add(t.toint("round", mul(c["theta"], v, t.toreal(ov))), half), I(1))
    iz = sub(add(t.toint("round", mul(add(R(1), mul(w, inv(c["wstep"]))), t.toreal(ow))), ow), I(1))

    def row(i, o):
        r = srem(i, o)
        return sub(sub(o, I(1)), r)
    rz = srem(iz, ow)
    rz = ite(lt(rz, I(0)), add(rz, ow), rz)
    return sdiv(ix, ov), sdiv(iy, ov), row(ix, ov), row(iy, ov), sub(sub(ow, I(1)), rz)


def out(c, lab, t_, b, ch, p):
    hx, hy, fx, fy, fz = sample(c, t_, b, ch)
    n, nw = c.sh("uv_kernel", 1), c.sh("w_kernel", 1)
    h = sdiv(n, I(2))
    inside = and_(lt(h, hx), lt(hx, sub(c.sh("grid", 3), h)), lt(h, hy), lt(hy, sub(c.sh("grid", 2), h)))
    s = csum(I(0), nw, lambda z: cs2(c.v("w_kernel", fz, z), csum(
        I(0), n, lambda y: cs2(c.v("uv_kernel", fy, y), csum(
            I(0), n, lambda x: cs2(c.v("uv_kernel", fx, x), c.cv(
                "grid", ch, z, sub(add(hy, y), h), sub(add(hx, x), h), p)))))))
    conj_ = ne(c["conjugate"], I(0))
    old = c.cv("vis", t_, b, ch, p)
    return (ite(inside, s[0], old[0]), ite(inside, ite(conj_, neg(s[1]), s[1]), old[1]))


SPECS = [
    Spec("sdp_degrid_uvw_custom", "grid_data/sdp_degrid_uvw_custom.cpp",
         [M("grid", 5), M("uvw", 3), M("uv_kernel", 2), M("w_kernel", 2), Real("theta"), Real("wstep"),
          Real("channel_start_hz"), Real("channel_step_hz"), Int("conjugate"), M("vis", 4, "out"), Status()],
         cases=[("double", {"grid": CDOUBLE, "uvw": 8, "uv_kernel": 8, "w_kernel": 8, "vis": CDOUBLE})],
         valid=lambda c: [eq(c.sh("uvw", 0), c.sh("vis", 0)), eq(c.sh("uvw", 1), c.sh("vis", 1)), eq(c.sh("uvw", 2), I(3)),
                          or_(eq(c.sh("vis", 3), I(1)), eq(c.sh("vis", 3), I(4))),
                          eq(c.sh("grid", 0), c.sh("vis", 2)), eq(c.sh("grid", 4), c.sh("vis", 3)),
                          le(I(1), c.sh("uv_kernel", 0)), le(I(1), c.sh("w_kernel", 0)),
                          le(c.sh("w_kernel", 1), c.sh("grid", 1))],
         outs={"vis": out}),
]
