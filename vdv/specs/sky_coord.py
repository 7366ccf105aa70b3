"""Sky coordinates keep what they were given."""
from script import *
from terms import ite

MOD = "utility/sdp_sky_coord.c"
H = "sky_coord.c"


def coords(s, x, dim):
    return ite(eq(dim, I(0)), x[0], ite(eq(dim, I(1)), x[1], ite(eq(dim, I(2)), x[2], R(0))))


def check_type(s, c, text, who):
    p = s.call("sdp_sky_coord_type", c)
    eng = s.eng
    k = t.var("pos", "i")
    end = text.r.strlen
    rng = [le(I(0), k), lt(k, end)]
    from engine import Ptr
    p = psimp(p, TRUE)
    if not isinstance(p, Ptr) or p.r is None:
        s.prove("result", "the type of %s is kept" % who, FALSE)
        return
    s.prove("result", "the type of %s is a copy, not the caller's string" % who, TRUE if p.r is not text.r else FALSE)
    eng.facts += rng
    import ir
    a = eng.load(eng.ptr_add(p, k), ir.Ty("int", 8), TRUE)
    b = eng.load(eng.ptr_add(text, k), ir.Ty("int", 8), TRUE)
    s.equal("result", "the type of %s is the string it was created with" % who, a, b)
    a = eng.load(eng.ptr_add(p, end), ir.Ty("int", 8), TRUE)
    b = eng.load(eng.ptr_add(text, end), ir.Ty("int", 8), TRUE)      # the terminator
    if a is not b:
        s.equal("result", "the type of %s is terminated where its string was" % who, a, I(0))
    s.alive(p, "the type of %s is still allocated" % who)


def body(s):
    x = [s.real("a%d" % k) for k in range(3)]
    y = [s.real("b%d" % k) for k in range(3)]
    ta, tb = s.string("type_a"), s.string("type_b")
    d = s.int("dim")
    e = s.real("epoch")
    a = s.call("sdp_sky_coord_create", ta, *x)
    s.equal("result", "a new coordinate has the default epoch", s.call("sdp_sky_coord_epoch", a), R(2000))
    b = s.call("sdp_sky_coord_create", tb, *y)
    for who, c, v, st in (("the first", a, x, ta), ("the second", b, y, tb)):
        s.equal("result", "each component of %s is returned, others are 0" % who, s.call("sdp_sky_coord_value", c, d), coords(s, v, d))
        check_type(s, c, st, who)
    s.call("sdp_sky_coord_set_epoch", a, e)
    s.equal("result", "the epoch is the one last set", s.call("sdp_sky_coord_epoch", a), e)
    s.equal("result", "the epoch of another coordinate is unaffected", s.call("sdp_sky_coord_epoch", b), R(2000))
    s.equal("result", "setting the epoch keeps the components", s.call("sdp_sky_coord_value", a, d), coords(s, x, d))
    check_type(s, a, ta, "the first, after setting its epoch")
    s.call("sdp_sky_coord_set_epoch", a, s.real("epoch2"))
    s.equal("result", "the epoch can be set again", s.call("sdp_sky_coord_epoch", a), s.real("epoch2"))
    s.call("sdp_sky_coord_free", a)
    s.equal("result", "releasing one coordinate keeps the other", s.call("sdp_sky_coord_value", b, d), coords(s, y, d))
    check_type(s, b, tb, "the second, after releasing the first")
    s.call("sdp_sky_coord_free", b)
    s.released()
    # null handles
    s.call("sdp_sky_coord_free", NULL)
    s.call("sdp_sky_coord_set_epoch", NULL, e)
    s.equal("result", "a null coordinate has value 0", s.call("sdp_sky_coord_value", NULL, d), R(0))
    s.equal("result", "a null coordinate has epoch 0", s.call("sdp_sky_coord_epoch", NULL), R(0))
    s.equal("result", "a null coordinate has no type", s.call("sdp_sky_coord_type", NULL), NULL)


SPECS = [Script("sdp_sky_coord", MOD, body, harness=H)]
