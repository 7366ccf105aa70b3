"""Contracts of the functions the verified code calls: the library's own
sdp_mem / sdp_sky_coord / device-wrapper interface, libm, libc, LLVM intrinsics.

contract(engine, args, ins, guard) -> result value; it emits the callee's
preconditions as obligations of the caller and applies its effects.
"""
import ir
import terms as t
import engine as E
from engine import (Ptr, PtrIte, Agg, UNDEF, NULL, Region, Cont, MemObj, Unsupported, UndefV, OpaqueV, vite, psimp,
                    FuncRef)
from terms import (T, I, R, add, sub, mul, neg, scale, eq, ne, le, lt, ge, gt, and_, or_, not_, ite, subst, cval,
                   as_atom, atom, fresh, freshb, TRUE, FALSE, uf, lits, implies)

I32, I64, I8 = ir.Ty("int", 32), ir.Ty("int", 64), ir.Ty("int", 8)
F64 = ir.Ty("fp", "double")
PTR = ir.Ty("ptr")

SUCCESS, RUNTIME, INVALID, DTYPE, ALLOC, COPY, LOCATION = range(7)
CPU, GPU = 0, 1
C = {}


def contract(*names):
    def d(f):
        for n in names:
            C[n] = f
        return f
    return d


# ----------------------------------------------------------------- sdp_Mem
def onmem(eng, p, g, f, nullv):
    p = psimp(p, g)
    if isinstance(p, PtrIte):
        return vite(p.c, onmem(eng, p.a, and_(g, p.c), f, nullv), onmem(eng, p.b, and_(g, not_(p.c)), f, nullv))
    if not isinstance(p, Ptr):
        raise Unsupported("memory handle %r" % (p,))
    if p.r is None:
        return nullv() if callable(nullv) else nullv
    if p.r.kind != "handle" or not isinstance(p.r.obj, MemObj) or cval(p.off) != 0:
        raise Unsupported("not a memory handle: %r" % (p,))
    m = p.r.obj
    if p.r.freed is not FALSE:
        eng.oblig("use-after-free", not_(p.r.freed), g, m.name)
    if m.isnull is FALSE:
        return f(m, g)
    v = f(m, and_(g, not_(m.isnull)))
    n = nullv() if callable(nullv) else nullv
    if v is None or n is None:
        return None
    return vite(m.isnull, n, v)


def b2i(b):
    return ite(b, I(1), I(0))


def is_type(m, *codes):
    return or_(*[eq(m.type, I(c)) for c in codes])


def getter(name, f, nullv=I(0)):
    def c(eng, args, ins, g):
        return onmem(eng, args[0], g, lambda m, gg: f(eng, m, args, gg), nullv)
    C[name] = c


def _data(eng, m, args, g):
    if m.region is None:
        return NULL
    return Ptr(m.region, I(0)) if m.nodata is FALSE else vite(m.nodata, NULL, Ptr(m.region, I(0)))


getter("sdp_mem_data", _data, NULL)
getter("sdp_mem_data_const", _data, NULL)
getter("sdp_mem_is_c_contiguous", lambda e, m, a, g: b2i(m.contig))
getter("sdp_mem_is_floating_point", lambda e, m, a, g: b2i(is_type(m, 4, 8)))
getter("sdp_mem_is_complex", lambda e, m, a, g: b2i(is_type(m, 36, 40)))
getter("sdp_mem_is_double", lambda e, m, a, g: b2i(is_type(m, 8, 40)))
getter("sdp_mem_is_read_only", lambda e, m, a, g: b2i(m.ro), I(1))
getter("sdp_mem_location", lambda e, m, a, g: m.loc)
getter("sdp_mem_num_dims", lambda e, m, a, g: m.ndims)
getter("sdp_mem_num_elements", lambda e, m, a, g: m.numel)
getter("sdp_mem_type", lambda e, m, a, g: m.type)


def _c4(e, m, a, g):
    nd = m.ndims
    r = FALSE
    for n in range(2, 7):
        c = eq(m.shape(n - 1), I(4))
        if n > 2:
            c = or_(c, and_(eq(m.shape(n - 1), I(2)), eq(m.shape(n - 2), I(2))))
        r = or_(r, and_(eq(nd, I(n)), c))
    return b2i(and_(is_type(m, 36, 40), r))


getter("sdp_mem_is_complex4", _c4)


def dimsel(f):
    """value of a per-dimension attribute; zero outside the dimensions"""
    def c(eng, m, args, g):
        d = args[1]
        if cval(d) is not None:
            return f(m, int(cval(d))) if cval(d) >= 0 else I(0)
        if eng.dry:
            return fresh("dim", "i")
        r = I(0)
        top = m.spec_ndims if isinstance(m.spec_ndims, int) else 4
        eng.assumed.add("dimension indices passed to shape queries stay below the rank limit")
        for k in range(top + 1):
            r = ite(eq(d, I(k)), f(m, k), r)
        return r
    return c


_shape_at = dimsel(lambda m, k: m.shape(k))
getter("sdp_mem_shape_dim", _shape_at)
getter("sdp_mem_stride_elements_dim", dimsel(lambda m, k: m.stride(k)))


def type_size(ty):
    c = cval(ty)
    tab = {1: 1, 2: 4, 4: 4, 8: 8, 36: 8, 40: 16}
    if c is not None:
        return I(tab.get(int(c), 0))
    r = I(0)
    for k, v in tab.items():
        r = ite(eq(ty, I(k)), I(v), r)
    return r


getter("sdp_mem_stride_bytes_dim", dimsel(lambda m, k: mul(m.stride(k), type_size(m.type))))


@contract("sdp_mem_type_size")
def _ts(eng, args, ins, g):
    return type_size(args[0])


@contract("sdp_mem_location_name", "sdp_mem_type_name")
def _nm(eng, args, ins, g):
    return OpaqueV("string")


@contract("sdp_mem_is_matching")
def _match(eng, args, ins, g):
    def f(m1, g1):
        def h(m2, g2):
            c = and_(eq(m1.type, m2.type), eq(m1.ndims, m2.ndims))
            cl = cval(args[2])
            l = eq(m1.loc, m2.loc)
            if cl is None:
                l = or_(eq(args[2], I(0)), l)
            elif cl == 0:
                l = TRUE
            c = and_(c, l)
            for k in range(max(nd(m1), nd(m2))):
                c = and_(c, eq(m1.shape(k), m2.shape(k)), eq(m1.stride(k), m2.stride(k)))
            return b2i(c)
        return onmem(eng, args[1], g1, h, I(0))
    return onmem(eng, args[0], g, f, I(0))


def nd(m):
    return m.spec_ndims if isinstance(m.spec_ndims, int) else 4


def status_load(eng, p, g):
    return eng.load(p, I32, g)


def status_set(eng, p, code, g):
    if g is FALSE:
        return
    eng.store(p, I(code), I32, g)


def checker(name, bad, code, si):
    """bad(m, args) under status==0 -> status := code"""
    def c(eng, args, ins, g):
        s = status_load(eng, args[si], g)
        g0 = eng.gand(g, eq(s, I(0)))
        if g0 is FALSE:
            return UNDEF

        def f(m, gg):
            return bad(eng, m, args, gg)
        b = onmem(eng, args[0], g0, f, lambda: bad(eng, NULLMEM, args, g0))
        status_set(eng, args[si], code, and_(g0, b))
        return UNDEF
    C[name] = c


class _Null:
    type = I(0)
    loc = I(0)
    ndims = I(0)
    numel = I(0)
    ro = TRUE
    contig = FALSE

    def shape(self, k):
        return I(0)

    stride = shape


NULLMEM = _Null()

checker("sdp_mem_check_writeable_at", lambda e, m, a, g: m.ro, INVALID, 1)
checker("sdp_mem_check_c_contiguity_at", lambda e, m, a, g: not_(m.contig), INVALID, 1)
checker("sdp_mem_check_location_at", lambda e, m, a, g: ne(m.loc, a[1]), LOCATION, 2)
checker("sdp_mem_check_num_dims_at", lambda e, m, a, g: ne(m.ndims, a[1]), INVALID, 2)
checker("sdp_mem_check_dim_size_at", lambda e, m, a, g: ne(_shape_at(e, m, a, g), a[2]), INVALID, 3)
checker("sdp_mem_check_shape_dim_at",
        lambda e, m, a, g: or_(le(m.ndims, a[1]), ne(_shape_at(e, m, a, g), a[2])), INVALID, 3)
checker("sdp_mem_check_type_at", lambda e, m, a, g: ne(m.type, a[1]), DTYPE, 2)


def _shape_bad(e, m, a, g):
    n = cval(a[1])
    if n is None:
        raise Unsupported("symbolic rank")
    b = ne(m.ndims, a[1])
    for k in range(int(n)):
        s = e.load(e.ptr_add(a[2], I(8 * k)), I64, g)
        b = or_(b, ne(m.shape(k), s))
    return b


checker("sdp_mem_check_shape_at", _shape_bad, INVALID, 3)


@contract("sdp_mem_check_same_shape_at")
def _same(eng, args, ins, g):
    # contract as documented for every check: nothing happens if status is set
    s = status_load(eng, args[4], g)
    g0 = eng.gand(g, eq(s, I(0)))
    d1, d2 = int(cval(args[1])), int(cval(args[3]))

    def f(m1, g1):
        def h(m2, g2):
            return and_(lt(I(d1), m1.ndims), lt(I(d2), m2.ndims), ne(m1.shape(d1), m2.shape(d2)))
        return onmem(eng, args[2], g1, h, FALSE)
    b = onmem(eng, args[0], g0, f, FALSE)
    status_set(eng, args[4], INVALID, and_(g0, b))
    return UNDEF


@contract("sdp_mem_gpu_buffer", "sdp_mem_gpu_buffer_const")
def _gpub(eng, args, ins, g):
    s = status_load(eng, args[1], g)

    def f(m, gg):
        status_set(eng, args[1], LOCATION, and_(gg, eq(s, I(0)), ne(m.loc, I(GPU)), ne(m.type, I(0))))
        return OpaqueV("device buffer")
    onmem(eng, args[0], g, f, None)
    return OpaqueV("device buffer")


@contract("sdp_launch_cuda_kernel")
def _launch(eng, args, ins, g):
    s = status_load(eng, args[-1], g)
    status_set(eng, args[-1], RUNTIME, and_(g, eq(s, I(0))))
    return UNDEF


@contract("sdp_log_message", "printf", "fprintf", "puts", "putchar", "fflush", "sdp_timer_start", "sdp_timer_stop",
          "sdp_timer_pause", "sdp_timer_resume", "sdp_timer_restart", "sdp_timer_reset", "fputs", "fputc", "fwrite",
          "sdp_mutex_lock", "sdp_mutex_unlock", "sdp_mutex_free", "sdp_timer_free", "sdp_timers_push",
          "sdp_timers_pop", "sdp_timers_report", "sdp_timers_free", "sdp_cuda_set_device")
def _nop(eng, args, ins, g):
    return I(0)


@contract("sdp_timer_create", "sdp_mutex_create", "sdp_timer_elapsed", "clock", "time", "sdp_timers_create")
def _opq(eng, args, ins, g):
    return OpaqueV("timer")


# --------------------------------------------------- creation and whole-array
def readshape(eng, p, n, g):
    return [eng.load(eng.ptr_add(p, I(8 * k)), I64, g) for k in range(n)]


def new_mem(eng, name, type_, loc, shape, g, zero=True, region=None):
    n = "%s!%d" % (name, next(t._fresh))
    numel = I(1)
    for s in shape:
        numel = mul(numel, s)
    m = MemObj(n, eng, type=type_, loc=loc, ndims=I(len(shape)), ro=FALSE, contig=TRUE, numel=numel, isnew=True)
    m.spec_ndims = len(shape)
    m.cplx = None
    st = I(1)
    for k in range(len(shape) - 1, -1, -1):
        m._shape[k] = shape[k]
        m._stride[k] = st
        st = mul(st, shape[k])
    for k in range(len(shape), 8):
        m._shape[k] = m._stride[k] = I(0)
    c = cval(type_)
    if c is not None:
        m.cplx = int(c) in (36, 40)
        if region is None:
            m.region.sort = "i" if int(c) in (1, 2) else "r"
    elif eng.prove(is_type(m, 36, 40), g, 1000):
        m.cplx = True
    elif eng.prove(not_(is_type(m, 36, 40)), g, 1000):
        m.cplx = False
    if region is not None:
        m.region = region
    else:
        m.region.local = True
        eng.mem[m.region] = eng.fresh_base(m.region, n, zero=zero)
    eng.mem[m.handle] = {}
    m.handle.freed = FALSE
    m.made = g
    eng.newmems.append(m)
    return m


def nodata(eng, g, s, valid, loc):
    """condition under which a newly created array has no data"""
    c = not_(and_(eq(s, I(0)), valid, eq(loc, I(CPU))))
    if c is not FALSE and eng.prove(not_(c), g, 500):
        return FALSE
    return c


@contract("sdp_mem_create")
def _create(eng, args, ins, g):
    n = cval(args[2])
    if n is None:
        raise Unsupported("sdp_mem_create with symbolic rank")
    shape = readshape(eng, args[3], int(n), g)
    for s in shape:
        eng.oblig("create-size", le(I(0), s), g, "array size is not negative")
    m = new_mem(eng, "new", args[0], args[1], shape, g)
    s = status_load(eng, args[4], g)
    valid = is_type(m, 0, 1, 2, 4, 8, 36, 40)
    status_set(eng, args[4], DTYPE, and_(g, not_(valid)))
    status_set(eng, args[4], LOCATION, and_(g, eq(s, I(0)), valid, ne(args[1], I(CPU))))
    m.nodata = nodata(eng, g, s, valid, args[1])
    eng.assumed.add("memory allocation succeeds")
    return Ptr(m.handle, I(0))


@contract("sdp_mem_create_copy")
def _copy(eng, args, ins, g):
    def f(m, gg):
        if m.spec_ndims == "flat":
            n = new_mem(eng, "copy", m.type, args[1], [m.numel], gg)
            n.ndims = m.ndims
            n.spec_ndims = "flat"
            for k in range(8):
                n._shape[k] = m.shape(k)
                n._stride[k] = m.stride(k)
        else:
            n = new_mem(eng, "copy", m.type, args[1], m.dimlist(), gg)
        n.cplx = m.cplx
        n.region.sort = m.region.sort
        n.contig = m.contig
        for k in range(nd(m)):
            n._stride[k] = m.stride(k)
        s = status_load(eng, args[2], gg)
        n.nodata = nodata(eng, gg, s, TRUE, args[1])
        status_set(eng, args[2], LOCATION, and_(gg, eq(s, I(0)), or_(ne(args[1], I(CPU)), ne(m.loc, I(CPU)))))
        g1 = and_(gg, eq(s, I(0)), eq(m.loc, I(CPU)))
        eng.oblig("contiguity", m.contig, g1, "copy of %s" % m.name)
        copy_whole(eng, n, m, g1)
        return Ptr(n.handle, I(0))
    return onmem(eng, args[0], g, f, NULL)


def full_bvs(m):
    dims = m.dimlist() + ([I(2)] if m.cplx else [])
    vs = [fresh("c", "i") for d in dims]
    return dims, vs


def copy_whole(eng, dst, src, g):
    if g is FALSE:
        return
    if src.region.sort is None:
        src.region.sort = dst.region.sort or "r"
    if dst.region.sort is None:
        dst.region.sort = src.region.sort
    dims, vs = full_bvs(src)
    rng = [x for v, d in zip(vs, dims) for x in (le(I(0), v), lt(v, d))]
    val = eng.read(eng.mem[src.region], src.region, tuple(vs), g, rng)
    eng.mod_array(dst.region)
    eng.mem[dst.region] = Cont(eng.mem[dst.region], "set", tuple((as_atom(v), I(0), d) for v, d in zip(vs, dims)),
                               g, tuple(vs), val, line=eng.where)


def fill_whole(eng, m, val, g):
    dims, vs = full_bvs(m)
    if m.region.sort is None:
        m.region.sort = "r"
    if callable(val):
        val = val(vs)
    eng.mod_array(m.region)
    if g is TRUE or eng.region_guard(m.region, g):
        if cval(val) == 0:
            eng.mem[m.region] = eng.fresh_base(m.region, m.name, zero=True)
            return
    eng.mem[m.region] = Cont(eng.mem[m.region], "set", tuple((as_atom(v), I(0), d) for v, d in zip(vs, dims)),
                             g, tuple(vs), val, line=eng.where)


def wr_check(eng, m, g, what):
    if not m.region.writable:
        eng.oblig("frame", FALSE, g, "write to read-only %s" % m.name)
    elif not m.isnew:
        eng.oblig("frame", not_(m.ro), g, "write to %s requires it to be writable" % m.name)


@contract("sdp_mem_clear_contents")
def _clear(eng, args, ins, g):
    def f(m, gg):
        s = status_load(eng, args[1], gg)
        g0 = and_(gg, eq(s, I(0)))
        status_set(eng, args[1], LOCATION, and_(g0, ne(m.loc, I(CPU)), ne(m.numel, I(0))))
        g1 = and_(g0, eq(m.loc, I(CPU)))
        wr_check(eng, m, g1, "clear")
        eng.oblig("contiguity", or_(m.contig, eq(m.numel, I(0))), g1, "clear of %s" % m.name)
        if m.spec_ndims != "flat":
            eng.oblig("rank", eq(m.ndims, I(m.spec_ndims)), g1, "clear of %s" % m.name)
        if m.cplx is None:
            raise Unsupported("clear of array of unknown type")
        fill_whole(eng, m, t.const(0, m.region.sort or "r"), g1)
        return UNDEF
    onmem(eng, args[0], g, f, None)
    return UNDEF


@contract("sdp_mem_set_value")
def _setval(eng, args, ins, g):
    def f(m, gg):
        s = status_load(eng, args[2], gg)
        g0 = and_(gg, eq(s, I(0)))
        okt = is_type(m, 2, 4, 8, 36, 40)
        okd = and_(le(I(1), m.ndims), le(m.ndims, I(3)))
        status_set(eng, args[2], RUNTIME, and_(g0, ne(m.loc, I(CPU))))
        g0 = and_(g0, eq(m.loc, I(CPU)))
        status_set(eng, args[2], INVALID, and_(g0, not_(okd)))
        status_set(eng, args[2], DTYPE, and_(g0, okd, not_(okt)))
        status_set(eng, args[2], INVALID, and_(g0, okd, okt, m.ro))
        g1 = and_(g0, okd, okt, not_(m.ro))
        if m.region.sort is None:
            m.region.sort = "r"
        v = t.toreal(args[1]) if m.region.sort == "r" else args[1]
        if m.cplx:
            fill_whole(eng, m, lambda vs: ite(eq(vs[-1], I(0)), v, R(0)), g1)
        else:
            fill_whole(eng, m, v, g1)
        return UNDEF
    onmem(eng, args[0], g, f, None)
    return UNDEF


@contract("sdp_mem_scale_real")
def _scale(eng, args, ins, g):
    def f(m, gg):
        s = status_load(eng, args[2], gg)
        g0 = and_(gg, eq(s, I(0)))
        ok = and_(m.contig, eq(m.loc, I(CPU)), is_type(m, 4, 8, 36, 40))
        status_set(eng, args[2], INVALID, and_(g0, not_(ok)))
        g1 = and_(g0, ok)
        wr_check(eng, m, g1, "scale")
        m.region.sort = "r"
        dims, vs = full_bvs(m)
        rng = [x for v, d in zip(vs, dims) for x in (le(I(0), v), lt(v, d))]
        old = eng.read(eng.mem[m.region], m.region, tuple(vs), g1, rng)
        fill_whole(eng, m, lambda _v: subst(mul(old, args[1]), {as_atom(a): b for a, b in zip(vs, _v)}), g1)
        return UNDEF
    onmem(eng, args[0], g, f, None)
    return UNDEF


@contract("sdp_mem_copy_contents")
def _copyc(eng, args, ins, g):
    def f(d, g1):
        def h(s, g2):
            st = status_load(eng, args[5], g2)
            g3 = and_(g2, eq(st, I(0)))
            loc = or_(ne(d.loc, I(CPU)), ne(s.loc, I(CPU)))
            g3n = and_(g3, ne(s.numel, I(0)), ne(args[4], I(0)))
            status_set(eng, args[5], LOCATION, and_(g3n, loc))
            g3 = and_(g3n, not_(loc))
            wr_check(eng, d, g3, "copy")
            eng.oblig("element-type", eq(d.type, s.type), g3, "copy %s to %s" % (s.name, d.name))
            eng.oblig("contiguity", and_(d.contig, s.contig), g3, "copy %s to %s" % (s.name, d.name))
            if d.spec_ndims != "flat":
                eng.oblig("rank", eq(d.ndims, I(d.spec_ndims)), g3, "copy to %s" % d.name)
            eng.oblig("bounds", and_(le(I(0), args[2]), le(add(args[2], args[4]), d.numel)), g3, "copy into %s" % d.name)
            eng.oblig("bounds", and_(le(I(0), args[3]), le(add(args[3], args[4]), s.numel)), g3, "copy from %s" % s.name)
            whole = cval(args[2]) == 0 and cval(args[3]) == 0 and eng.prove(
                and_(eq(args[4], d.numel), eq(args[4], s.numel)), g3)
            if whole and len(d.dimlist()) == len(s.dimlist()) and d.cplx == s.cplx:
                copy_whole(eng, d, s, g3)
            else:
                eng.mod_array(d.region)
                eng.mem[d.region] = Cont(eng.mem[d.region], "havoc", guard=g3, tag="copied!%d" % next(t._fresh))
            return UNDEF
        return onmem(eng, args[1], g1, h, None)
    onmem(eng, args[0], g, f, None)
    return UNDEF


@contract("sdp_mem_ref_dec", "sdp_mem_free")
def _free(eng, args, ins, g):
    def f(m, gg):
        m.handle.freed = or_(m.handle.freed, gg)
        return UNDEF
    def h(p, g):
        p = psimp(p, g)
        if isinstance(p, PtrIte):
            h(p.a, and_(g, p.c))
            h(p.b, and_(g, not_(p.c)))
        elif isinstance(p, Ptr) and p.r is not None:
            if p.r.kind != "handle":
                raise Unsupported("free of %r" % p)
            m = p.r.obj
            eng.oblig("double-free", not_(p.r.freed), g, m.name)
            if not m.isnew:
                eng.oblig("frame", FALSE, and_(g, not_(m.isnull)), "release of caller's array %s" % m.name)
            p.r.freed = or_(p.r.freed, g)
    h(args[0], g)
    return UNDEF


@contract("sdp_mem_ref_inc")
def _refinc(eng, args, ins, g):
    return args[0]


# ---------------------------------------------------------------- sky coords
class Coord:
    def __init__(self, name):
        self.name = name
        self.isnull = FALSE
        self.c = [t.rvar("%s.c%d" % (name, k)) for k in range(3)]
        self.epoch = t.rvar(name + ".epoch")


@contract("sdp_sky_coord_value")
def _scv(eng, args, ins, g):
    p = psimp(args[0], g)
    if isinstance(p, Ptr) and p.r is not None and isinstance(p.r.obj, Coord):
        k = cval(args[1])
        if k is None:
            raise Unsupported("symbolic coordinate index")
        return p.r.obj.c[int(k)] if 0 <= k < 3 else R(0)
    raise Unsupported("sky coordinate %r" % (p,))


@contract("sdp_sky_coord_epoch")
def _sce(eng, args, ins, g):
    p = psimp(args[0], g)
    return p.r.obj.epoch


@contract("sdp_sky_coord_type")
def _sct(eng, args, ins, g):
    return OpaqueV("string")


# ---------------------------------------------------------------------- libm
def _normsign(x):
    return x.a and x.a[-1][1] < 0


def f_sin(x):
    if cval(x) == 0:
        return R(0)
    if _normsign(x):
        return neg(uf("sin", (neg(x),), "r"))
    return uf("sin", (x,), "r")


def f_cos(x):
    if cval(x) == 0:
        return R(1)
    return uf("cos", (neg(x) if _normsign(x) else x,), "r")


def f_sqrt(x):
    c = cval(x)
    if c is not None and c >= 0:
        import math
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return R(t.Fraction(n, d))
        return R(t.Fraction(math.sqrt(float(c))))
    return uf("sqrt", (x,), "r")


def f_fabs(x):
    c = cval(x)
    if c is not None:
        return R(abs(c))
    return uf("fabs", (neg(x) if _normsign(x) else x,), "r")


def f_exp(x):
    return R(1) if cval(x) == 0 else uf("exp", (x,), "r")


def f_pow(x, y):
    c = cval(y)
    cx = cval(x)
    if c is not None and c.denominator == 1 and 0 <= c <= 16:
        return t.power(x, int(c))
    if c is not None and c.denominator == 1 and -8 <= c < 0:
        return t.inv(t.power(x, int(-c)))
    if cx is not None and c is not None and cx > 0:
        return R(t.Fraction(float(cx) ** float(c)))
    if c == t.Fraction(1, 2):
        return f_sqrt(x)
    if c == t.Fraction(3, 2):
        return mul(x, f_sqrt(x))
    return uf("pow", (x, y), "r")


def f_tan(x):
    return t.rdiv(f_sin(x), f_cos(x))


def odd(name):
    def f(x):
        if cval(x) == 0:
            return R(0)
        if _normsign(x):
            return neg(uf(name, (neg(x),), "r"))
        return uf(name, (x,), "r")
    t.SIMPLIFY_UF[name] = lambda a, s: f(a[0])
    return f


t.SIMPLIFY_UF.update({"sin": lambda a, s: f_sin(a[0]), "cos": lambda a, s: f_cos(a[0]),
                      "sqrt": lambda a, s: f_sqrt(a[0]), "fabs": lambda a, s: f_fabs(a[0]),
                      "exp": lambda a, s: f_exp(a[0]), "pow": lambda a, s: f_pow(*a)})

M1 = {"sin": f_sin, "cos": f_cos, "sqrt": f_sqrt, "fabs": f_fabs, "exp": f_exp, "tan": f_tan,
      "asin": odd("asin"), "atan": odd("atan"), "acos": lambda x: uf("acos", (x,), "r"),
      "log": lambda x: uf("log", (x,), "r"), "log2": lambda x: uf("log2", (x,), "r"),
      "log10": lambda x: uf("log10", (x,), "r"), "sinh": odd("sinh"), "cosh": lambda x: uf("cosh", (x,), "r"),
      "floor": lambda x: t.toreal(t.toint("floor", x)), "ceil": lambda x: t.toreal(t.toint("ceil", x)),
      "round": lambda x: t.toreal(t.toint("round", x)), "rint": lambda x: t.toreal(t.toint("rint", x)),
      "nearbyint": lambda x: t.toreal(t.toint("rint", x)), "trunc": lambda x: t.toreal(t.toint("trunc", x))}
EXACT = ("fabs", "floor", "ceil", "round", "rint", "nearbyint", "trunc")


def rmax(a, b):
    return ite(le(b, a), a, b)


def rmin(a, b):
    return ite(le(a, b), a, b)


M2 = {"pow": f_pow, "hypot": lambda a, b: f_sqrt(add(mul(a, a), mul(b, b))), "fmax": rmax, "fmin": rmin,
      "atan2": lambda a, b: uf("atan2", (a, b), "r"), "fmod": lambda a, b: uf("fmod", (a, b), "r"),
      "maxnum": rmax, "minnum": rmin, "copysign": lambda a, b: ite(le(R(0), b), f_fabs(a), neg(f_fabs(a)))}


def isf32(ins):
    ty = ins.ty if ins is not None else None
    return ty is not None and ty.k == "fp" and ty.a[0] == "float"


def _mkm1(name, f):
    def c(eng, args, ins, g):
        v = args[0]
        if isinstance(v, Agg):
            r = Agg([f(eng.fpv(x)) for x in v.e])
        else:
            r = f(eng.fpv(v))
        if isf32(ins) and name not in EXACT:
            r = eng.rnd32(r)
        return r
    for n in (name, name + "f", "llvm.%s.f64" % name, "llvm.%s.f32" % name):
        C[n] = c


def _mkm2(name, f):
    def c(eng, args, ins, g):
        r = f(eng.fpv(args[0]), eng.fpv(args[1]))
        if isf32(ins) and name not in ("fmax", "fmin", "maxnum", "minnum", "copysign"):
            r = eng.rnd32(r)
        return r
    for n in (name, name + "f", "llvm.%s.f64" % name, "llvm.%s.f32" % name):
        C[n] = c


for _n, _f in M1.items():
    _mkm1(_n, _f)
for _n, _f in M2.items():
    _mkm2(_n, _f)


@contract("lround", "lrint", "llround", "lroundf")
def _lround(eng, args, ins, g):
    return t.toint("round" if True else "rint", eng.fpv(args[0]))


@contract("llvm.powi.f64.i32")
def _powi(eng, args, ins, g):
    return f_pow(eng.fpv(args[0]), t.toreal(args[1]))


@contract("llvm.fmuladd.f64", "llvm.fma.f64", "llvm.fmuladd.f32", "fma")
def _fma(eng, args, ins, g):
    a, b, c = [eng.fpv(x) for x in args]
    return add(mul(a, b), c)


def cmulv(a, b, c, d):
    return Agg([sub(mul(a, c), mul(b, d)), add(mul(a, d), mul(b, c))])


def cdivv(a, b, c, d):
    q = t.inv(add(mul(c, c), mul(d, d)))
    return Agg([mul(add(mul(a, c), mul(b, d)), q), mul(sub(mul(b, c), mul(a, d)), q)])


@contract("__muldc3", "__mulsc3")
def _cm(eng, args, ins, g):
    return cmulv(*[eng.fpv(x) for x in args])


@contract("__divdc3", "__divsc3")
def _cd(eng, args, ins, g):
    return cdivv(*[eng.fpv(x) for x in args])


@contract("cabs", "cabsf")
def _cabs(eng, args, ins, g):
    a, b = (args[0].e if isinstance(args[0], Agg) else args)
    return M2["hypot"](eng.fpv(a), eng.fpv(b))


@contract("cexp", "cexpf")
def _cexp(eng, args, ins, g):
    a, b = [eng.fpv(x) for x in (args[0].e if isinstance(args[0], Agg) else args)]
    e = f_exp(a)
    return Agg([mul(e, f_cos(b)), mul(e, f_sin(b))])


@contract("sincos")
def _sincos(eng, args, ins, g):
    x = eng.fpv(args[0])
    eng.store(args[1], f_sin(x), F64, g)
    eng.store(args[2], f_cos(x), F64, g)
    return UNDEF


def cpow(a, b, n):
    """complex number to an integer power"""
    return uf("cpow_re", (a, b, n), "r"), uf("cpow_im", (a, b, n), "r")


@contract("_ZSt3powIdESt7complexIT_ERKS2_i", "_ZSt3powIfESt7complexIT_ERKS2_i")
def _cpow(eng, args, ins, g):
    single = "If" in ins.x.get("name", "") if isinstance(ins.x, dict) else False
    ty = ir.Ty("fp", "float") if single else F64
    z = [eng.load(eng.ptr_add(args[0], I(k)), ty, g) for k in ((0, 4) if single else (0, 8))]
    return Agg(list(cpow(eng.fpv(z[0]), eng.fpv(z[1]), eng.numval(args[1]))))


@contract("llvm.fshl.i32", "llvm.fshl.i64")
def _fshl(eng, args, ins, g):
    """rotation (both words the same)"""
    k = cval(args[2])
    if args[0] is not args[1] or k is None:
        raise Unsupported("funnel shift")
    return uf("rotl", (args[0], args[2]), "i")


def _imm(f):
    def c(eng, args, ins, g):
        return f(eng.numval(args[0]), eng.numval(args[1]))
    return c


for w in (8, 32, 64):
    C["llvm.smax.i%d" % w] = C["llvm.umax.i%d" % w] = _imm(rmax)
    C["llvm.smin.i%d" % w] = C["llvm.umin.i%d" % w] = _imm(rmin)
    C["llvm.abs.i%d" % w] = lambda eng, args, ins, g: ite(le(I(0), args[0]), args[0], neg(args[0]))
C["abs"] = C["labs"] = lambda eng, args, ins, g: ite(le(I(0), args[0]), args[0], neg(args[0]))


@contract("llvm.umul.with.overflow.i64")
def _umulo(eng, args, ins, g):
    eng.assumed.add("allocation sizes do not overflow 64 bits")
    return Agg([mul(args[0], args[1]), FALSE])


@contract("llvm.assume", "llvm.dbg.value", "llvm.dbg.declare", "llvm.experimental.noalias.scope.decl",
          "llvm.lifetime.end.p0", "llvm.stackrestore.p0", "llvm.stackrestore",
          "__cxa_guard_release", "llvm.prefetch.p0", "__cxa_free_exception")
def _noeff(eng, args, ins, g):
    return UNDEF


@contract("llvm.lifetime.start.p0")
def _life(eng, args, ins, g):
    p = args[-1]
    if isinstance(p, Ptr) and p.r is not None:
        for s in eng.privs:
            s.add(p.r)
    return UNDEF


@contract("vdv_omp_for")
def _omp_for(eng, args, ins, g):
    c = args[1]
    eng.omp_cond[id(ins)] = ne(c, I(0))
    return I(0)


@contract("vdv_omp_single", "vdv_omp_region")
def _omp_single(eng, args, ins, g):
    raise Unsupported("OpenMP directive outside the verified forms")


@contract("llvm.stacksave.p0", "llvm.stacksave")
def _ss(eng, args, ins, g):
    return UNDEF


@contract("llvm.is.constant.i64", "llvm.is.constant.i32")
def _isc(eng, args, ins, g):
    return FALSE


@contract("llvm.expect.i64", "llvm.expect.i1")
def _exp(eng, args, ins, g):
    return args[0]


@contract("abort", "__assert_fail", "_ZSt20__throw_length_errorPKc", "_ZSt17__throw_bad_allocv",
          "_ZSt28__throw_bad_array_new_lengthv", "_ZSt20__throw_out_of_rangePKc", "exit", "__cxa_throw",
          "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt19__throw_logic_errorPKc")
def _abort(eng, args, ins, g):
    eng.oblig("abort", FALSE, g, "unreachable abort/throw")
    return UNDEF


# ------------------------------------------------------------------ strings
def _string(eng, p, g):
    """(region, length) of a zero-terminated string"""
    p = psimp(p, g)
    if not isinstance(p, Ptr) or p.r is None or not getattr(p.r, "strlen", None) is not None or cval(p.off) != 0:
        raise Unsupported("string argument %r" % (p,))
    eng.null_check(p, g)
    return p, p.r.strlen


@contract("strlen")
def _strlen(eng, args, ins, g):
    return _string(eng, args[0], g)[1]


@contract("strcpy")
def _strcpy(eng, args, ins, g):
    p, n = _string(eng, args[1], g)
    memcpy_(eng, args[0], p, add(n, I(1)), g)
    return args[0]


@contract("strdup")
def _strdup(eng, args, ins, g):
    p, n = _string(eng, args[0], g)
    d = _malloc(eng, [add(n, I(1))], None, g)
    memcpy_(eng, d, p, add(n, I(1)), g)
    return d


# ------------------------------------------------------------------ raw memory
@contract("malloc", "_Znwm", "_Znam", "calloc", "aligned_alloc", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t",
          "_ZnwmSt11align_val_t")
def _malloc(eng, args, ins, g):
    name = ins.x["callee"].v if ins is not None and isinstance(ins.x, dict) else "malloc"
    size = mul(args[0], args[1]) if name == "calloc" else (args[1] if name == "aligned_alloc" else args[0])
    eng.oblig("create-size", le(I(0), size), g, "allocation size is not negative")
    n = "heap!%d" % next(t._fresh)
    c = cval(size)
    zero = name == "calloc"
    if c is not None and c <= 4096:
        r = Region(n, "cells", size=size, local=True)
        r.zero = zero
        eng.mem[r] = {}
    else:
        r = Region(n, "array", size=size, local=True)
        eng.mem[r] = eng.fresh_base(r, n, zero=zero)
    r.heap = True
    r.freed = FALSE
    eng.heap.append((r, g))
    eng.assumed.add("memory allocation succeeds")
    return Ptr(r, I(0))


@contract("free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t")
def _cfree(eng, args, ins, g):
    p = psimp(args[0], g)
    if isinstance(p, PtrIte):
        _cfree(eng, [p.a], ins, and_(g, p.c))
        _cfree(eng, [p.b], ins, and_(g, not_(p.c)))
        return UNDEF
    if not isinstance(p, Ptr):
        if isinstance(p, (UndefV, OpaqueV)):
            raise Unsupported("free of %r" % (p,))
        return UNDEF
    if p.r is None:
        return UNDEF
    if not p.r.heap:
        eng.oblig("bad-free", FALSE, g, "free of %s" % p.r.name)
        return UNDEF
    eng.oblig("double-free", and_(not_(p.r.freed), eq(p.off, I(0))), g, p.r.name)
    p.r.freed = or_(p.r.freed, g)
    return UNDEF


def const_span(eng, p, n, g):
    return cval(p.off) is not None and cval(n) is not None


@contract("llvm.memset.p0.i64", "memset")
def _memset(eng, args, ins, g):
    memset_(eng, args[0], args[1], args[2], g)
    return args[0]


def memset_(eng, p, v, n, g):
    p = psimp(p, g)
    if isinstance(p, PtrIte):
        memset_(eng, p.a, v, n, and_(g, p.c))
        memset_(eng, p.b, v, n, and_(g, not_(p.c)))
        return
    if cval(n) == 0:
        return
    if not isinstance(p, Ptr) or p.r is None:
        eng.oblig("null-deref", eq(n, I(0)), g, "memset through null")
        return
    eng.null_check(p, g)
    r = p.r
    if not r.writable:
        eng.oblig("frame", FALSE, g, "write to read-only %s" % r.name)
        return
    cv = cval(v)
    if r.kind == "cells":
        if cval(p.off) is None or cval(n) is None or cv is None:
            raise Unsupported("memset of symbolic span of %s" % r.name)
        o, c = int(cval(p.off)), int(cval(n))
        if r.size is not None and o + c > int(cval(r.size)):
            eng.oblig("bounds", FALSE, g, "memset of %s" % r.name)
            return
        cells = dict(eng.mem[r])
        for key in list(cells):
            if key[0] < o + c and o < key[0] + key[1]:
                z = 0 if cv == 0 else None
                old = cells[key]
                if z is None:
                    cells[key] = OpaqueV("memset byte pattern")
                elif isinstance(old, T):
                    cells[key] = vite(g, t.B(False) if old.s == "b" else t.const(0, old.s), old)
                else:
                    cells[key] = vite(g, NULL, old) if isinstance(old, (Ptr, PtrIte)) else (
                        I(0) if not isinstance(old, Agg) else old)
                for s in eng.modified:
                    s.add(("c", r, key[0], key[1], I64 if key[1] == 8 else I32))
        if cv == 0:
            zr = getattr(r, "zeroed", [])
            r.zeroed = zr + [(o, o + c)]
            if o == 0 and r.size is not None and c == int(cval(r.size)):
                r.zero = True
            else:
                ty = getattr(r, "ty", None)
                for q in range(o, o + c, 8):
                    if c % 8 == 0 and o % 8 == 0 and not any(k[0] < q + 8 and q < k[0] + k[1] for k in cells):
                        cells[(q, 8)] = I(0)
        eng.mem[r] = cells
        return
    if r.kind != "array":
        raise Unsupported("memset of %s" % r.name)
    if cv != 0:
        raise Unsupported("memset with non-zero byte")
    whole = eng.is_whole(r, p.off, n, g)
    eng.mod_array(r)
    if r.mem is not None:
        m = r.mem
        wr_check(eng, m, g, "memset")
        if whole:
            eng.oblig("contiguity", m.contig, g, "memset of %s" % m.name)
            fill_whole(eng, m, t.const(0, r.sort or "r"), g)
            return
        raise Unsupported("partial memset of %s" % r.name)
    if whole:
        if eng.region_guard(r, g):
            eng.mem[r] = eng.fresh_base(r, r.name, zero=True)
            return
    es = r.esize
    if es is None:
        if whole:
            eng.mem[r] = eng.fresh_base(r, r.name, zero=True)
            eng.assumed.add("conditional memset of an otherwise unused array")
            return
        es = 8 if all(c % 8 == 0 for m_, c in p.off.a) else 4
        r.esize = es
    k = fresh("c", "i")
    q = eng.exact_div(p.off, es)
    cnt = eng.exact_div(n, es)
    if q is None or cnt is None:
        raise Unsupported("memset span of %s" % r.name)
    if r.sort is None:
        r.sort = "r"
    if r.dims is not None and len(r.dims) != 1:
        raise Unsupported("partial memset of %s" % r.name)
    rn = eng.exact_div(r.size, es)
    eng.oblig("bounds", and_(le(I(0), q), le(add(q, cnt), rn)), and_(g, lt(I(0), cnt)), "memset %s" % r.name)
    eng.mem[r] = Cont(eng.mem[r], "set", ((as_atom(k), I(0), cnt),), g, (add(q, k),), t.const(0, r.sort),
                      line=eng.where)


@contract("llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64", "memcpy", "memmove")
def _memcpy(eng, args, ins, g):
    memcpy_(eng, args[0], args[1], args[2], g)
    return args[0]


def memcpy_(eng, d, s, n, g):
    d, s = psimp(d, g), psimp(s, g)
    if isinstance(d, PtrIte):
        memcpy_(eng, d.a, s, n, and_(g, d.c))
        memcpy_(eng, d.b, s, n, and_(g, not_(d.c)))
        return
    if isinstance(s, PtrIte):
        memcpy_(eng, d, s.a, n, and_(g, s.c))
        memcpy_(eng, d, s.b, n, and_(g, not_(s.c)))
        return
    if cval(n) == 0:
        return
    if not isinstance(d, Ptr) or not isinstance(s, Ptr) or d.r is None or s.r is None:
        eng.oblig("null-deref", eq(n, I(0)), g, "memcpy through null")
        return
    eng.null_check(d, g)
    eng.null_check(s, g)
    if s.r.kind == "cells" and d.r.kind == "cells":
        if not (const_span(eng, d, n, g) and const_span(eng, s, n, g)):
            raise Unsupported("memcpy of symbolic span")
        do, so, c = int(cval(d.off)), int(cval(s.off)), int(cval(n))
        for r, o in ((d.r, do), (s.r, so)):
            if r.size is not None and (o < 0 or o + c > int(cval(r.size))):
                eng.oblig("bounds", FALSE, g, "memcpy %s" % r.name)
                return
        items = [(k, v) for k, v in eng.mem[s.r].items() if so <= k[0] and k[0] + k[1] <= so + c]
        if getattr(s.r, "zero", False) and not items:
            memset_(eng, d, I(0), n, g)
            return
        for (o, sz), v in items:
            ty = I64 if sz == 8 else (I32 if sz == 4 else I8)
            if isinstance(v, T) and v.s == "r":
                ty = F64 if sz == 8 else ir.Ty("fp", "float")
            elif isinstance(v, (Ptr, PtrIte)):
                ty = PTR
            eng.store_cell(d.r, do + o - so, v, ty, g)
        return
    if cval(n) is not None and int(cval(n)) <= 64 and (s.r.kind == "array" or d.r.kind == "array"):
        def esz(r):
            if r.esize:
                return r.esize
            if r.mem is not None and cval(r.mem.type) is not None:
                return 8 if int(cval(r.mem.type)) & 8 else 4
            if r.mem is not None and r.mem.cplx and cval(n) == 8:
                return 4
            if r.mem is not None and eng.prove(or_(eq(r.mem.type, I(4)), eq(r.mem.type, I(2)), eq(r.mem.type, I(36))), g):
                return 4
            return None
        es = esz(s.r) or esz(d.r) or 8
        ty = F64 if es == 8 else ir.Ty("fp", "float")
        if (s.r.sort or d.r.sort) == "i":
            ty = I64 if es == 8 else I32
        if int(cval(n)) % es == 0:
            vals = [eng.load(eng.ptr_add(s, I(o)), ty, g) for o in range(0, int(cval(n)), es)]
            for o, v in zip(range(0, int(cval(n)), es), vals):
                eng.store(eng.ptr_add(d, I(o)), v, ty, g)
            return
    if s.r.kind == "array" and d.r.kind == "array":
        es = s.r.esize or d.r.esize
        if s.r.mem is not None and d.r.mem is not None and s.r.mem.spec_ndims is not None:
            a, b = d.r.mem, s.r.mem
            if eng.is_whole(d.r, d.off, n, g) and eng.is_whole(s.r, s.off, n, g):
                wr_check(eng, a, g, "memcpy")
                eng.oblig("contiguity", and_(a.contig, b.contig), g, "memcpy %s" % a.name)
                copy_whole(eng, a, b, g)
                return
        if s.r.mem is None and d.r.mem is None and es:
            d.r.esize = s.r.esize = es
            sort = s.r.sort or d.r.sort or "r"
            d.r.sort = s.r.sort = sort
            k = fresh("c", "i")
            q, q2, cnt = eng.exact_div(d.off, es), eng.exact_div(s.off, es), eng.exact_div(n, es)
            if None not in (q, q2, cnt) and (s.r.dims is None or len(s.r.dims) == 1) and (
                    d.r.dims is None or len(d.r.dims) == 1):
                for r, o in ((d.r, q), (s.r, q2)):
                    eng.oblig("bounds", and_(le(I(0), o), le(add(o, cnt), eng.exact_div(r.size, es))),
                              and_(g, lt(I(0), cnt)), "memcpy %s" % r.name)
                val = eng.read(eng.mem[s.r], s.r, (add(q2, k),), g, [le(I(0), k), lt(k, cnt)])
                eng.mod_array(d.r)
                eng.mem[d.r] = Cont(eng.mem[d.r], "set", ((as_atom(k), I(0), cnt),), g, (add(q, k),), val,
                                    line=eng.where)
                return
    # element-wise small copies between an array and cells
    c = cval(n)
    if c is not None and c <= 64:
        a = s.r if s.r.kind == "array" else d.r
        es = 8
        if a.mem is not None:
            if eng.prove(or_(eq(a.mem.type, I(4)), eq(a.mem.type, I(2)), eq(a.mem.type, I(36))), g):
                es = 4
        elif a.esize:
            es = a.esize
        ty = ir.Ty("fp", "double" if es == 8 else "float")
        if a.sort == "i":
            ty = I64 if es == 8 else I32
        vals = [eng.load(eng.ptr_add(s, I(o)), ty, g) for o in range(0, int(c), es)]
        for o, v in zip(range(0, int(c), es), vals):
            eng.store(eng.ptr_add(d, I(o)), v, ty, g)
        return
    raise Unsupported("memcpy %s <- %s" % (d.r.name, s.r.name))


@contract("omp_get_thread_num")
def _otn(eng, args, ins, g):
    return I(0)


@contract("omp_get_num_threads", "omp_get_max_threads")
def _ont(eng, args, ins, g):
    return I(1)
