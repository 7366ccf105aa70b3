"""Array descriptors describe exactly the memory they own (sdp_mem.cpp itself)."""
import contracts
import ir
from contracts import type_size
from engine import Ptr, NULL, Region, Cont, MemObj
from script import *
from terms import ite, mk_sum, mk_prod, as_atom, fresh
import terms as t

MOD = "utility/sdp_mem.cpp"
INLINE = {"inline": ["sdp_mem_*"], "decide": True}
TYPES = [1, 2, 4, 8, 36, 40]
I64 = ir.Ty("int", 64)


def dims(s, name, nd):
    """array of nd 64-bit integers; returns pointer and element function"""
    p = s.buffer(name, mul(I(8), nd), 8, "i")
    p.r.dims = [nd]
    p.r.writable = False
    return p, lambda k: s.eng.base_read(s.eng.mem[p.r], p.r, (k,)) if False else elem(s, p, k)


def elem(s, p, k):
    save, s.eng.dry = s.eng.dry, 1      # no obligations: specification read
    try:
        return s.eng.load(s.eng.ptr_add(p, mul(I(8), k)), I64, TRUE)
    finally:
        s.eng.dry = save


def prod(lo, hi, f):
    k = fresh("k", "i")
    return mk_prod(as_atom(k), lo, hi, f(k))


def count(lo, hi, f):
    k = fresh("k", "i")
    return mk_sum(as_atom(k), lo, hi, ite(f(k), I(1), I(0)))


def describe(s, m, who, data, ty, loc, nd, shape, stride, numel, contig, ro=I(0)):
    """every query of the descriptor m returns what its parameters imply"""
    d = t.var("dim", "i")
    ins = and_(le(I(0), d), lt(d, nd))
    q = lambda what, a, b, g=TRUE: s.equal("result", "%s: %s" % (who, what), a, b, g)
    q("data", s.call("sdp_mem_data", m), data)
    q("data (const)", s.call("sdp_mem_data_const", m), data)
    q("type", s.call("sdp_mem_type", m), ty)
    q("location", s.call("sdp_mem_location", m), loc)
    q("number of dimensions", s.call("sdp_mem_num_dims", m), nd)
    q("extent of a dimension", s.call("sdp_mem_shape_dim", m, d), shape(d), ins)
    q("extent outside the dimensions", s.call("sdp_mem_shape_dim", m, d), I(0), not_(ins))
    q("stride of a dimension", s.call("sdp_mem_stride_bytes_dim", m, d), stride(d), ins)
    q("stride outside the dimensions", s.call("sdp_mem_stride_bytes_dim", m, d), I(0), not_(ins))
    q("number of elements", s.call("sdp_mem_num_elements", m), numel)
    q("contiguity", s.call("sdp_mem_is_c_contiguous", m), contig)
    q("read-only", s.call("sdp_mem_is_read_only", m), ro)


def params(s, nd):
    ty, loc = s.int("type"), s.int("location")
    sp, shape = dims(s, "shape", nd)
    s.assume(or_(*[eq(ty, I(x)) for x in TYPES]))
    return ty, loc, sp, shape


def wrapper(given):
    def body(s):
        nd = s.int("num_dims", 1)
        ty, loc, sp, shape = params(s, nd)

        data = s.buffer("data", s.int("bytes", 0), 1)
        st = s.status()
        if given:
            tp, stride = dims(s, "stride", nd)
        else:
            tp = NULL
        below = lambda d: prod(I(0), sub(sub(nd, I(1)), d), lambda q: shape(sub(sub(nd, I(1)), q)))     # elements of the dimensions after d
        es = s.call("sdp_mem_type_size", ty)
        std = lambda d: mul(below(d), es)
        if not given:
            stride = std
        m = s.call("sdp_mem_create_wrapper", data, ty, loc, nd, sp, tp, st)
        numel = prod(I(0), nd, lambda q: shape(sub(sub(nd, I(1)), q)))
        odd = count(I(0), nd, lambda q: ne(stride(sub(sub(nd, I(1)), q)), std(sub(sub(nd, I(1)), q)))) if given else I(0)
        describe(s, m, "wrapper", data, ty, loc, nd, shape, stride, numel, ite(lt(I(0), odd), I(0), I(1)))
        s.equal("result", "no error is reported", s.cell(st), I(0))
        s.call("sdp_mem_free", m)
        s.released()
        s.prove("result", "the wrapped memory is not released", not_(data.r.freed) if data.r.freed is not None else TRUE)
    return body


SPECS = [
    Script("sdp_mem_create_wrapper", MOD, wrapper(0), opts=INLINE, label="contiguous", harness="mem.cpp"),
    Script("sdp_mem_create_wrapper", MOD, wrapper(1), opts=INLINE, label="strides", harness="mem.cpp"),
]


def create(mode):
    def body(s):
        nd = s.int("num_dims", 1)
        ty, loc, sp, shape = params(s, nd)
        s.assume(ne(loc, I(0)) if mode == "elsewhere" else eq(loc, I(0)))
        st = s.status()
        es = s.call("sdp_mem_type_size", ty)
        numel = prod(I(0), nd, lambda q: shape(sub(sub(nd, I(1)), q)))
        below = lambda d: prod(I(0), sub(sub(nd, I(1)), d), lambda q: shape(sub(sub(nd, I(1)), q)))
        s.assume(eq(numel, I(0)) if mode == "empty" else lt(I(0), numel))
        m = s.call("sdp_mem_create", ty, loc, nd, sp, st)
        data = s.resolve(s.call("sdp_mem_data", m))
        if mode == "host":
            s.equal("result", "no error is reported", s.cell(st), I(0))
            if not (isinstance(data, Ptr) and data.r is not None and data.r.heap):
                s.prove("result", "the array owns an allocation", FALSE)
                return
            s.equal("result", "it owns exactly its extents times its element size", data.r.size, mul(numel, es))
            s.prove("result", "starting at its first byte", eq(data.off, I(0)))
            k = t.var("byte", "i")
            s.assume(le(I(0), k), lt(k, mul(numel, es)))
            s.equal("result", "all cleared", s.eng.load(s.eng.ptr_add(data, k), ir.Ty("int", 8), TRUE), I(0))
            s.alive(data, "the memory lives as long as the array")
            describe(s, m, "array", data, ty, loc, nd, shape, lambda d: mul(below(d), es), numel, I(1))
        else:
            s.equal("result", "no data is given", data, NULL)
            if mode == "empty":
                s.equal("result", "no error is reported", s.cell(st), I(0))
                describe(s, m, "empty array", NULL, ty, loc, nd, shape, lambda d: mul(below(d), es), I(0), I(0), I(1))
            else:
                s.prove("result", "memory that is not on the host is refused", ne(s.cell(st), I(0)))
        s.call("sdp_mem_ref_dec", m)
        s.released()
    return body


def refs(s):
    """n references: the array lives until the last is dropped"""
    nd = s.int("num_dims", 1)
    ty, loc, sp, shape = params(s, nd)
    s.assume(eq(loc, I(0)))
    numel = prod(I(0), nd, lambda q: shape(sub(sub(nd, I(1)), q)))
    s.assume(lt(I(0), numel))
    st = s.status()
    m = s.call("sdp_mem_create", ty, loc, nd, sp, st)
    before = dict(s.eng.mem[m.r])
    s.equal("result", "taking a reference returns the handle", s.call("sdp_mem_ref_inc", m), m)
    after = s.eng.mem[m.r]
    ch = [k for k in after if after[k] is not before.get(k) and not (isinstance(after[k], T) and after[k] is before.get(k))]
    s.prove("result", "taking a reference changes the reference count only", TRUE if len(ch) == 1 else FALSE)
    c = ch[0]
    n = s.int("references", 1)
    s.eng.mem[m.r] = dict(after)
    s.equal("result", "the count starts at one", before[c], I(1))
    s.equal("result", "and goes up by one", after[c], I(2))
    for fn, inc in (("sdp_mem_ref_inc", 1), ("sdp_mem_free", -1), ("sdp_mem_ref_dec", -1)):
        s.eng.mem[m.r][c] = n
        g = TRUE if inc > 0 else lt(I(1), n)
        save = {r: r.freed for r, _ in s.eng.heap}
        mem = {r: dict(x) if isinstance(x, dict) else x for r, x in s.eng.mem.items()}
        s.eng.call_function(s.mod.funcs[fn], [m], g)
        s.equal("result", "%s with other references left counts by one" % fn, s.eng.mem[m.r][c], add(n, I(inc)), g)
        for r, _ in s.eng.heap:
            s.prove("leak", "%s with other references left releases nothing" % fn, t.implies(g, not_(r.freed)))
            r.freed = save[r]
        s.eng.mem.update(mem)
    s.eng.mem[m.r] = dict(s.eng.mem[m.r])
    s.eng.mem[m.r][c] = I(1)
    s.call("sdp_mem_free", m)
    s.released("dropping the last reference releases everything")
    s.call("sdp_mem_free", NULL)
    s.call("sdp_mem_ref_dec", NULL)
    s.equal("result", "a null handle has no references", s.call("sdp_mem_ref_inc", NULL), NULL)


def source(s, given=True, nd=None):
    """an array of the caller's, of any layout"""
    nd = nd if nd is not None else s.int("num_dims", 1)
    ty, loc, sp, shape = params(s, nd)
    data = s.buffer("data", s.int("bytes", 0), 1)
    st = s.status()
    tp, stride = dims(s, "stride", nd) if given else (NULL, None)
    m = s.call("sdp_mem_create_wrapper", data, ty, loc, nd, sp, tp, st)
    return m, ty, loc, nd, shape, stride, data, st


def contiguous(nd, shape, stride, es):
    below = lambda d: prod(I(0), sub(sub(nd, I(1)), d), lambda q: shape(sub(sub(nd, I(1)), q)))
    odd = count(I(0), nd, lambda q: ne(stride(sub(sub(nd, I(1)), q)), mul(below(sub(sub(nd, I(1)), q)), es)))
    return ite(lt(I(0), odd), I(0), I(1))


def alias(s):
    m, ty, loc, nd, shape, stride, data, st = source(s)
    es = s.call("sdp_mem_type_size", ty)
    a = s.call("sdp_mem_create_alias", m)
    numel = prod(I(0), nd, lambda q: shape(sub(sub(nd, I(1)), q)))
    describe(s, a, "alias", data, ty, loc, nd, shape, stride, numel, contiguous(nd, shape, stride, es))
    s.call("sdp_mem_free", m)
    describe(s, a, "alias after its source is released", data, ty, loc, nd, shape, stride, numel, contiguous(nd, shape, stride, es))
    s.call("sdp_mem_free", a)
    s.released()
    s.prove("result", "the aliased memory is not released", not_(data.r.freed) if data.r.freed is not None else TRUE)


def slice_(ok):
    def body(s):
        m, ty, loc, nd, shape, stride, data, st = source(s)
        es = s.call("sdp_mem_type_size", ty)
        ns = s.int("num_dims_slice", 1)
        op, off = dims(s, "offsets", nd)
        hp, ext = dims(s, "slice_shape", ns)
        lead = sub(nd, ns)
        d, e = t.var("d", "i"), t.var("e", "i")
        s.assume(le(I(0), d), lt(d, nd), le(I(0), e), lt(e, ns), le(ns, nd) if ok else TRUE)
        if ok:
            s.assume_forall(lambda i: t.implies(and_(le(I(0), i), lt(i, nd)), and_(le(I(0), off(i)), lt(off(i), shape(i)))))
            s.assume_forall(lambda i: t.implies(and_(le(I(0), i), lt(i, ns)), and_(
                le(I(0), ext(sub(sub(ns, I(1)), i))),
                le(add(off(sub(sub(nd, I(1)), i)), ext(sub(sub(ns, I(1)), i))), shape(sub(sub(nd, I(1)), i))))))
        v = s.call("sdp_mem_create_wrapper_for_slice", m, op, ns, hp, st)
        good = eq(s.cell(st), I(0))
        if ok:
            s.equal("accept", "a slice inside its parent is accepted", s.cell(st), I(0))
        s.instantiate(d, e, sub(sub(nd, I(1)), d), sub(sub(ns, I(1)), e))
        v0, v = v, s.resolve(v, good)
        if not isinstance(v, Ptr) or v.r is None:
            s.prove("result", "a slice is returned", FALSE, good)
            return
        s.prove("accept", "a slice has no more dimensions than its parent", le(ns, nd), good)
        s.prove("accept", "a slice starts inside its parent", and_(le(I(0), off(d)), lt(off(d), shape(d))), good)
        s.prove("accept", "a slice ends inside its parent",
                and_(le(I(0), ext(e)), le(add(off(add(e, lead)), ext(e)), shape(add(e, lead)))), good)
        where = t.mk_sum(as_atom(fresh("k", "i")), I(0), nd, I(0))
        k = fresh("k", "i")
        where = mk_sum(as_atom(k), I(0), nd, mul(off(k), stride(k)))
        if not ok:
            s.prove("accept", "a refused slice is not returned", TRUE if s.resolve(v0, not_(good)).r is None else FALSE, not_(good))
            s.call("sdp_mem_free", v0)
            s.call("sdp_mem_free", m)
            s.released()
            return
        numel = prod(I(0), ns, lambda q: ext(sub(sub(ns, I(1)), q)))
        s.assume(good)
        describe(s, v, "slice", Ptr(data.r, where), ty, loc, ns, ext, lambda i: stride(add(i, lead)), numel,
                 contiguous(ns, ext, lambda i: stride(add(i, lead)), es))
        s.call("sdp_mem_free", v)
        s.equal("result", "releasing a slice keeps its parent", s.call("sdp_mem_data", m), data)
        s.call("sdp_mem_free", m)
        s.released()
        s.prove("result", "the parent's memory is not released", not_(data.r.freed) if data.r.freed is not None else TRUE)
    return body


def S(fn, body, label, **kw):
    SPECS.append(Script(fn, MOD, body, opts=INLINE, label=label, harness="mem.cpp", **kw))


for q_ in ("host", "empty", "elsewhere"):
    S("sdp_mem_create", create(q_), q_)
S("sdp_mem_free", refs, "references")
S("sdp_mem_create_alias", alias, "any layout")
S("sdp_mem_create_wrapper_for_slice", slice_(0), "bounds")
S("sdp_mem_create_wrapper_for_slice", slice_(1), "accept")


# ------------------------------------------------- the contracts other functions are checked against
GETTERS = ["data", "data_const", "is_c_contiguous", "is_floating_point", "is_complex", "is_complex4", "is_double", "is_read_only",
           "location", "num_dims", "num_elements", "type"]


def small(s, n, nm="", ty=None):
    """a wrapper of n dimensions, and the abstract view contracts give of it"""
    eng = s.eng
    loc, ro = s.int("location" + nm), s.int("read_only" + nm)
    if ty is None:
        ty = s.int("type" + nm)
        s.assume(or_(*[eq(ty, I(x)) for x in TYPES]))
    else:
        ty = I(ty)
    sh = [s.int("n%d%s" % (k, nm), 0) for k in range(n)]
    sd = [s.int("s%d%s" % (k, nm)) for k in range(n)]
    es = s.call("sdp_mem_type_size", ty)
    data = s.buffer("data" + nm, s.int("bytes" + nm, 0), 1)
    st = s.status()
    m = s.call("sdp_mem_create_wrapper", data, ty, loc, n, s.ints("shape" + nm, sh) if n else NULL,
               s.ints("stride" + nm, [mul(x, es) for x in sd]) if n else NULL, st)
    s.call("sdp_mem_set_read_only", m, ro)
    numel = I(1)
    for x in sh:
        numel = mul(numel, x)
    c = s.call("sdp_mem_is_c_contiguous", m)
    mo = MemObj("model" + nm, eng, spec_ndims=n, type=ty, loc=loc, ndims=I(n), ro=ne(ro, I(0)), contig=ne(c, I(0)), numel=numel)
    mo.region = data.r
    for k in range(9):
        mo._shape[k] = sh[k] if k < n else I(0)
        mo._stride[k] = sd[k] if k < n else I(0)
    eng.mem[mo.handle] = {}
    mo.handle.freed = FALSE
    return m, Ptr(mo.handle, I(0)), mo


def contract(s, fn, *args):
    s.eng.under.add(fn)
    return contracts.C[fn](s.eng, [I(a) if isinstance(a, int) else a for a in args], None, TRUE)


def both(s, fn, m, mo, *args, what=""):
    """the code of fn and its contract give the same result"""
    s.equal("result", "%s meets the contract its callers rely on%s" % (fn, what), s.call(fn, m, *args), contract(s, fn, mo, *args))


def agree(n, ty):
    def body(s):
        m, mo, obj = small(s, n, ty=ty)
        for h, o, what in ((m, mo, ""), (NULL, NULL, " for a null handle")):
            for q in GETTERS:
                if q == "is_read_only":
                    s.prove("result", "sdp_mem_is_read_only meets the contract its callers rely on" + what,
                            t.iff(ne(s.call("sdp_mem_" + q, h), I(0)), ne(contract(s, "sdp_mem_" + q, o), I(0))))
                else:
                    both(s, "sdp_mem_" + q, h, o, what=what)
            for q in ("shape_dim", "stride_bytes_dim") + (("stride_elements_dim",) if h is m else ()):
                for k in range(-1, n + 2):
                    both(s, "sdp_mem_" + q, h, o, k, what="%s, dimension %d" % (what, k))
            pre = s.int("pending")
            val, num = s.int("value"), s.int("number")
            chk = [("writeable", 0, []), ("c_contiguity", 0, []), ("location", 1, [val]), ("num_dims", 1, [num]), ("type", 1, [val])]
            for k in range(-1, n + 2):
                chk += [("dim_size", 2, [I(k), num]), ("shape_dim", 2, [I(k), num])]
            for k in range(n + 2):
                exp = [s.int("expected%d" % q) for q in range(k)]
                chk.append(("shape", 2, [I(k), s.ints("expected%d" % k, exp) if k else NULL]))
            for q, pos, args in chk:
                fn = "sdp_mem_check_%s_at" % q
                a, b = s.status(pre), s.status(pre)
                s.call(fn, h, *args, a, NULL, NULL, NULL, 0)
                s.eng.status_region = b.r
                contract(s, fn, o, *args, b, NULL, NULL, NULL, 0)
                s.equal("result", "%s meets the contract its callers rely on%s %s" % (fn, what, args[0] if len(args) > 1 else ""),
                        s.cell(a), s.cell(b))
    return body


def agree2(n1, n2):
    def body(s):
        m1, o1, _ = small(s, n1, "_1")
        m2, o2, _ = small(s, n2, "_2")
        pre = s.int("pending")
        for k in range(3):
            for j in range(3):
                a, b = s.status(pre), s.status(pre)
                fn = "sdp_mem_check_same_shape_at"
                s.call(fn, m1, k, m2, j, a, NULL, NULL, NULL, NULL, 0)
                contract(s, fn, o1, k, o2, j, b, NULL, NULL, NULL, NULL, 0)
                s.equal("result", "%s meets the contract its callers rely on (%d, %d)" % (fn, k, j), s.cell(a), s.cell(b))
        for c in (0, 1):
            v = s.call("sdp_mem_is_matching", m1, m2, c)
            s.instantiate(I(0), I(1), I(2))
            s.equal("result", "sdp_mem_is_matching meets the contract its callers rely on (%d)" % c, v, contract(s, "sdp_mem_is_matching", o1, o2, c))
    return body


def scalars(s):
    """no dimensions, no type, an unknown type, the size of each type"""
    for code, size in [(0, 0), (1, 1), (2, 4), (4, 4), (8, 8), (36, 8), (40, 16)]:
        s.equal("result", "size of type %d" % code, s.call("sdp_mem_type_size", code), I(size))
    o = s.int("other_type")
    known = [eq(o, I(x)) for x in [0] + TYPES]
    s.equal("result", "other types have no size", s.call("sdp_mem_type_size", o), I(0), not_(or_(*known)))
    data = s.buffer("data", s.int("bytes", 0), 1)
    ty, loc = s.int("type"), s.int("location")
    s.assume(or_(*[eq(ty, I(x)) for x in TYPES]))
    st = s.status()
    m = s.call("sdp_mem_create_wrapper", data, ty, loc, 0, NULL, NULL, st)
    describe(s, m, "scalar", data, ty, loc, I(0), lambda d: I(0), lambda d: I(0), I(1), I(1))
    s.equal("result", "no error is reported", s.cell(st), I(0))
    s.call("sdp_mem_free", m)
    m = s.call("sdp_mem_create_wrapper", data, 0, loc, 0, NULL, NULL, st)
    describe(s, m, "untyped", data, I(0), loc, I(0), lambda d: I(0), lambda d: I(0), I(0), I(0))
    s.equal("result", "no error is reported for an untyped pointer", s.cell(st), I(0))
    s.call("sdp_mem_free", m)
    s.assume(not_(or_(*known)))
    m = s.call("sdp_mem_create_wrapper", data, o, loc, s.int("num_dims"), NULL, NULL, st)
    s.prove("result", "an unknown type is refused", ne(s.cell(st), I(0)))
    s.call("sdp_mem_free", m)
    s.released()
    s.prove("result", "the wrapped memory is not released", not_(data.r.freed) if data.r.freed is not None else TRUE)


S("sdp_mem", scalars, "types and scalars")
for n_ in range(5):
    for t_ in TYPES:
        S("sdp_mem", agree(n_, t_), "contracts of queries and checks, %d dimensions, type %d" % (n_, t_))
for n1_, n2_ in ((1, 1), (2, 2), (1, 2), (3, 2)):
    S("sdp_mem", agree2(n1_, n2_), "contracts of comparisons, %d and %d dimensions" % (n1_, n2_))


# ------------------------------------------------------------------ contents
ELEM = {2: (4, 1, ir.Ty("int", 32)), 4: (4, 1, ir.Ty("fp", "float")), 8: (8, 1, ir.Ty("fp", "double")),
        36: (4, 2, ir.Ty("fp", "float")), 40: (8, 2, ir.Ty("fp", "double"))}


def filled(s, code, nd=None, nm="", cpu=True, dims_=None, own=True):
    """a contiguous array on the host, with its elements"""
    es, nc, ty = ELEM[code]
    if dims_ is None:
        nd = s.int("num_dims" + nm, 1) if nd is None else nd
        sp, shape = dims(s, "shape" + nm, nd)
        numel = prod(I(0), nd, lambda q: shape(sub(sub(nd, I(1)), q)))
        s.assume(lt(I(0), numel))
    else:
        nd = len(dims_)
        sp, numel = s.ints("shape" + nm, dims_), I(1)
        shape = lambda d: dims_[int(cval(d))]
        for x in dims_:
            numel = mul(numel, x)
    data = s.buffer("data" + nm, mul(numel, I(es * nc)), es, "i" if code == 2 else "r")
    if dims_ is not None:
        data.r.dims = list(dims_) + ([I(2)] if nc == 2 else [])
        data.r.esize = es
    st = s.status()
    loc = I(0) if cpu else s.int("location")
    m = s.call("sdp_mem_create_wrapper", data, code, loc, nd, sp, NULL, st)
    at = lambda k, p=None: peek(s, p or data, k, es, ty)
    return m, data, nd, sp, shape, numel, st, at


def peek(s, p, k, es, ty):
    save, s.eng.dry = s.eng.dry, 1
    try:
        return s.eng.load(s.eng.ptr_add(p, mul(I(es), k)), ty, TRUE)
    finally:
        s.eng.dry = save


def index(s, n, nm="k"):
    k = t.var(nm, "i")
    s.assume(le(I(0), k), lt(k, n))
    return k


def clear(code):
    def body(s):
        m, data, nd, sp, shape, numel, st, at = filled(s, code)
        s.call("sdp_mem_clear_contents", m, st)
        k = index(s, mul(numel, I(ELEM[code][1])))
        s.equal("result", "every element is cleared", at(k), t.const(0, "i" if code == 2 else "r"))
        s.equal("result", "no error is reported", s.cell(st), I(0))
        s.call("sdp_mem_clear_contents", NULL, st)
        s.call("sdp_mem_free", m)
        s.released()
    return body


def clear_portion(code):
    def body(s):
        m, data, nd, sp, shape, numel, st, at = filled(s, code)
        nc = ELEM[code][1]
        a, n = s.int("start", 0), s.int("number", 0)
        s.assume(le(add(a, n), numel))
        k = index(s, mul(numel, I(nc)))
        old = at(k)
        s.call("sdp_mem_clear_portion", m, a, n, st)
        s.equal("result", "exactly the elements named are cleared", at(k),
                ite(and_(le(mul(a, I(nc)), k), lt(k, mul(add(a, n), I(nc)))), t.const(0, old.s), old))
        s.equal("result", "no error is reported", s.cell(st), I(0))
    return body


def copy(code):
    def body(s):
        m, data, nd, sp, shape, numel, st, at = filled(s, code)
        es, nc, ty = ELEM[code]
        v = s.call("sdp_mem_create_copy", m, 0, st)
        d = s.resolve(s.call("sdp_mem_data", v))
        if not (isinstance(d, Ptr) and d.r is not None and d.r.heap):
            s.prove("result", "the copy owns an allocation", FALSE)
            return
        s.equal("result", "the copy owns exactly the bytes of its elements", d.r.size, mul(numel, I(es * nc)))
        below = lambda d: prod(I(0), sub(sub(nd, I(1)), d), lambda q: shape(sub(sub(nd, I(1)), q)))
        describe(s, v, "copy", d, I(code), I(0), nd, shape, lambda d: mul(below(d), I(es * nc)), numel, I(1))
        k = index(s, mul(numel, I(nc)))
        old = at(k)
        s.equal("result", "every element is copied", at(k, d), old)
        s.equal("result", "no error is reported", s.cell(st), I(0))
        s.call("sdp_mem_free", m)
        s.alive(d, "the copy outlives its source")
        s.call("sdp_mem_free", v)
        s.released()
    return body


def copy_contents(code):
    def body(s):
        m, data, nd, sp, shape, numel, st, at = filled(s, code)
        m2, data2, nd2, sp2, shape2, numel2, st2, at2 = filled(s, code, nm="_2")
        es, nc, ty = ELEM[code]
        a, b, n = s.int("to", 0), s.int("from", 0), s.int("number", 0)
        s.assume(le(add(a, n), numel), le(add(b, n), numel2))
        k = index(s, mul(numel, I(nc)))
        old = at(k)
        src = at2(add(sub(k, mul(a, I(nc))), mul(b, I(nc))))
        j = index(s, mul(numel2, I(nc)), "j")
        old2 = at2(j)
        s.call("sdp_mem_copy_contents", m, m2, a, b, n, st)
        s.equal("result", "exactly the elements named are copied", at(k),
                ite(and_(le(mul(a, I(nc)), k), lt(k, mul(add(a, n), I(nc)))), src, old))
        s.equal("result", "the source is unchanged", at2(j), old2)
        s.equal("result", "no error is reported", s.cell(st), I(0))
    return body


def scaled(code):
    def body(s):
        m, data, nd, sp, shape, numel, st, at = filled(s, code)
        s.single = code in (4, 36)
        f = s.real("factor")
        k = index(s, mul(numel, I(ELEM[code][1])))
        old = at(k)
        s.call("sdp_mem_scale_real", m, f, st)
        s.equal("result", "every element is multiplied once", at(k), mul(old, f))
        s.equal("result", "no error is reported", s.cell(st), I(0))
    return body


def converted(a, b):
    def body(s):
        m, data, nd, sp, shape, numel, st, at = filled(s, a)
        s.single = b in (4, 36)
        v = s.call("sdp_mem_convert_precision", m, b, st)
        es, nc, ty = ELEM[b]
        d = s.resolve(s.call("sdp_mem_data", v))
        if not (isinstance(d, Ptr) and d.r is not None and d.r.heap):
            s.prove("result", "the result owns an allocation", FALSE)
            return
        below = lambda d: prod(I(0), sub(sub(nd, I(1)), d), lambda q: shape(sub(sub(nd, I(1)), q)))
        describe(s, v, "result", d, I(b), I(0), nd, shape, lambda d: mul(below(d), I(es * nc)), numel, I(1))
        k = index(s, mul(numel, I(nc)))
        s.equal("result", "every element keeps its value", peek(s, d, k, es, ty), at(k))
        s.equal("result", "no error is reported", s.cell(st), I(0))
        s.call("sdp_mem_free", v)
        s.call("sdp_mem_free", m)
        s.released()
    return body


def set_value(code, n):
    def body(s):
        ds = [s.int("n%d" % k, 1) for k in range(n)]
        m, data, nd, sp, shape, numel, st, at = filled(s, code, dims_=ds)
        es, nc, ty = ELEM[code]
        s.single = code in (4, 36)
        v = s.int("value")
        s.call("sdp_mem_set_value", m, v, st)
        ix = [index(s, x, "i%d" % k) for k, x in enumerate(ds)]
        lin = I(0)
        for x, i in zip(ds, ix):
            lin = add(mul(lin, x), i)
        for c in range(nc):
            got = at(add(mul(lin, I(nc)), I(c)))
            s.equal("result", "every element is set" + (" (imaginary part)" if c else ""), got,
                    (v if got.s == "i" else t.toreal(v)) if c == 0 else R(0))
        s.equal("result", "no error is reported", s.cell(st), I(0))
    return body


NAME = {2: "int", 4: "float", 8: "double", 36: "complex float", 40: "complex double"}
for c_ in ELEM:
    S("sdp_mem_clear_contents", clear(c_), NAME[c_])
    S("sdp_mem_clear_portion", clear_portion(c_), NAME[c_])
    S("sdp_mem_create_copy", copy(c_), NAME[c_])
    S("sdp_mem_copy_contents", copy_contents(c_), NAME[c_])
    if c_ != 2:
        S("sdp_mem_scale_real", scaled(c_), NAME[c_])
    for n_ in (1, 2, 3):
        S("sdp_mem_set_value", set_value(c_, n_), "%s %d dimensions" % (NAME[c_], n_))
for a_, b_ in ((4, 8), (8, 4), (36, 40), (40, 36), (8, 8), (40, 40)):
    S("sdp_mem_convert_precision", converted(a_, b_), "%s to %s" % (NAME[a_], NAME[b_]))


# ------------------------------------------------------------------ pending errors and refusals
def pending(s):
    """with an error pending nothing is written and the error is kept"""
    m, ty, loc, nd, shape, stride, data, st = source(s)
    m2, data2, nd2, sp2, _, numel2, _, at2 = filled(s, 8, nm="_2")
    e = s.int("pending")
    s.assume(ne(e, I(0)))
    st = s.status(e)
    before = s.eng.mem[data.r], s.eng.mem[data2.r]
    a, b, n, v, f = s.int("a", 0), s.int("b", 0), s.int("n", 0), s.int("v"), s.real("f")
    for fn, args in (("clear_contents", ()), ("clear_portion", (a, n)), ("scale_real", (f,)), ("set_value", (v,)), ("random_fill", ())):
        s.call("sdp_mem_" + fn, m, *args, st)
        s.equal("sticky", "sdp_mem_%s keeps a pending error" % fn, s.cell(st), e)
        s.prove("sticky", "sdp_mem_%s changes nothing with an error pending" % fn, TRUE if s.eng.mem[data.r] is before[0] else FALSE)
    for x, y in ((m, m2), (m2, m)):
        s.call("sdp_mem_copy_contents", x, y, a, b, n, st)
        s.equal("sticky", "sdp_mem_copy_contents keeps a pending error", s.cell(st), e)
        s.prove("sticky", "sdp_mem_copy_contents changes nothing with an error pending",
                TRUE if s.eng.mem[data.r] is before[0] and s.eng.mem[data2.r] is before[1] else FALSE)
    c = s.call("sdp_mem_convert_precision", m2, 4, st)
    s.equal("sticky", "sdp_mem_convert_precision keeps a pending error", s.cell(st), e)
    s.equal("sticky", "sdp_mem_convert_precision returns nothing with an error pending", c, NULL)
    c = s.call("sdp_mem_create", ty, loc, nd2, sp2, st)
    s.equal("sticky", "sdp_mem_create keeps a pending error", s.cell(st), e, or_(*[eq(ty, I(x)) for x in TYPES]))
    s.equal("sticky", "sdp_mem_create allocates nothing with an error pending", s.call("sdp_mem_data", c), NULL)
    s.call("sdp_mem_free", c)
    s.call("sdp_mem_free", m2)
    s.call("sdp_mem_free", m)
    s.released()


def refused(s):
    """operations on values need a contiguous array, and say so"""
    m, ty, loc, nd, shape, stride, data, st = source(s)
    s.assume(eq(loc, I(0)))
    c = s.call("sdp_mem_is_c_contiguous", m)
    s.assume(eq(c, I(0)))
    before = s.eng.mem[data.r]
    s.call("sdp_mem_scale_real", m, s.real("f"), st)
    s.prove("reject", "sdp_mem_scale_real refuses an array that is not contiguous", ne(s.cell(st), I(0)))
    s.prove("reject", "and changes nothing", TRUE if s.eng.mem[data.r] is before else FALSE)
    st = s.status()
    v = s.call("sdp_mem_convert_precision", m, s.int("to"), st)
    s.prove("reject", "sdp_mem_convert_precision refuses an array that is not contiguous", ne(s.cell(st), I(0)))
    s.equal("reject", "and returns nothing", v, NULL)


S("sdp_mem", pending, "pending error")
SPECS[-1].exclude = ("C01", "C24")
S("sdp_mem", refused, "not contiguous")
SPECS[-1].exclude = ("C02", "C24")
