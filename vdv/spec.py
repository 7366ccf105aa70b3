"""Specifications of public functions, and their verification.

A Spec states, for one public function: its arguments, the exact condition under
which a call is accepted (final status zero), and the value of every element of
every output, as a mathematical function of the arguments.  `verify` generates
and discharges the obligations from the extracted IR.
"""
import itertools
from fractions import Fraction
import time
import ir
import terms as t
import prover
import build
import engine as E
from engine import Engine, Ptr, Region, MemObj, NULL, Unsupported, Obl, Cont, UNDEF
import contracts
from contracts import I32, I64, Coord, is_type
from terms import (I, R, add, sub, mul, neg, scale, eq, ne, le, lt, ge, gt, and_, or_, not_, ite, subst, cval, as_atom,
                   atom, fresh, TRUE, FALSE, ivar, rvar, implies, uf, lits)

INT, FLOAT, DOUBLE, CFLOAT, CDOUBLE = 2, 4, 8, 36, 40
SINGLE = {FLOAT, CFLOAT}
RW = int(__import__("os").environ.get("RW", 1500))
ALLTYPES = (0, 1, 2, 4, 8, 36, 40)


class Arg:
    pass


class M(Arg):
    """array argument"""

    def __init__(self, name, ndims, mode="in", contig=True, nullable=False, cpu=True, sort=None, when=None):
        # when(ctx): the array is only used, and so only checked, under this condition
        self.when = when
        self.name, self.ndims, self.mode, self.contig = name, ndims, mode, contig
        self.nullable, self.cpu = nullable, cpu
        self.sort = sort


class Sky(Arg):
    def __init__(self, name):
        self.name = name


class Int(Arg):
    def __init__(self, name, lo=None, hi=None):
        self.name, self.lo, self.hi = name, lo, hi


class Real(Arg):
    def __init__(self, name):
        self.name = name


class IntOut(Arg):
    """pointer to integer (or real) output cells"""

    def __init__(self, name, n=1, size=8, real=False, mode="out"):
        self.name, self.n, self.size, self.real, self.mode = name, n, size, real, mode


class Status(Arg):
    name = "status"


class Const(Arg):
    """fixed argument value"""

    def __init__(self, name, v):
        self.name, self.v = name, v


class Ctx:
    """view of the arguments for specifications"""

    def __init__(self):
        self.mems, self.vals, self.sky, self.cells = {}, {}, {}, {}

    def __getitem__(self, n):
        if n in self.mems:
            return self.mems[n]
        if n in self.vals:
            return self.vals[n]
        if n in self.sky:
            return self.sky[n]
        raise KeyError(n)

    def sh(self, n, k):
        return self.mems[n].shape(k)

    def numel(self, n):
        return self.mems[n].numel

    def v(self, n, *idx):
        """initial real/int element"""
        m = self.mems[n]
        idx = tuple(I(i) if isinstance(i, int) else i for i in idx)
        return t.sel(m.init_tag, idx, m.region.sort or "r")

    def cv(self, n, *idx):
        return (self.v(n, *idx, 0), self.v(n, *idx, 1))

    def istype(self, n, *codes):
        return is_type(self.mems[n], *codes)

    def nullm(self, n):
        return self.mems[n].isnull


# complex helpers on pairs
def cmul(a, b):
    return (sub(mul(a[0], b[0]), mul(a[1], b[1])), add(mul(a[0], b[1]), mul(a[1], b[0])))


def cadd(a, b):
    return (add(a[0], b[0]), add(a[1], b[1]))


def csub(a, b):
    return (sub(a[0], b[0]), sub(a[1], b[1]))


def cscale(a, r):
    return (mul(a[0], r), mul(a[1], r))


def cis(x):
    return (contracts.f_cos(x), contracts.f_sin(x))


def conj(a):
    return (a[0], neg(a[1]))


def csum(lo, hi, f, name="s"):
    k = fresh(name, "i")
    b = f(k)
    return tuple(t.mk_sum(as_atom(k), lo, hi, x) for x in b)


def rsum(lo, hi, f, name="s"):
    k = fresh(name, "i")
    return t.mk_sum(as_atom(k), lo, hi, f(k))


class Spec:
    def __init__(self, fn, module, args, cases=None, valid=None, outs=None, cells=None, opts=None, facts=None,
                 status=True, note="", ret=None, reject_frame=True, accept=True, pre=None, erase=True, exact=True,
                 ghost_extra=0, unchanged_ok=(), chain=None, defined=None):
        self.fn, self.module, self.args = fn, module, args
        self.cases = cases or [("any", {})]
        self.valid = valid
        self.outs = outs or {}
        self.cells = cells or {}
        self.opts = opts or {}
        self.facts = facts
        self.status = status
        self.note = note
        self.ret = ret
        self.reject_frame = reject_frame
        self.accept = accept
        self.pre = pre
        self.exact = exact
        self.ghost_extra = ghost_extra
        self.unchanged_ok = unchanged_ok
        # a sequence of calls [(function, [argument name | $k: result of call k])] instead of one call
        self.chain = chain
        # where the result is a number (divisors that are not zero)
        self.defined = defined

    def mems(self):
        return [a for a in self.args if isinstance(a, M)]


class Result:
    def __init__(self, spec):
        self.spec = spec
        self.obls = []
        self.assumed = set()
        self.under = set()
        self.called = set()
        self.havocs = []
        self.error = None
        self.wall = 0

    def failed(self):
        return [o for o in self.obls if not o.ok]


def title(spec):
    return spec.fn + (":" + spec.label if getattr(spec, "label", None) else "")


def signatures(spec):
    """complex-ness assignments to explore: [(dict name->bool, [cases])]"""
    names = [m.name for m in spec.mems()]
    poss = {}
    for m in spec.mems():
        vals = set()
        for lab, c in spec.cases:
            if m.name in c:
                tt = c[m.name]
                tt = tt if isinstance(tt, (list, tuple)) else [tt]
                for x in tt:
                    vals.add(x in (CFLOAT, CDOUBLE))
        poss[m.name] = sorted(vals) or [False]
    out = []
    for combo in itertools.product(*[poss[n] for n in names]):
        sig = dict(zip(names, combo))
        cs = []
        for lab, c in spec.cases:
            ok = True
            for n, tt in c.items():
                if n in sig:
                    tt = tt if isinstance(tt, (list, tuple)) else [tt]
                    if any((x in (CFLOAT, CDOUBLE)) != sig[n] for x in tt):
                        ok = False
            if ok:
                cs.append((lab, c))
        varying = [n for n in names if len(poss[n]) > 1]
        out.append((sig, cs, varying))
    return out


def case_cond(ctx, c):
    g = TRUE
    for n, tt in c.items():
        if n in ctx.mems:
            tt = tt if isinstance(tt, (list, tuple)) else [tt]
            x = ctx.istype(n, *tt)
            if ctx.mems[n].isnull is not FALSE:
                x = or_(ctx.mems[n].isnull, x)
            g = and_(g, x)
        else:
            g = and_(g, eq(ctx.vals[n], I(tt)))
    return g


def setup(spec, sig, varying):
    mod = build.module(spec.module, exceptions=spec.opts.get("exceptions"))
    eng = Engine(mod, contracts.C, title(spec))
    eng.opts = spec.opts
    ctx = Ctx()
    args = []
    facts = []
    for a in spec.args:
        if isinstance(a, M):
            m = MemObj(a.name, eng, spec_ndims=a.ndims, cplx=sig[a.name])
            if a.nullable:
                m.isnull = t.bvar(a.name + ".isnull")
            m.region.sort = a.sort
            m.region.writable = a.mode != "in"
            eng.mem[m.region] = Cont(tag=(m.region, a.name))
            eng.mem[m.handle] = {}
            ctx.mems[a.name] = m
            args.append(Ptr(m.handle, I(0)))
            facts += mem_facts(m, a)
            if a.name in varying:
                c = is_type(m, CFLOAT, CDOUBLE)
                facts.append(c if sig[a.name] else not_(c))
        elif isinstance(a, Sky):
            c = Coord(a.name)
            r = Region("sky:" + a.name, "handle", obj=c)
            eng.mem[r] = {}
            ctx.sky[a.name] = c
            args.append(Ptr(r, I(0)))
        elif isinstance(a, Int):
            v = ivar(a.name)
            ctx.vals[a.name] = v
            if a.lo is not None:
                facts.append(le(I(a.lo), v))
            if a.hi is not None:
                facts.append(le(v, I(a.hi)))
            args.append(v)
        elif isinstance(a, Real):
            v = rvar(a.name)
            ctx.vals[a.name] = v
            args.append(v)
        elif isinstance(a, Const):
            ctx.vals[a.name] = a.v
            args.append(a.v)
        elif isinstance(a, IntOut):
            r = Region(a.name, "cells", size=I(a.n * a.size))
            r.writable = a.mode != "in"
            cells = {}
            for k in range(a.n):
                cells[(k * a.size, a.size)] = t.var("%s%d" % (a.name, k), "r" if a.real else "i")
            eng.mem[r] = cells
            ctx.cells[a.name] = (r, dict(cells), a)
            for k in range(a.n):
                ctx.vals["%s%d" % (a.name, k)] = cells[(k * a.size, a.size)]
            args.append(Ptr(r, I(0)))
        elif isinstance(a, Status):
            r = Region("status", "cells", size=I(4))
            s0 = ivar("status0")
            eng.mem[r] = {(0, 4): s0}
            eng.status_region = r
            ctx.vals["status0"] = s0
            args.append(Ptr(r, I(0)))
        else:
            raise Exception(a)
    if spec.facts:
        facts += list(spec.facts(ctx))
    eng.facts = [f for f in facts if f is not TRUE]
    for n, f in (spec.opts.get("elements") or {}).items():
        eng.elements[ctx.mems[n].init_tag] = lambda v, f=f: f(ctx, v)
        eng.assumed.add("documented precondition on the elements of %s: %s" % (n, " ".join((f.__doc__ or "").split())))
    ctx.eng = eng
    return eng, ctx, args


def mem_facts(m, a):
    f = []
    f.append(or_(*[eq(m.type, I(c)) for c in ALLTYPES]))
    f.append(and_(le(I(0), m.loc), le(m.loc, I(1))))
    f.append(le(I(0), m.ndims))
    f.append(le(I(0), m.numel))
    n = a.ndims if isinstance(a.ndims, int) else 4
    for k in range(max(n, 3) + 1):
        f.append(le(I(0), m.shape(k)))
        if k >= 1:
            pass
        f.append(implies(le(m.ndims, I(k)), eq(m.shape(k), I(0))))
    if isinstance(a.ndims, int):
        numel = I(1)
        st = I(1)
        for k in range(n - 1, -1, -1):
            f.append(implies(and_(m.contig, eq(m.ndims, I(n))), eq(m.stride(k), st)))
            st = mul(st, m.shape(k))
        f.append(implies(eq(m.ndims, I(n)), eq(m.numel, st)))
    return f


def auto_valid(spec, ctx, cases):
    v = TRUE
    for a in spec.mems():
        m = ctx.mems[a.name]
        c = TRUE
        if isinstance(a.ndims, int):
            c = and_(c, eq(m.ndims, I(a.ndims)))
        if a.cpu:
            c = and_(c, eq(m.loc, I(0)))
        if a.contig:
            c = and_(c, m.contig)
        if a.mode != "in":
            c = and_(c, not_(m.ro))
        if a.nullable:
            c = or_(m.isnull, c)
        if a.when:
            c = or_(not_(a.when(ctx)), c)
        v = and_(v, c)
    if spec.valid:
        v = and_(v, *spec.valid(ctx))
    cc = or_(*[case_cond(ctx, c) for lab, c in cases]) if cases else FALSE
    return v, cc


def verify(spec, verbose=False, want=None):
    """all obligations of one function"""
    res = Result(spec)
    t0 = time.time()
    try:
        for sig, cases, varying in signatures(spec):
            _verify_sig(spec, sig, cases, varying, res, verbose, want)
    except (Unsupported, build.ExtractError, t.TermError if hasattr(t, "TermError") else Unsupported) as e:
        res.error = str(e)
        res.obls.append(Obl("%s|reach|%s" % (title(spec), e), "reach", False, 0.0, "", "extractor",
                            "the function could not be brought under contract: %s" % e))
    except RecursionError as e:
        res.error = "recursion"
        res.obls.append(Obl("%s|reach|recursion limit" % title(spec), "reach", False, 0.0, "", "extractor", "recursion"))
    res.wall = time.time() - t0
    return res


def _verify_sig(spec, sig, cases, varying, res, verbose, want=None):
    arrayize = set()
    for _ in range(12):
        try:
            return _verify_sig1(spec, sig, cases, varying, res, verbose, arrayize, want)
        except E.Restart:
            continue
    raise Unsupported("restarts")


def _verify_sig1(spec, sig, cases, varying, res, verbose, arrayize, want=None):
    eng, ctx, args = setup(spec, sig, varying)
    eng.arrayize = arrayize
    eng.want = want
    wanted = lambda k: want is None or k in want
    mod = eng.mod
    chain = spec.chain or [(spec.fn, [a.name for a in spec.args])]
    for name, _ in chain:
        if name not in mod.funcs:
            raise Unsupported("function %s not found in %s" % (name, spec.module))
    base = list(eng.facts)
    # ghost indices for the outputs
    ghosts = {}
    gl = []
    for a in spec.mems():
        m = ctx.mems[a.name]
        n = len(m.dimlist())
        ghosts[a.name] = [ivar("g%d" % k) for k in range(n)]
        for v in ghosts[a.name]:
            if as_atom(v) not in gl:
                gl.append(as_atom(v))
    for k in range(spec.ghost_extra):
        gl.append(as_atom(ivar("gx%d" % k)))
    eng.ghosts = gl
    ctx.ghosts = [atom(x) for x in gl]
    valid, cc = auto_valid(spec, ctx, cases)
    s0 = ctx.vals.get("status0")
    ok0 = eq(s0, I(0)) if s0 is not None else TRUE
    if spec.pre:
        eng.facts += [implies(and_(ok0, valid, cc), x) for x in spec.pre(ctx)]
        base = list(eng.facts)
    # vacuity guards: each case must be reachable
    for lab, c in cases if wanted("vacuity") else ():
        con = prover.consistent(base + [valid, case_cond(ctx, c), ok0])
        eng.obls.append(Obl("%s|vacuity|%s" % (title(spec), lab), "vacuity", con is not False, 0.0, "", "z3",
                            None if con is not False else "the accepted case is contradictory"))
    amap = {a.name: v for a, v in zip(spec.args, args)}
    rets = []
    for name, an in chain:
        rets.append(eng.call_function(mod.funcs[name], [rets[int(x[1:])] if x[0] == "$" else amap[x] for x in an], TRUE))
    retv = rets[-1] if not spec.chain else None
    if verbose:
        for o in eng.obls:
            if not o.ok:
                print("  FAIL", o.name, o.reason)
        for h in getattr(eng, "havocs", []):
            print("  havoc:", h)
    facts = eng.facts
    eng.where = "exit"
    S = None
    accepted = set()
    if s0 is not None:
        S = eng.mem[eng.status_region][(0, 4)]
        bad0 = ne(s0, I(0))
        # sticky
        eng.oblig("sticky", eq(S, s0), bad0, "an error already set is left as it is")
        if spec.accept:
            for lab, c in cases:
                if eng.oblig("accept", eq(S, I(0)), and_(ok0, valid, case_cond(ctx, c)), "valid %s input succeeds" % lab):
                    accepted.add(lab)
            if spec.exact:
                conds = []
                for a in spec.mems():
                    conds += parts(spec, ctx, a)
                # each violated condition separately gives a named obligation
                allc = list(lits(valid)) + ([cc] if cc is not TRUE else [])
                for x in allc:
                    eng.oblig("reject", ne(S, I(0)), and_(ok0, not_(x)), "rejects input unless %s" % t.show(x)[:100])
    # rejected calls leave outputs alone
    for a in spec.mems() if wanted("reject-frame") else ():
        m = ctx.mems[a.name]
        if a.mode == "in" or eng.mem[m.region].kind == "base" and eng.mem[m.region].tag[1] == a.name:
            continue
        if S is None or not spec.reject_frame or a.name in spec.unchanged_ok:
            continue
        idx = tuple(ghosts[a.name])
        comps = [idx + (I(c),) for c in (0, 1)] if m.cplx else [idx]
        rng = inrange(m, idx)
        for ci in comps:
            g = and_(or_(ne(s0, I(0)), ne(S, I(0))), *rng)
            for l in disjuncts(or_(ne(s0, I(0)), and_(ok0, ne(S, I(0))))):
                gg = and_(l, *rng)
                fin = eng.read(eng.mem[m.region], m.region, ci, gg)
                okk = prove_num(eng, fin, t.sel(a.name, ci, m.region.sort or "r"), facts + list(lits(gg)))
                if not okk:
                    break
            else:
                okk = True
            addobl(eng, "reject-frame", okk, "%s unchanged when the call fails" % a.name)
    # results
    for lab, c in cases if wanted("result") else ():
        cond = and_(ok0, valid, case_cond(ctx, c))
        f = facts + list(lits(cond))
        if lab in accepted and S is not None and cval(S) is None:
            cond = and_(cond, *[x for x in prover.closure((eq(S, I(0)),)) if x.k != "or"])
            f = facts + list(lits(cond))
        if spec.defined:
            f = f + list(spec.defined(ctx))
        for name, outf in spec.outs.items():
            if name in ctx.mems:
                m = ctx.mems[name]
                idx = tuple(ghosts[name])
                rng = inrange(m, idx)
                exp = outf(ctx, lab, *idx)
                if exp is None:
                    continue
                comps = [(idx + (I(k),), e) for k, e in enumerate(exp)] if m.cplx else [(idx, exp)]
                tcode = c.get(name)
                single = tcode in SINGLE
                split = getattr(spec, "split", {}).get(name)
                parts_ = split(ctx, *idx) if split else [TRUE]
                if split and not getattr(split, "partial", False):
                    okk = prover.valid(or_(*parts_), f + rng)
                    eng.obls.append(Obl("%s|result|%s|%s cases" % (title(spec), lab, name), "result", okk, 0.0, "", "z3",
                                        None if okk else "the cases are not exhaustive"))
                for n, (ci, ex) in enumerate(comps):
                    for q, pc in enumerate(parts_):
                        t1 = time.time()
                        q0 = prover.STATS["z3_queries"]
                        pl = list(lits(pc))
                        cd = and_(cond, pc)
                        fin = eng.read(eng.mem[m.region], m.region, ci, cd, rng)
                        okk = prove_num(eng, fin, ex, f + rng + pl, single)
                        eng.obls.append(Obl("%s|result|%s|%s%s%s" % (title(spec), lab, name,
                                                                     (".re", ".im")[n] if m.cplx else "",
                                                                     " (%d)" % q if split else ""),
                                            "result", okk, time.time() - t1, "",
                                            "z3" if prover.STATS["z3_queries"] > q0 else "normaliser",
                                            None if okk else "code: %s\nspec: %s" % (t.show(fin)[:RW], t.show(ex)[:RW])))
        for name, outf in spec.cells.items():
            r, init, a = ctx.cells[name]
            exp = outf(ctx, lab)
            if exp is None:
                continue
            if not isinstance(exp, (list, tuple)):
                exp = [exp]
            for k, ex in enumerate(exp):
                fin = eng.mem[r].get((k * a.size, a.size))
                okk = isinstance(fin, t.T) and prove_num(eng, fin, ex, f)
                eng.obls.append(Obl("%s|result|%s|%s%d" % (title(spec), lab, name, k), "result", okk, 0.0, "", "z3",
                                    None if okk else "code: %r\nspec: %s" % (fin, t.show(ex)[:800])))
        if spec.ret is not None:
            ex = spec.ret(ctx, lab)
            if ex is not None:
                okk = isinstance(retv, t.T) and prove_num(eng, retv, ex, f)
                eng.obls.append(Obl("%s|result|%s|return" % (title(spec), lab), "result", okk, 0.0, "", "z3",
                                    None if okk else "code: %r\nspec: %s" % (retv, t.show(ex)[:800])))
    # temporaries
    if wanted("leak") and not spec.opts.get("keeps"):
        for r, g in eng.heap:
            eng.oblig("leak", r.freed, g, "temporary %s is released" % r.name.split("!")[0])
        for m in eng.newmems:
            eng.oblig("leak", m.handle.freed, m.made, "temporary array %s is released" % m.name.split("!")[0])
    res.obls += eng.obls
    res.assumed |= eng.assumed
    res.under |= eng.under
    res.called |= eng.called
    res.havocs += getattr(eng, "havocs", [])
    res.eng, res.ctx = eng, ctx


def disjuncts(b):
    return b.a if b.k == "or" else (b,)


def parts(spec, ctx, a):
    return []


def inrange(m, idx):
    r = []
    for v, d in zip(idx, m.dimlist()):
        r += [le(I(0), v), lt(v, d)]
    return r


def addobl(eng, kind, ok, detail):
    eng.obls.append(Obl("%s|%s|exit|%s" % (eng.fname, kind, detail), kind, ok, 0.0, detail, "z3",
                        None if ok else detail))


def prove_num(eng, a, b, facts, single=False):
    if not isinstance(a, t.T):
        return False
    if a.s == "b":
        a = ite(a, I(1), I(0))
    if a.s != b.s:
        if a.s == "i" and b.s == "r":
            a = t.toreal(a)
        else:
            return False
    if single:
        m = prover.eqsubst(facts)
        a, b = prover.erase32(subst(a, m)), prover.erase32(subst(b, m))
    elif a.s == "r":
        a, b = prover.erase32(a, 12, False), prover.erase32(b, 12, False)
    return prover.prove_eq(a, b, facts, 16, [1000])


def sdiv(a, b):
    return t.idiv("sdiv", a, b)


def srem(a, b):
    return t.idiv("srem", a, b)


emod = t.emod
fdiv = t.fdiv
inv = t.inv
toreal = t.toreal


def floor_(x):
    return t.toint("floor", x)


def div(a, b):
    return mul(a, t.inv(b))


def powi(x, n):
    r = x
    for _ in range(n - 1):
        r = mul(r, x)
    return r


f_exp, f_sqrt, f_cos, f_sin, f_pow = contracts.f_exp, contracts.f_sqrt, contracts.f_cos, contracts.f_sin, contracts.f_pow
rmin, rmax = contracts.rmin, contracts.rmax


def f_log(x):
    return uf("log", (x,), "r")
