"""Deductive verification of LLVM IR extracted from the sources.

Functions are executed symbolically once, with path conditions merged at joins.
Calls to public functions go through contracts.  Loops are never unrolled
(except constant trip counts): each loop gets an iteration contract (induction
variables in closed form, reductions as sums, array effects as comprehensions
over the loop variable) whose side conditions are proof obligations.
"""
import time
import re
from fractions import Fraction
import os
import ir
import terms as t
import prover
from terms import (T, I, R, add, sub, mul, neg, scale, eq, ne, le, lt, ge, gt, and_, or_, not_, ite, subst, cval,
                   as_atom, atom, fresh, freshb, TRUE, FALSE, ivar, rvar, implies, mk_sum, lits)


class Unsupported(Exception):
    pass


MAXUNROLL = 32


# ---------------------------------------------------------------------- values
class Restart(Exception):
    """a local object turned out to be indexed by a variable: start again with it
    modelled as an array"""


class Ptr:
    __slots__ = ("r", "off")

    def __init__(self, r, off):
        self.r, self.off = r, off

    def __repr__(self):
        return "&%s+%s" % (self.r.name if self.r else "null", self.off)


class PtrIte:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "pite(%s,%s,%s)" % (self.c, self.a, self.b)


class Agg:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = tuple(e)

    def __repr__(self):
        return "agg%r" % (self.e,)


class FuncRef:
    def __init__(self, name):
        self.name = name


class UndefV:
    def __repr__(self):
        return "undef"


UNDEF = UndefV()


class OpaqueV:
    """a value outside the verified subset (e.g. NaN); using it is unsupported"""

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "opaque(%s)" % self.why


NULL = Ptr(None, I(0))


def veq(a, b):
    """syntactic equality of values"""
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.r is b.r and a.off is b.off
    if isinstance(a, PtrIte) and isinstance(b, PtrIte):
        return a.c is b.c and veq(a.a, b.a) and veq(a.b, b.b)
    if isinstance(a, Agg) and isinstance(b, Agg):
        return len(a.e) == len(b.e) and all(veq(x, y) for x, y in zip(a.e, b.e))
    if isinstance(a, FuncRef) and isinstance(b, FuncRef):
        return a.name == b.name
    return False


def vite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if veq(a, b):
        return a
    if isinstance(a, UndefV):
        return b
    if isinstance(b, UndefV):
        return a
    if isinstance(a, T) and isinstance(b, T):
        if a.s != b.s:
            if a.s == "b" and b.s == "i":
                a = ite(a, I(1), I(0))
            elif a.s == "i" and b.s == "b":
                b = ite(b, I(1), I(0))
        return ite(c, a, b)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r:
        return Ptr(a.r, ite(c, a.off, b.off))
    if isinstance(a, (Ptr, PtrIte, FuncRef)) and isinstance(b, (Ptr, PtrIte, FuncRef)):
        return PtrIte(c, a, b)
    if isinstance(a, Agg) and isinstance(b, Agg) and len(a.e) == len(b.e):
        return Agg([vite(c, x, y) for x, y in zip(a.e, b.e)])
    if isinstance(a, OpaqueV) or isinstance(b, OpaqueV):
        return OpaqueV("merge of %r and %r" % (a, b))
    raise Unsupported("merge of %r and %r" % (a, b))


def psubst(v, m):
    if isinstance(v, T):
        return subst(v, m)
    if isinstance(v, Ptr):
        return Ptr(v.r, subst(v.off, m))
    if isinstance(v, PtrIte):
        return vite(subst(v.c, m), psubst(v.a, m), psubst(v.b, m))
    if isinstance(v, Agg):
        return Agg([psubst(x, m) for x in v.e])
    return v


def psimp(v, guard):
    """resolve pointer conditionals decided by the guard"""
    if isinstance(v, PtrIte):
        d = t.decide_lits(v.c, set(prover.closure(lits(guard))))
        if d is True:
            return psimp(v.a, guard)
        if d is False:
            return psimp(v.b, guard)
        return PtrIte(v.c, psimp(v.a, and_(guard, v.c)), psimp(v.b, and_(guard, not_(v.c))))
    return v


# --------------------------------------------------------------------- regions
class Region:
    """kind 'cells': concrete offsets -> values.  kind 'array': scalar elements
    with logical dimensions."""
    n = 0

    def __init__(self, name, kind, size=None, **kw):
        Region.n += 1
        self.id = Region.n
        self.name, self.kind, self.size = name, kind, size
        self.dims = None          # logical dims (terms, in scalars), or None until known
        self.mem = None           # owning MemObj
        self.writable = True
        self.local = False        # created inside the function under verification
        self.esize = None         # scalar size in bytes
        self.sort = None
        self.obj = None           # contract payload (opaque handle)
        self.freed = FALSE
        self.heap = False
        self.flatdims = None
        self.__dict__.update(kw)

    def __repr__(self):
        return "<%s>" % self.name

    def cells_mixed(self, mem):
        """a structure with members of different kinds"""
        c = mem.get(self)
        return isinstance(c, dict) and any(isinstance(x, (Ptr, PtrIte)) for x in c.values())


class Cont:
    """array content: base or update"""
    __slots__ = ("prev", "kind", "bv", "guard", "idx", "val", "tag", "line", "fac")

    def __init__(self, prev=None, kind="base", bv=(), guard=TRUE, idx=None, val=None, tag=None, line=None):
        self.prev, self.kind, self.bv, self.guard, self.idx, self.val = prev, kind, bv, guard, idx, val
        self.tag = tag
        self.line = line

    def chain(self):
        out = []
        c = self
        while c.kind != "base":
            out.append(c)
            c = c.prev
        return out[::-1], c


class MemObj:
    """abstract view of an sdp_Mem handle"""

    def __init__(self, name, eng, spec_ndims=None, cplx=False, const=False, isnew=False, dims=None, **kw):
        self.name = name
        self.spec_ndims = spec_ndims      # int or 'flat'
        self.cplx = cplx
        self.isnull = kw.get("isnull", FALSE)
        v = lambda n, s="i": t.var("%s.%s" % (name, n), s)
        self.type = kw.get("type", v("type"))
        self.loc = kw.get("loc", v("loc"))
        self.ndims = kw.get("ndims", v("ndims"))
        self.ro = kw.get("ro", bv("%s.readonly" % name))
        self.contig = kw.get("contig", bv("%s.contig" % name))
        self._shape = {}
        self._stride = {}
        self.numel = kw.get("numel", v("numel"))
        self.init_tag = name
        self.region = Region(name, "array", mem=self)
        self.handle = Region("handle:" + name, "handle", obj=self)
        self.isnew = isnew
        self.nodata = FALSE
        self.refs = None

    def shape(self, k):
        if k not in self._shape:
            self._shape[k] = t.var("%s.shape%d" % (self.name, k), "i")
        return self._shape[k]

    def stride(self, k):
        if k not in self._stride:
            self._stride[k] = t.var("%s.stride%d" % (self.name, k), "i")
        return self._stride[k]

    def dimlist(self):
        if self.spec_ndims == "flat":
            return [self.numel]
        return [self.shape(k) for k in range(self.spec_ndims)]


def bv(name):
    return t.bvar(name)


class Obl:
    __slots__ = ("name", "ok", "kind", "time", "detail", "backend", "reason")

    def __init__(self, name, kind, ok, tm, detail, backend, reason=None):
        self.name, self.kind, self.ok, self.time, self.detail, self.backend = name, kind, ok, tm, detail, backend
        self.reason = reason


class Frame:
    def __init__(self, mod, fn):
        self.mod, self.fn = mod, fn
        self.env = {}
        self.allocas = {}


class Engine:
    def __init__(self, mod, contracts, fname=""):
        self.mod = mod
        self.contracts = contracts
        self.fname = fname
        self.mem = {}
        self.facts = []
        self.obls = []
        self.arrayize = set()
        self.want = None
        self.dry = 0
        self.assumed = set()
        self.loopvars = []      # enclosing iteration variables (atoms)
        self.depth = 0
        self.loopinfo = {}
        self.modified = []      # stack of sets
        self.privs = []         # stack of sets: objects whose lifetime starts inside the loop
        self.omp_cond = {}
        self.globals = {}
        self.ghosts = []
        self.under = set()      # functions verified inline
        self.called = set()     # contracts used
        self.where = "?"
        self.safety = True
        self.freed = []
        self.bases = {}         # tag -> (region, Cont) for loop bases
        self.invariants = {}
        self.seen_names = {}
        self.max_obl_fail = 25
        self.opts = {}
        self.lemma_ufs = {}
        self.newmems = []
        self.elements = {}      # documented preconditions on the elements of an array
        self.heap = []
        self.univ = []          # (k, lo, hi, guard, b): b holds for every k in the range
        self.forall = []        # preconditions on every index, as functions of the index

    # ------------------------------------------------------------ obligations
    def oblig(self, kind, goal, guard, detail=""):
        if self.dry:
            return True
        if self.want is not None and kind not in self.want:
            return True
        name = "%s|%s|%s|%s" % (self.fname, kind, self.where, detail)
        n = self.seen_names.get(name, 0)
        self.seen_names[name] = n + 1
        if n:
            name += "#%d" % n
        if goal is FALSE and guard is FALSE:
            return True
        t0 = time.time()
        q0 = prover.STATS["z3_queries"]
        ok = self.prove(goal, guard)
        dt = time.time() - t0
        be = "z3" if prover.STATS["z3_queries"] > q0 else "normaliser"
        reason = None
        if not ok:
            reason = "goal: %s" % t.show(goal)
            m = prover.LAST_MODEL[0]
            if m is not None:
                reason += "\nmodel: " + ", ".join("%s=%s" % (d.name(), m[d]) for d in m.decls() if d.arity() == 0)[:1500]
        self.obls.append(Obl(name, kind, ok, dt, detail, be, reason))
        return ok

    def prove(self, goal, guard, timeout=None):
        if goal is TRUE:
            return True
        g = list(self.gl(guard))
        if goal.k == "and":
            return all(self.prove(x, guard) for x in goal.a)
        facts = self.facts + g
        m = prover.eqsubst(facts)
        if m:
            g2 = subst(goal, m)
            if g2 is TRUE:
                return True
        if prover.valid(goal, facts, timeout):
            return True
        if m:
            f2 = [subst(f, m) for f in facts]
            return prover.valid(g2, f2, timeout)
        return False

    # ------------------------------------------------------------ fresh values
    def fresh_dep(self, name, s):
        if not self.loopvars:
            return fresh(name, s)
        n = "%s!%d" % (name, next(t._fresh))
        return t.uf(n, [atom(v) for v in self.loopvars], s)

    def fresh_base(self, region, name, zero=False):
        tag = "%s!%d" % (name, next(t._fresh))
        return Cont(tag=(region, "zero" if zero else tag))

    # --------------------------------------------------------------- functions
    def call_function(self, fn, args, guard):
        """execute a function body of the module; returns value"""
        if self.depth > 24:
            raise Unsupported("call depth (recursion?) in " + fn.name)
        self.under.add(fn.name)
        self.depth += 1
        fr = Frame(self.mod, fn)
        for (ty, nm), a in zip(fn.params, args):
            fr.env[nm] = a
        entry = fn.order[0]
        loops, inner, idx, rpo = ir.loops_of(fn)
        edges, rets, _ = self.run_blocks(fr, None, entry, guard, {})
        self.depth -= 1
        val = None
        if rets:
            val = rets[-1][1]
            for g, v in rets[:-1][::-1]:
                val = vite(self.rel(g, guard), v, val) if v is not None else None
        rg = or_(*[g for g, v in rets]) if rets else FALSE
        self.last_ret_guard = rg
        for a in fr.allocas.values():
            pass
        return val

    def rel(self, g, base):
        """literals of g not already in base"""
        if g is base:
            return TRUE
        s = set(lits(base))
        if g.k == "and":
            return and_(*[x for x in g.a if x not in s])
        return TRUE if g in s else g

    def run_blocks(self, fr, loop, entry, guard, phivals):
        """Execute blocks (of the whole function, or one iteration of `loop`)
        in topological order. Returns (exit edges, rets, latch edges)."""
        fn = fr.fn
        loops, inner, idx, rpo = ir.loops_of(fn)
        pend = {}            # block -> list of (guard, {phi: val})
        pend[entry] = [(guard, phivals)]
        blocks = [b for b in rpo if (loop is None or b in loop.blocks)]
        exits, rets, latch = {}, [], []
        nexp = {}

        def edge(p, s, g, target_env):
            if g is FALSE:
                return
            vals = {}
            for ins in fn.blocks[s].ins:
                if ins.op != "phi":
                    break
                for v, b in ins.x:
                    if b == p:
                        vals[ins.res] = self.value(fr, v)
            if loop is not None and s == loop.header:
                latch.append((g, vals))
            elif loop is not None and s not in loop.blocks:
                exits.setdefault((p, s), []).append((g, vals))
            else:
                pend.setdefault(s, []).append((g, vals))

        for b in blocks:
            if b not in pend:
                continue
            ib = inner.get(b)
            if ib is not loop and b != entry:
                # inside an inner loop
                if ib.header != b or ib.parent is not loop:
                    continue
                inc = pend[b]
                g = self.join_guard(inc, fr, b)
                init = self.merge_phis(inc, g)
                ex = self.do_loop(fr, ib, g, init)
                for (p, s), lst in ex.items():
                    for gg, vals in lst:
                        if loop is not None and s == loop.header:
                            latch.append((gg, vals))
                        elif loop is not None and s not in loop.blocks:
                            exits.setdefault((p, s), []).append((gg, vals))
                        else:
                            pend.setdefault(s, []).append((gg, vals))
                continue
            if ib is not loop and b == entry and ib is not None and ib.header == b and (loop is None):
                # function entry is a loop header: cannot happen (entry has no preds)
                raise Unsupported("loop at entry")
            inc = pend[b]
            g = self.join_guard(inc, fr, b)
            if g is FALSE:
                continue
            vals = self.merge_phis(inc, g)
            fr.env.update(vals)
            blk = fn.blocks[b]
            dead = False
            for ins in blk.ins:
                if ins.op == "phi":
                    continue
                if ins.op in ("br", "switch", "ret", "unreachable", "invoke", "resume"):
                    break
                self.ins = ins
                if not self.dry:
                    self.where = self.mod.where(ins)
                self.exec_ins(fr, ins, g)
            ins = blk.ins[-1]
            self.ins = ins
            if ins.op == "br":
                if not ins.ops:
                    edge(b, ins.x[0], g, None)
                else:
                    c = self.boolval(self.value(fr, ins.ops[0]))
                    if c.k in ("and", "or"):
                        d_ = t.decide_lits(c, set(self.gl(g)))
                        if d_ is not None:
                            c = TRUE if d_ else FALSE
                    if c is not TRUE and c is not FALSE and self.opts.get("decide"):
                        c = self.settled(c, g)
                    edge(b, ins.x[0], self.gand(g, c), None)
                    edge(b, ins.x[1], self.gand(g, not_(c)), None)
            elif ins.op == "switch":
                v = self.value(fr, ins.ops[0])
                if v.s == "b":
                    v = ite(v, I(1), I(0))
                other = g
                by = {}
                for cv, dest in ins.x[1]:
                    if not isinstance(cv, int):
                        cv = 1 if cv else 0
                    c = self.eq_rot(v, cv, ins.ops[0].ty)
                    by.setdefault(dest, []).append(c)
                    other = self.gand(other, not_(c))
                for dest, cs in by.items():
                    edge(b, dest, self.gand(g, or_(*cs)), None)
                edge(b, ins.x[0], other, None)
            elif ins.op == "ret":
                rets.append((g, self.value(fr, ins.ops[0]) if ins.ops else None))
            elif ins.op == "invoke":
                self.exec_ins(fr, ins, g)
                edge(b, ins.x["succ"][0], g, None)
            elif ins.op in ("unreachable", "resume"):
                pass
        return exits, rets, latch

    def settled(self, c, g):
        """c, or its truth value where the facts (and the path) decide it"""
        key = (c, g, len(self.facts))
        memo = self.__dict__.setdefault("_settled", {})
        if key not in memo:
            r = c
            try:
                if self.prove(c, g, 1500):
                    r = TRUE
                elif self.prove(not_(c), g, 1500):
                    r = FALSE
            except Unsupported:
                pass
            memo[key] = r
        return memo[key]

    def eq_rot(self, v, cv, ty):
        """v == cv; a rotation is a bijection, so compare its operand instead"""
        a = as_atom(v)
        if a is not None and a.k == "uf" and a.a[0] == "rotl":
            n = ty.a[0]
            k = int(cval(a.a[2])) % n
            c = cv % (1 << n)
            c = ((c >> k) | (c << (n - k))) % (1 << n)
            if c >= 1 << (n - 1):
                c -= 1 << n
            return eq(a.a[1], I(c))
        return eq(v, I(cv))

    def gl(self, g):
        return prover.closure(lits(g))

    def factset(self):
        n = len(self.facts)
        c = self.__dict__.get("_fs_cache")
        if c is not None and c[0] == n and (n == 0 or c[1] is self.facts[-1]):
            return c[2]
        v = set()
        for f in self.facts:
            v.update(lits(f))
        self._fs_cache = (n, self.facts[-1] if n else None, v)
        return v

    def gand(self, g, c):
        """g and c, dropping what c's closure already says"""
        if c is not TRUE and c is not FALSE:
            fs = self.factset()
            for x in lits(c):
                if not_(x) in fs:
                    return FALSE
        if g is TRUE or g is FALSE or c is TRUE or c is FALSE:
            return and_(g, c)
        cl = set()
        for x in lits(c):
            if x in prover.IMPL:
                cl.update(prover.closure((x,)))
        if cl:
            if any(not_(x) in cl for x in lits(g)):
                return FALSE
            g = and_(*[x for x in lits(g) if x not in cl])
        gl_ = prover.closure(lits(g))
        if any(not_(x) in gl_ for x in lits(c)):
            return FALSE
        c = and_(*[x for x in lits(c) if x not in gl_])
        return and_(g, c)

    def name_status(self, v):
        """give the current value of the status variable a name (definition kept
        as a fact), so that path conditions stay small"""
        if self.loopvars or not isinstance(v, T) or v.s != "i" or cval(v) is not None or as_atom(v) is not None \
                and as_atom(v).k != "ite":
            return v
        st = fresh("st", "i")
        prover.DEFS[as_atom(st)] = eq(st, v)
        z = eq(v, I(0))
        prover.IMPL[eq(st, I(0))] = tuple(lits(z))
        return st

    def join_guard(self, inc, fr, b):
        if len(inc) == 1:
            return inc[0][0]
        gs = [g for g, v in inc]
        # common prefix
        common = None
        for g in gs:
            s = set(lits(g))
            common = s if common is None else common & s
        r = or_(*[and_(*[x for x in lits(g) if x not in common]) for g in gs])
        if r is not TRUE and r is not FALSE and r.k == "or" and len(gs) <= 6:
            # semantic check: does the disjunction cover everything under the common part?
            if prover.valid(r, [], timeout=500):
                r = TRUE
        return and_(r, *common)

    def merge_phis(self, inc, g):
        if len(inc) == 1:
            return inc[0][1]
        common = None
        for gg, v in inc:
            s = set(lits(gg))
            common = s if common is None else common & s
        rel = [and_(*[x for x in lits(gg) if x not in common]) for gg, v in inc]
        out = {}
        for k in inc[0][1]:
            v = inc[-1][1][k]
            for i in range(len(inc) - 2, -1, -1):
                v = vite(rel[i], inc[i][1][k], v)
            out[k] = v
        return out

    # ------------------------------------------------------------------ values
    def boolval(self, v):
        if isinstance(v, UndefV):
            raise Unsupported("branch on undefined value")
        if isinstance(v, OpaqueV):
            raise Unsupported("branch on " + v.why)
        if v.s == "b":
            return v
        return ne(v, I(0))

    def numval(self, v, s="i"):
        if isinstance(v, UndefV):
            return self.fresh_dep("undef", s)
        if isinstance(v, T) and v.s == "b":
            return ite(v, I(1), I(0))
        return v

    def value(self, fr, v):
        k = v.k
        if k == "local":
            if v.v not in fr.env:
                raise Unsupported("undefined local %%%s in %s" % (v.v, fr.fn.name))
            return fr.env[v.v]
        if k == "int":
            if v.ty.k == "int" and v.ty.a[0] == 1:
                return t.B(v.v & 1)
            return I(v.v)
        if k == "fp":
            return R(v.v)
        if k == "fpspecial":
            return self.fpspecial(v.v)
        if k == "bool":
            return t.B(v.v)
        if k == "null":
            return NULL
        if k == "undef":
            return self.undef_of(v.ty)
        if k == "zero":
            return self.zero_of(v.ty)
        if k == "global":
            return self.global_ptr(v.v)
        if k == "agg":
            return Agg([self.value(fr, x) for x in v.v])
        if k == "gep":
            return self.gep(fr, v.x, v.v)
        if k == "cast":
            x = self.value(fr, v.v)
            return x
        if k == "cstr":
            return OpaqueV("string")
        raise Unsupported("constant %r" % v)

    def fpspecial(self, d):
        if d != d:
            return t.var("NaN", "r")
        return t.var("Inf", "r") if d > 0 else neg(t.var("Inf", "r"))

    def undef_of(self, ty):
        ty = self.mod.resolve(ty)
        if ty.k == "struct":
            return Agg([self.undef_of(x) for x in ty.a[1]])
        if ty.k in ("array", "vec"):
            return Agg([self.undef_of(ty.a[1])] * ty.a[0])
        return UNDEF

    def zero_of(self, ty):
        ty = self.mod.resolve(ty)
        if ty.k == "int":
            return FALSE if ty.a[0] == 1 else I(0)
        if ty.k == "fp":
            return R(0)
        if ty.k == "ptr":
            return NULL
        if ty.k == "struct":
            return Agg([self.zero_of(x) for x in ty.a[1]])
        if ty.k in ("array", "vec"):
            return Agg([self.zero_of(ty.a[1]) for _ in range(ty.a[0])])
        raise Unsupported("zero of %r" % ty)

    def global_ptr(self, name):
        if name in self.mod.funcs or name in self.mod.decls:
            return FuncRef(name)
        r = self.globals.get((self.mod, name))
        if r is None:
            g = self.mod.globals.get(name)
            r = Region("@" + name, "cells", writable=not (g and g[2]))
            r.isglobal = True
            self.globals[(self.mod, name)] = r
            cells = {}
            if g and g[1] is not None and g[0] is not None:
                try:
                    self.init_cells(cells, 0, g[0], g[1])
                except Unsupported:
                    cells = {}
            self.mem[r] = r.initial = cells
            if g and g[0] is not None:
                r.ty = g[0]
                try:
                    r.size = I(self.mod.sizeof(g[0]))
                except Exception:
                    pass
        if r not in self.mem:
            self.mem[r] = dict(r.initial)
        return Ptr(r, I(0))

    def init_cells(self, cells, off, ty, v):
        ty = self.mod.resolve(ty)
        if ty.k == "array":
            es = self.mod.sizeof(ty.a[1])
            if v.k == "zero":
                if ty.a[0] > 4096:
                    return
                for i in range(ty.a[0]):
                    self.init_cells(cells, off + i * es, ty.a[1], v)
            elif v.k == "agg":
                for i, x in enumerate(v.v):
                    self.init_cells(cells, off + i * es, ty.a[1], x)
            return
        if ty.k == "struct":
            offs = self.mod.layout(ty)[1]
            for i, f in enumerate(ty.a[1]):
                self.init_cells(cells, off + offs[i], f, v if v.k == "zero" else v.v[i])
            return
        if v.k == "zero":
            cells[(off, self.mod.sizeof(ty))] = self.zero_of(ty)
        else:
            cells[(off, self.mod.sizeof(ty))] = self.value(None, v)

    def gep(self, fr, sty, ops):
        base = self.value(fr, ops[0])
        off = I(0)
        ty = sty
        first = True
        for o in ops[1:]:
            ix = self.numval(self.value(fr, o))
            if isinstance(ix, (UndefV, OpaqueV)):
                raise Unsupported("address from undefined value")
            if first:
                off = add(off, scale(ix, self.mod.sizeof(ty)))
                first = False
                continue
            ty = self.mod.resolve(ty)
            if ty.k in ("array", "vec"):
                ty = ty.a[1]
                off = add(off, scale(ix, self.mod.sizeof(ty)))
            elif ty.k == "struct":
                n = int(cval(ix))
                off = add(off, I(self.mod.layout(ty)[1][n]))
                ty = ty.a[1][n]
            else:
                raise Unsupported("gep into %r" % ty)
        return self.ptr_add(base, off)

    def ptr_add(self, p, off):
        if isinstance(p, Ptr):
            return Ptr(p.r, add(p.off, off))
        if isinstance(p, PtrIte):
            return PtrIte(p.c, self.ptr_add(p.a, off), self.ptr_add(p.b, off))
        if isinstance(p, UndefV):
            return UNDEF
        raise Unsupported("pointer arithmetic on %r" % p)

    # ------------------------------------------------------------ instructions
    def exec_ins(self, fr, ins, g):
        op = ins.op
        env = fr.env
        V = lambda i: self.value(fr, ins.ops[i])
        if op == "getelementptr":
            env[ins.res] = self.gep(fr, ins.ty, ins.ops)
        elif op == "load":
            env[ins.res] = self.load(V(0), ins.ty, g)
        elif op == "store":
            self.store(V(1), V(0), ins.ty, g)
        elif op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor"):
            env[ins.res] = self.intop(op, V(0), V(1), ins, g)
        elif op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            env[ins.res] = self.fpop(op, V(0), V(1), g)
        elif op == "fneg":
            a = V(0)
            env[ins.res] = Agg([neg(x) for x in a.e]) if isinstance(a, Agg) else neg(self.fpv(a))
        elif op == "icmp":
            env[ins.res] = self.icmp(ins.x, V(0), V(1), ins, g)
        elif op == "fcmp":
            env[ins.res] = self.fcmp(ins.x, self.fpv(V(0)), self.fpv(V(1)))
        elif op == "select":
            env[ins.res] = vite(self.boolval(V(0)), V(1), V(2))
        elif op == "alloca":
            key = (ins.res, self.depth)
            n = 1
            size = None
            if ins.x is not None:
                nv = self.value(fr, ins.x)
                n = cval(nv)
                if n is None:
                    size = scale(nv, self.mod.sizeof(ins.ty))
                    r = Region("%s.%s" % (fr.fn.name, ins.res), "array", size=size, local=True)
                    r.heap_n = size
                    self.mem[r] = self.fresh_base(r, "uninit_" + ins.res)
                    env[ins.res] = Ptr(r, I(0))
                    return
            akey = (fr.fn.name, ins.res)
            if akey in self.arrayize:
                r = Region("%s" % (ins.res,), "array", size=I(int(n) * self.mod.sizeof(ins.ty)), local=True)
                dims, esz, sort = self.array_shape(ins.ty)
                r.dims, r.esize, r.sort = dims, esz, sort
                r.akey = akey
                self.mem[r] = self.fresh_base(r, "uninit_" + ins.res)
                env[ins.res] = Ptr(r, I(0))
                return
            r = Region("%s" % (ins.res,), "cells", size=I(int(n) * self.mod.sizeof(ins.ty)), local=True)
            r.ty = ins.ty
            r.akey = akey
            self.mem[r] = {}
            env[ins.res] = Ptr(r, I(0))
        elif op in ("zext", "sext", "trunc", "fptrunc", "fpext", "sitofp", "uitofp", "fptosi", "fptoui", "bitcast",
                    "ptrtoint", "inttoptr", "addrspacecast", "freeze"):
            env[ins.res] = self.cast(op, V(0), ins, g)
        elif op in ("call", "invoke"):
            self.call(fr, ins, g)
        elif op == "extractvalue":
            v = V(0)
            for i in ins.x:
                v = v.e[i] if isinstance(v, Agg) else UNDEF
            env[ins.res] = v
        elif op == "insertvalue":
            env[ins.res] = self.insert(V(0), V(1), ins.x)
        elif op == "extractelement":
            v, i = V(0), V(1)
            env[ins.res] = v.e[int(cval(i))]
        elif op == "insertelement":
            v, e, i = V(0), V(1), V(2)
            if isinstance(v, UndefV):
                v = self.undef_of(ins.ty)
            env[ins.res] = self.insert(v, e, [int(cval(i))])
        elif op == "shufflevector":
            a, b, mk = V(0), V(1), V(2)
            ae = list(a.e) + list(b.e)
            out = []
            for m in mk.e:
                out.append(UNDEF if isinstance(m, UndefV) else ae[int(cval(m))])
            env[ins.res] = Agg(out)
        elif op == "fence":
            pass
        elif op == "atomicrmw":
            p, v = V(0), V(1)
            old = self.load(p, ins.ty, g)
            if ins.x == "add":
                new = add(old, v)
            elif ins.x == "sub":
                new = sub(old, v)
            elif ins.x == "fadd":
                new = add(old, v)
            elif ins.x == "xchg":
                new = v
            else:
                raise Unsupported("atomicrmw " + ins.x)
            self.store(p, new, ins.ty, g)
            if ins.res:
                env[ins.res] = old
        elif op == "landingpad":
            env[ins.res] = UNDEF
        else:
            raise Unsupported("instruction " + op)

    def insert(self, v, e, idx):
        if not idx:
            return e
        es = list(v.e)
        es[idx[0]] = self.insert(es[idx[0]], e, idx[1:])
        return Agg(es)

    def fpv(self, v):
        if isinstance(v, UndefV):
            return self.fresh_dep("undef", "r")
        if isinstance(v, OpaqueV):
            raise Unsupported(v.why)
        return v

    def fpop(self, op, a, b, g):
        if isinstance(a, Agg):
            return Agg([self.fpop(op, x, y, g) for x, y in zip(a.e, b.e)])
        a, b = self.fpv(a), self.fpv(b)
        if op == "fadd":
            return add(a, b)
        if op == "fsub":
            return sub(a, b)
        if op == "fmul":
            return mul(a, b)
        if op == "fdiv":
            return t.rdiv(a, b)
        return t.uf("fmod", (a, b), "r")

    def icmp(self, pred, a, b, ins, g):
        if isinstance(a, (Ptr, PtrIte, FuncRef)) or isinstance(b, (Ptr, PtrIte, FuncRef)):
            return self.ptrcmp(pred, a, b, g)
        if isinstance(a, UndefV) or isinstance(b, UndefV):
            raise Unsupported("comparison of undefined value")
        if isinstance(a, OpaqueV) or isinstance(b, OpaqueV):
            raise Unsupported("comparison of opaque value")
        if a.s == "b" or b.s == "b":
            if pred == "eq":
                a2 = self.boolval(a) if a.s == "b" or cval(a) in (0, 1) else a
                return t.iff(self.boolval(a), self.boolval(b))
            if pred == "ne":
                return not_(t.iff(self.boolval(a), self.boolval(b)))
            a, b = self.numval(a), self.numval(b)
        if pred == "eq":
            return eq(a, b)
        if pred == "ne":
            return ne(a, b)
        if pred[0] == "u":
            a, b = self.unsigned(a, ins.ty, g), self.unsigned(b, ins.ty, g)
        return {"lt": lt, "le": le, "gt": gt, "ge": ge}[pred[1:]](a, b)

    def unsigned(self, a, ty, g):
        c = cval(a)
        n = ty.a[0]
        if c is not None:
            return I(int(c) % (1 << n))
        if self.prove(ge(a, I(0)), g, 1500):
            return a
        return ite(ge(a, I(0)), a, add(a, I(1 << n)))

    def ptrcmp(self, pred, a, b, g):
        a, b = psimp(a, g), psimp(b, g)
        if isinstance(a, PtrIte):
            return ite(a.c, self.ptrcmp(pred, a.a, b, and_(g, a.c)), self.ptrcmp(pred, a.b, b, and_(g, not_(a.c))))
        if isinstance(b, PtrIte):
            return ite(b.c, self.ptrcmp(pred, a, b.a, g), self.ptrcmp(pred, a, b.b, g))
        if isinstance(a, FuncRef) or isinstance(b, FuncRef):
            same = isinstance(a, FuncRef) and isinstance(b, FuncRef) and a.name == b.name
            return t.B(same == (pred == "eq"))
        if isinstance(a, UndefV) or isinstance(b, UndefV):
            raise Unsupported("comparison of undefined pointer")
        if a.r is b.r:
            if pred == "eq":
                return eq(a.off, b.off)
            if pred == "ne":
                return ne(a.off, b.off)
            return {"lt": lt, "le": le, "gt": gt, "ge": ge}[pred[1:]](a.off, b.off)
        na, nb = self.isnull(a), self.isnull(b)
        if a.r is None or b.r is None:
            r = nb if a.r is None else na
        else:
            r = and_(na, nb)
        if pred == "eq":
            return r
        if pred == "ne":
            return not_(r)
        raise Unsupported("ordering of pointers into different objects")

    def isnull(self, p):
        if p.r is None:
            return TRUE
        n = getattr(p.r, "isnull", None)
        if n is not None:
            return n
        if p.r.kind == "handle":
            return getattr(p.r.obj, "isnull", FALSE)
        if p.r.mem is not None:
            return getattr(p.r.mem, "isnull", FALSE)
        return FALSE

    def fcmp(self, pred, a, b):
        if pred == "uno":
            return FALSE
        if pred == "ord":
            return TRUE
        p = pred[1:]
        if p == "eq":
            return eq(a, b)
        if p == "ne":
            return ne(a, b)
        return {"lt": lt, "le": le, "gt": gt, "ge": ge}[p](a, b)

    def intop(self, op, a, b, ins, g):
        if isinstance(a, (Ptr, PtrIte)) or isinstance(b, (Ptr, PtrIte)):
            # ptrtoint arithmetic
            if op == "sub":
                a, b = psimp(a, g), psimp(b, g)
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r:
                    return sub(a.off, b.off)
            raise Unsupported("integer arithmetic on pointers")
        if isinstance(a, UndefV):
            a = self.undef_scalar(ins.ty)
        if isinstance(b, UndefV):
            b = self.undef_scalar(ins.ty)
        bits = ins.ty.a[0] if ins.ty.k == "int" else 64
        if bits == 1:
            a, b = self.boolval(a), self.boolval(b)
            if op == "and":
                return and_(a, b)
            if op == "or":
                return or_(a, b)
            if op == "xor":
                return not_(t.iff(a, b)) if b is not TRUE else not_(a)
            raise Unsupported("i1 " + op)
        a, b = self.numval(a), self.numval(b)
        if op == "add":
            return self.wrap(add(a, b), ins, g)
        if op == "sub":
            return self.wrap(sub(a, b), ins, g)
        if op == "mul":
            return self.wrap(mul(a, b), ins, g)
        if op in ("sdiv", "srem"):
            self.oblig("div-by-zero", ne(b, I(0)), g, t.show(b)[:60])
            return self.divmod(op, a, b, g)
        if op in ("udiv", "urem"):
            self.oblig("div-by-zero", ne(b, I(0)), g, t.show(b)[:60])
            return self.divmod("s" + op[1:], self.unsigned(a, ins.ty, g), self.unsigned(b, ins.ty, g), g)
        cb, ca = cval(b), cval(a)
        if op == "shl" and cb is not None:
            return scale(a, 1 << int(cb))
        if op == "shl":
            return mul(a, t.uf("pow2", (b,), "i")) if ca != 1 else t.uf("pow2", (b,), "i")
        if op == "lshr" and cb is not None:
            return self.divmod("sdiv", self.unsigned(a, ins.ty, g), I(1 << int(cb)), g)
        if op == "ashr" and cb is not None:
            d = 1 << int(cb)
            if all(c % d == 0 for m, c in a.a):
                return scale(a, Fraction(1, d))
            return t.toint("floor", scale(t.toreal(a), Fraction(1, d)))
        if op == "and":
            if ca is not None and cb is not None:
                return I(int(ca) & int(cb))
            if ca is not None:
                a, b, ca, cb = b, a, cb, ca
            if cb is not None and cb >= 0 and (int(cb) & (int(cb) + 1)) == 0:
                n = int(cb) + 1
                if self.prove(ge(a, I(0)), g, 1000):
                    return self.divmod("srem", a, I(n), g)
                # a mod n (Euclidean)
                fl = t.toint("floor", scale(t.toreal(a), Fraction(1, n)))
                return sub(a, scale(fl, n))
            if cb is not None and cb < 0:
                n = -int(cb)
                if n & (n - 1) == 0:     # clear low bits
                    fl = t.toint("floor", scale(t.toreal(a), Fraction(1, n)))
                    return scale(fl, n)
        if op == "or" and ca is not None and cb is not None:
            return I(int(ca) | int(cb))
        if op == "or" and "disjoint" in (ins.x or []):
            return add(a, b)
        if op == "or" and ca is not None:
            a, b, ca, cb = b, a, cb, ca
        if op == "or" and cb is not None and cb > 0 and int(cb) & (int(cb) - 1) == 0:
            c = int(cb)              # set one bit
            if self.prove(and_(le(I(0), a), lt(a, I(c))), g, 1000):
                return add(a, I(c))
            bit = t.emod(t.fdiv(a, I(c)), I(2))
            return ite(eq(bit, I(1)), a, add(a, I(c)))
        if op == "xor" and cb == -1:
            return sub(neg(a), I(1))
        return t.uf(op, (a, b), "i")

    def undef_scalar(self, ty):
        if ty.k == "int" and ty.a[0] == 1:
            return freshb("undef")
        return self.fresh_dep("undef", "r" if ty.k == "fp" else "i")

    def divmod(self, op, a, b, g):
        r = t.idiv(op, a, b)
        return r

    def wrap(self, v, ins, g):
        """integer results are mathematical; narrow types get an overflow
        obligation unless configured off"""
        return v

    def cast(self, op, v, ins, g):
        if op in ("bitcast", "ptrtoint", "inttoptr", "addrspacecast", "freeze"):
            if op == "bitcast" and isinstance(v, T) and ins.ty.k == "fp" and v.s == "i":
                raise Unsupported("bit pattern to float")
            if op == "bitcast" and isinstance(v, T) and ins.ty.k == "int" and v.s == "r":
                return t.uf("fpbits", (v,), "i")
            return v
        if isinstance(v, UndefV):
            return UNDEF
        if op == "zext":
            if v.s == "b":
                return ite(v, I(1), I(0))
            return self.unsigned(v, ins.ops[0].ty, g)
        if op == "sext":
            if v.s == "b":
                return ite(v, I(-1), I(0))
            return v
        if op == "trunc":
            n = ins.ty.a[0]
            if n == 1:
                if v.s == "b":
                    return v
                a = as_atom(v)
                if a is not None and a.k == "ite" and cval(a.a[1]) in (0, 1) and cval(a.a[2]) in (0, 1):
                    return or_(and_(a.a[0], t.B(cval(a.a[1]) == 1)), and_(not_(a.a[0]), t.B(cval(a.a[2]) == 1)))
                c = cval(v)
                if c is not None:
                    return t.B(int(c) & 1)
                if a is not None and a.k == "sel" and a.a[0] in BOOLTAGS:
                    return ne(v, I(0))
                return ne(self.divmod("srem", v, I(2), g), I(0))
            c = cval(v)
            if c is not None:
                c = int(c) % (1 << n)
                if c >= 1 << (n - 1):
                    c -= 1 << n
                return I(c)
            v = self.numval(v)
            self.assumed.add("integer truncations to %d bits preserve the value (sizes and indices below 2^%d)" % (n, n - 1))
            return v
        if op in ("sitofp", "uitofp"):
            if op == "uitofp":
                v = self.unsigned(self.numval(v), ins.ops[0].ty, g) if v.s != "b" else self.numval(v)
            v = self.numval(v)
            if ins.ty.a[0] == "float":
                return self.rnd32(t.toreal(v))
            return t.toreal(v)
        if op == "fpext":
            return v
        if op == "fptrunc":
            v = self.fpv(v)
            if ins.ty.a[0] == "float" and ins.ops[0].ty.a[0] == "double":
                return self.rnd32(v)
            return v
        if op in ("fptosi", "fptoui"):
            return t.toint("trunc", self.fpv(v))
        raise Unsupported("cast " + op)

    def rnd32(self, v):
        c = cval(v)
        if c is not None:
            import struct
            try:
                f = struct.unpack("f", struct.pack("f", float(c)))[0]
                if f == float(c):
                    return v
            except OverflowError:
                pass
        a = as_atom(v)
        if a is not None and a.k == "sel" and False:
            return v
        return t.uf("rnd32", (v,), "r")

    # ------------------------------------------------------------------ memory
    def load(self, p, ty, g):
        p = psimp(p, g)
        if isinstance(p, PtrIte):
            a = self.load(p.a, ty, and_(g, p.c))
            b = self.load(p.b, ty, and_(g, not_(p.c)))
            return vite(p.c, a, b)
        if not isinstance(p, Ptr):
            raise Unsupported("load through %r" % p)
        if p.r is None:
            self.oblig("null-deref", FALSE, g, "load through null")
            return self.havoc_ty(ty)
        ty = self.mod.resolve(ty)
        if ty.k == "vec":
            es = self.mod.sizeof(ty.a[1])
            return Agg([self.load(Ptr(p.r, add(p.off, I(i * es))), ty.a[1], g) for i in range(ty.a[0])])
        if ty.k == "struct":
            offs = self.mod.layout(ty)[1]
            return Agg([self.load(Ptr(p.r, add(p.off, I(o))), f, g) for o, f in zip(offs, ty.a[1])])
        if ty.k == "array":
            es = self.mod.sizeof(ty.a[1])
            return Agg([self.load(Ptr(p.r, add(p.off, I(i * es))), ty.a[1], g) for i in range(ty.a[0])])
        self.null_check(p, g)
        r = p.r
        if r.kind == "cells":
            c = cval(p.off)
            if c is None:
                return self.load_cells_sym(r, p.off, ty, g)
            return self.load_cell(r, int(c), ty, g)
        if r.kind == "array":
            idx = self.locate(r, p.off, ty, g, "read")
            v = self.read(self.mem[r], r, idx, g)
            return self.coerce(v, ty)
        raise Unsupported("load from %s object %s" % (r.kind, r.name))

    def coerce(self, v, ty):
        if isinstance(v, T):
            if ty.k == "int" and ty.a[0] == 1 and v.s == "i":
                return ne(v, I(0))
            if ty.k == "int" and v.s == "b":
                return ite(v, I(1), I(0))
        return v

    def null_check(self, p, g):
        n = self.isnull(p)
        if n is not FALSE:
            self.oblig("null-deref", not_(n), g, p.r.name)

    def havoc_ty(self, ty):
        ty = self.mod.resolve(ty)
        if ty.k == "int":
            return freshb("u") if ty.a[0] == 1 else self.fresh_dep("u", "i")
        if ty.k == "fp":
            return self.fresh_dep("u", "r")
        return UNDEF

    def load_cell(self, r, off, ty, g):
        sz = self.mod.sizeof(ty)
        cells = self.mem[r]
        if r.size is not None and cval(r.size) is not None and not (0 <= off and off + sz <= int(cval(r.size))):
            self.oblig("bounds", FALSE, g, "%s[%d]" % (r.name, off))
            return self.havoc_ty(ty)
        v = cells.get((off, sz))
        if v is None:
            f = getattr(r, "cell_init", None)
            if f:
                v = f(off, sz, ty)
                if v is not None:
                    cells = dict(cells)
                    cells[(off, sz)] = v
                    self.mem[r] = cells
                    return v
            # overlapping cells of another size
            for (o, s), w in cells.items():
                if o < off + sz and off < o + s:
                    # integer load of a bool or of a wider value
                    if o == off and isinstance(w, T) and w.s in "ib" and ty.k == "int" and s > sz:
                        return self.coerce(w, ty)
                    if isinstance(w, T) and cval(w) == 0:
                        return self.zero_of(ty)
                    # two 4-byte cells read as 8 bytes, etc.
                    return OpaqueV("partial read of %s+%d" % (r.name, off))
            if getattr(r, "zero", False):
                return self.zero_of(ty)
            return UNDEF if ty.k == "ptr" or r.local else self.havoc_ty(ty)
        if isinstance(v, T):
            if ty.k == "fp" and v.s == "i":
                if cval(v) == 0:
                    return R(0)
                a = as_atom(v)
                if a is not None and a.k == "uf" and a.a[0] == "fpbits":
                    return a.a[1]
                return OpaqueV("int bits read as float")
            if ty.k == "int" and v.s == "r":
                if cval(v) == 0:
                    return I(0)
                return t.uf("fpbits", (v,), "i")
            if ty.k == "ptr" and v.s == "i" and cval(v) == 0:
                return NULL
            v = self.assume_guard(v, g)
            return self.coerce(v, ty)
        if isinstance(v, (Ptr, PtrIte)):
            return psimp(v, g)
        return v

    def assume_guard(self, v, g):
        if isinstance(v, T) and v.k == "poly" and v.a and any(a.k == "ite" for m, c in v.a for a, e in m):
            return t.assume_lits(v, self.guard_lits(g))
        return v

    def guard_lits(self, g):
        gl = self.gl(g)
        key = (tuple(self.facts), g)
        c = self.__dict__.setdefault("_gl_cache", {})
        if c.get("k") is not None and c["k"][1] is g and len(c["k"][0]) == len(self.facts) and c["k"][0] == key[0]:
            return c["v"]
        v = set()
        for x in list(self.facts) + list(gl):
            v.update(lits(x))
        c["k"], c["v"] = key, v
        return v

    def load_cells_sym(self, r, off, ty, g):
        """symbolic index into a small constant-size object"""
        sz = self.mod.sizeof(ty)
        n = int(cval(r.size)) if r.size is not None and cval(r.size) is not None else None
        if n is None:
            raise Unsupported("symbolic offset into %s" % r.name)
        q = self.exact_div(off, sz)
        if q is None:
            base = None
            # struct of arrays: offset + sz*idx
            k = int(dict(off.a).get((), 0))
            q = self.exact_div(sub(off, I(k)), sz)
            if q is None:
                raise Unsupported("unaligned symbolic offset into %s" % r.name)
            q0 = k
        else:
            q0 = 0
        lo = -(q0 // sz)
        hi = (n - q0) // sz
        self.oblig("bounds", and_(le(I(lo), q), lt(q, I(hi))), g, r.name)
        if hi - lo > 256 or not r.local and not r.name.startswith("@"):
            if getattr(r, "cell_init", None) is None and hi - lo > 256:
                raise Unsupported("large table " + r.name)
        v = None
        for i in range(hi - lo - 1, -1, -1):
            c = eq(q, I(lo + i))
            if c is FALSE or r.cells_mixed(self.mem) and self.prove(not_(c), g):
                continue
            x = self.load_cell(r, q0 + i * sz, ty, and_(g, c) if r.cells_mixed(self.mem) else g)
            if isinstance(x, UndefV):
                x = self.havoc_ty(ty)
            v = x if v is None else vite(c, x, v)
        return self.havoc_ty(ty) if v is None else v

    def exact_div(self, p, n):
        d = {}
        for m, c in p.a:
            if (c / n).denominator != 1:
                return None
            d[m] = c / n
        return t.poly(d, p.s)

    def store(self, p, v, ty, g):
        p = psimp(p, g)
        if isinstance(p, PtrIte):
            self.store(p.a, v, ty, and_(g, p.c))
            self.store(p.b, v, ty, and_(g, not_(p.c)))
            return
        if not isinstance(p, Ptr):
            raise Unsupported("store through %r" % p)
        if g is FALSE:
            return
        if p.r is None:
            self.oblig("null-deref", FALSE, g, "store through null")
            return
        ty = self.mod.resolve(ty)
        if ty.k in ("vec", "array"):
            es = self.mod.sizeof(ty.a[1])
            for i in range(ty.a[0]):
                e = v.e[i] if isinstance(v, Agg) else v
                self.store(Ptr(p.r, add(p.off, I(i * es))), e, ty.a[1], g)
            return
        if ty.k == "struct":
            offs = self.mod.layout(ty)[1]
            for i, (o, f) in enumerate(zip(offs, ty.a[1])):
                self.store(Ptr(p.r, add(p.off, I(o))), v.e[i] if isinstance(v, Agg) else v, f, g)
            return
        self.null_check(p, g)
        r = p.r
        if not r.writable:
            self.oblig("frame", FALSE, g, "write to read-only %s" % r.name)
            return
        if r.kind == "cells":
            c = cval(p.off)
            if c is None:
                self.store_cells_sym(r, p.off, v, ty, g)
                return
            self.store_cell(r, int(c), v, ty, g)
            return
        if r.kind == "array":
            if isinstance(v, UndefV):
                v = self.undef_scalar(ty)
            if isinstance(v, OpaqueV):
                v = self.fresh_dep("opaque", "r" if ty.k == "fp" else "i")
            if isinstance(v, (Ptr, PtrIte, FuncRef)):
                raise Unsupported("pointer stored in array " + r.name)
            if v.s == "b":
                v = ite(v, I(1), I(0))
            idx = self.locate(r, p.off, ty, g, "write")
            self.mod_array(r)
            if r.mem is not None and not r.mem.isnew:
                self.oblig("frame", not_(r.mem.ro), g, "write to %s requires it to be writable" % r.name)
            if r.sort is not None and v.s != r.sort:
                raise Unsupported("mixed element types in " + r.name)
            self.mem[r] = Cont(self.mem[r], "set", (), g, idx, v, line=self.where)
            return
        if r.kind == "handle":
            self.oblig("frame", FALSE, g, "direct write into opaque object %s" % r.name)
            return
        raise Unsupported("store to %s" % r.kind)

    def mod_array(self, r):
        for s in self.modified:
            s.add(("a", r))

    def store_cell(self, r, off, v, ty, g):
        sz = self.mod.sizeof(ty)
        if r.size is not None and cval(r.size) is not None and not (0 <= off and off + sz <= int(cval(r.size))):
            self.oblig("bounds", FALSE, g, "%s[%d]" % (r.name, off))
            return
        if getattr(r, "const_cells", False):
            self.oblig("frame", FALSE, g, "write to %s" % r.name)
            return
        cells = dict(self.mem[r])
        for key in list(cells):
            if key != (off, sz) and key[0] < off + sz and off < key[0] + key[1]:
                del cells[key]
        old = cells.get((off, sz))
        if old is None:
            f = getattr(r, "cell_init", None)
            if f:
                old = f(off, sz, ty)
            if old is None:
                old = UNDEF
                if getattr(r, "zero", False):
                    old = self.zero_of(ty)
        gg = self.rel_cell_guard(r, g)
        if isinstance(old, UndefV) and gg is not TRUE and not r.local:
            old = self.havoc_ty(ty)
        if isinstance(old, T) and isinstance(v, T) and {old.s, v.s} == {"r", "i"}:
            old = UNDEF
        nv = vite(gg, v, old)
        if r is getattr(self, "status_region", None):
            nv = self.name_status(nv)
        cells[(off, sz)] = nv
        self.mem[r] = cells
        for s in self.modified:
            s.add(("c", r, off, sz, ty))
        f = getattr(r, "on_store", None)
        if f:
            f(self, off, v, g)

    def rel_cell_guard(self, r, g):
        b = getattr(r, "birth", None)
        return g

    def array_shape(self, ty):
        """nested array type -> (dims, scalar size, sort)"""
        dims = []
        ty = self.mod.resolve(ty)
        while True:
            if ty.k == "array":
                dims.append(I(ty.a[0]))
                ty = self.mod.resolve(ty.a[1])
            elif ty.k == "struct":
                fs = [self.mod.resolve(f) for f in ty.a[1]]
                if len(fs) > 1:
                    if any((f.k, f.a) != (fs[0].k, fs[0].a) for f in fs):
                        raise Unsupported("local array of mixed structures")
                    dims.append(I(len(fs)))
                ty = fs[0]
            else:
                break
        if ty.k not in ("fp", "int"):
            raise Unsupported("local array of %s" % ty.k)
        return dims or [I(1)], self.mod.sizeof(ty), "r" if ty.k == "fp" else "i"

    def store_cells_sym(self, r, off, v, ty, g):
        k = getattr(r, "akey", None)
        if k is not None and k not in self.arrayize:
            self.array_shape(r.ty)
            self.arrayize.add(k)
            raise Restart()
        sz = self.mod.sizeof(ty)
        if r.size is None or cval(r.size) is None:
            raise Unsupported("symbolic store into " + r.name)
        n = int(cval(r.size)) // sz
        k = int(dict(off.a).get((), 0))
        q = self.exact_div(off, sz)
        if q is None:
            raise Unsupported("unaligned symbolic store into " + r.name)
        self.oblig("bounds", and_(le(I(0), q), lt(q, I(n))), g, r.name)
        if n > 64:
            raise Unsupported("symbolic store into large local " + r.name)
        for i in range(n):
            c = eq(q, I(i))
            if c is FALSE or r.cells_mixed(self.mem) and self.prove(not_(c), g):
                continue
            self.store_cell(r, i * sz, v, ty, and_(g, c))

    # ------------------------------------------------------- array addressing
    def locate(self, r, off, ty, g, what):
        """byte offset -> logical index tuple, with bounds/type obligations"""
        sz = self.mod.sizeof(ty)
        if r.esize is None:
            if r.mem is None:
                r.esize = sz
        p = self.exact_div(off, sz)
        if p is None and self.dry:
            p = self.fresh_dep("idx", "i")
        if p is None:
            raise Unsupported("unaligned access to %s: %s / %d at %s" % (r.name, t.show(off), sz, self.where))
        if r.mem is not None:
            return self.locate_mem(r, p, ty, sz, g, what)
        if r.esize != sz:
            # e.g. memset bytes vs typed access
            raise Unsupported("access of size %d to %s with elements of size %d" % (sz, r.name, r.esize))
        n = self.exact_div(r.size, sz) if r.size is not None else None
        if r.sort is None:
            r.sort = "r" if ty.k == "fp" else "i"
        if n is None:
            raise Unsupported("object of unknown size " + r.name)
        if r.dims is None:
            r.dims = [n]
        idx = self.delin(p, r.dims, g)
        if idx is None and len(r.dims) == 1 and not self.dry:
            pass
        ok = None
        if idx is None:
            idx = (p,)
            goal = and_(le(I(0), p), lt(p, n))
            self.oblig("bounds", goal, g, "%s %s" % (what, r.name))
            if len(r.dims) != 1:
                raise Unsupported("flat access to " + r.name)
            return idx
        if len(r.dims) == 1:
            goal = and_(le(I(0), p), lt(p, n))
            if not self.dry:
                if not self.prove(goal, g, 2000):
                    # nonlinear: try a factorisation of the size
                    if self.bounds_by_factors(p, n, g):
                        self.obls.append(Obl("%s|bounds|%s|%s %s*" % (self.fname, self.where, what, r.name), "bounds",
                                             True, 0.0, "", "z3"))
                        return idx
                self.oblig("bounds", goal, g, "%s %s" % (what, r.name))
            return idx
        self.bounds_obl(idx, r.dims, g, what, r.name)
        return idx

    def bounds_by_factors(self, p, n, g):
        """0 <= p < n where n = product of factors: find an ordering of the factors
        for which p delinearises with every index in range"""
        if len(n.a) != 1:
            return False
        m, c = n.a[0]
        facs = []
        for a, e in m:
            facs += [atom(a)] * e
        if c != 1:
            facs.append(I(c))
        if len(facs) < 2 or len(facs) > 4:
            return False
        import itertools
        for perm in set(itertools.permutations(facs)):
            idx = self.delin(p, list(perm), g, strict=True)
            if idx is not None:
                if all(self.prove(and_(le(I(0), i), lt(i, d)), g) for i, d in zip(idx, perm)):
                    return True
        return False

    def bounds_obl(self, idx, dims, g, what, name):
        goal = TRUE
        for i, d in zip(idx, dims):
            goal = and_(goal, le(I(0), i), lt(i, d))
        self.oblig("bounds", goal, g, "%s %s" % (what, name))

    def locate_mem(self, r, p, ty, sz, g, what):
        M = r.mem
        if M.spec_ndims is None:
            raise Unsupported("no layout for data of " + M.name)
        # element type
        if r.sort is None:
            r.sort = "r" if ty.k == "fp" else "i"
        code = self.type_codes(M, ty)
        self.oblig("element-type", or_(*[eq(M.type, I(c)) for c in code]), g,
                   "%s %s as %s" % (what, M.name, ty.a[0] if ty.k == "fp" else "i%d" % ty.a[0]))
        if M.spec_ndims != "flat":
            self.oblig("rank", eq(M.ndims, I(M.spec_ndims)), g, "%s %s with %d dims" % (what, M.name, M.spec_ndims))
        self.oblig("location", eq(M.loc, I(0)), g, "%s %s in host memory" % (what, M.name))
        ncomp = 2 if M.cplx else 1
        dims = M.dimlist()
        strides = [M.stride(k) for k in range(len(dims))] if M.spec_ndims != "flat" else []
        sa = [as_atom(s) for s in strides]
        if strides and not self.dry and any(a.k == "ite" for m, c in p.a for a, e in m):
            p = prover.simp(p, self.facts + list(self.gl(g)))
        present = [s for s in sa if s is not None and any(s is a for m, c in p.a for a, e in m)]
        m0 = None
        if present:
            # strided view
            idx = []
            rest = p
            for s in sa:
                co = {}
                rr = {}
                for m, c in rest.a:
                    if any(a is s for a, e in m):
                        q = t.mono_divides(m, ((s, 1),))
                        co[q] = co.get(q, 0) + c
                    else:
                        rr[m] = c
                i = t.poly(co, "i")
                q = self.exact_div(i, ncomp)
                if q is None:
                    self.oblig("layout", FALSE, g, "%s %s: odd stride multiple" % (what, M.name))
                    return tuple(self.fresh_dep("idx", "i") for _ in range(len(dims) + (1 if M.cplx else 0)))
                idx.append(q)
                rest = t.poly(rr, "i")
            comp = rest
            if not M.cplx and cval(comp) != 0:
                # a unit last stride may have been folded: last index = rest
                self.oblig("layout", FALSE, g, "%s %s: residual offset" % (what, M.name))
            if M.cplx:
                idx.append(comp)
            d2 = list(dims) + ([I(2)] if M.cplx else [])
            self.bounds_obl(idx, d2, g, what, M.name)
            return tuple(idx)
        # contiguous addressing
        if M.spec_ndims != "flat" or not getattr(M, "isnew", False):
            if M.spec_ndims != "flat" and self.single_index_zero(p, ncomp):
                pass
            else:
                self.oblig("contiguity", M.contig, g, "%s %s by flat index" % (what, M.name))
        d2 = list(dims) + ([I(2)] if M.cplx else [])
        m0 = prover.eqsubst(self.facts + list(self.gl(g)))
        dd = [subst(d, m0) for d in d2] if m0 else d2
        pp = subst(p, m0) if m0 else p
        if any(as_atom(d) is None or as_atom(d).k == "ite" for d in dd) and not self.dry:
            ff = self.facts + list(self.gl(g))
            dd = [d if as_atom(d) is not None and as_atom(d).k == "var" else prover.simp(d, ff) for d in dd]
            pp = prover.simp(pp, ff)
        idx = self.delin(pp, dd, g)
        if idx is None:
            # flat access of an array known by its total size
            self.oblig("bounds", FALSE, g, "%s %s: index %s is not of the form of an index into it"
                       % (what, M.name, t.show(pp)[:80]))
            return tuple(self.fresh_dep("idx", "i") for _ in d2)
        self.bounds_obl(idx, dd, g, what, M.name)
        return tuple(idx)

    def single_index_zero(self, p, ncomp):
        c = cval(p)
        return c is not None and 0 <= c < ncomp

    def type_codes(self, M, ty):
        C = self.typecodes
        if ty.k == "fp":
            if ty.a[0] == "double":
                return [C["cdouble"]] if M.cplx else [C["double"]]
            return [C["cfloat"]] if M.cplx else [C["float"]]
        if ty.k == "int":
            return [C["int"]] if ty.a[0] == 32 else ([C["char"]] if ty.a[0] == 8 else [-1])
        return [-1]

    typecodes = {"void": 0, "char": 1, "int": 2, "float": 4, "double": 8, "cfloat": 36, "cdouble": 40}

    def delin(self, p, dims, g, strict=False):
        """flat index -> tuple for a row-major array of these dims"""
        if len(dims) == 1:
            return (p,)
        strides = [None] * len(dims)
        s = I(1)
        for k in range(len(dims) - 1, -1, -1):
            strides[k] = s
            s = mul(s, dims[k])
        idx = []
        rest = p
        for k in range(len(dims) - 1):
            q, rest2 = poly_divmod(rest, strides[k])
            if q is None:
                return None
            idx.append(q)
            rest = rest2
        idx.append(rest)
        if self.dry:
            return tuple(idx)
        # borrow adjustments: each inner index must be in range
        ok = True
        for k in range(len(dims) - 1, 0, -1):
            i, d = idx[k], dims[k]
            if self.quick_range(i, d, g):
                continue
            for adj in (-1, 1):
                i2 = sub(i, scale(d, adj))
                if self.quick_range(i2, d, g):
                    idx[k] = i2
                    idx[k - 1] = add(idx[k - 1], I(adj))
                    break
            else:
                ok = False
        if not ok and strict:
            return None
        if not ok:
            idx = self.split_flat(idx, dims, g)
        return tuple(idx)

    def split_flat(self, idx, dims, g):
        """an index running over a product of dimensions: divide it up"""
        idx = list(idx)
        for k in range(len(dims) - 1, 0, -1):
            i, d = idx[k], dims[k]
            if self.quick_range(i, d, g):
                continue
            lead = I(0)
            tot = d
            for j in range(k):
                lead = add(mul(lead, dims[j]), idx[j])
                tot = mul(tot, dims[j])
            m = add(mul(lead, d), i)
            if not self.prove(and_(le(I(0), m), lt(m, tot)), g, 3000):
                return idx
            for j in range(k):
                idx[j] = I(0)
            q = t.idiv("sdiv", m, d)
            r = sub(m, mul(q, d))
            outer = I(1)
            for j in range(k):
                outer = mul(outer, dims[j])
            # integer division lemma: 0 <= m < outer * d
            self.facts = self.facts + [implies(g, x) for x in
                                       (le(I(0), q), lt(q, outer), le(I(0), r), lt(r, d), lt(I(0), d))]
            idx[k] = r
            idx[k - 1] = q
        return idx

    def norm_div(self, x, facts):
        """simplify quotients whose remainder is known to be in range"""
        for _ in range(8):
            hit = None
            for n in t.atoms_in(x):
                if n.k == "uf" and n.a[0] == "sdiv":
                    p, d = n.a[1], n.a[2]
                    q, r = poly_divmod(p, d)
                    if q is None:
                        continue
                    if prover.valid(and_(le(I(0), r), lt(r, d)), facts, 1500):
                        hit = (n, q)
                        break
            if hit is None:
                return x
            x = subst(x, {hit[0]: hit[1]})
        return x

    def quick_range(self, i, d, g):
        ci, cd = cval(i), cval(d)
        if ci is not None and cd is not None:
            return 0 <= ci < cd
        return self.prove(and_(le(I(0), i), lt(i, d)), g, 1500)

    def region_guard(self, r, g):
        """is the region only observable under g (so a conditional whole write may
        be treated as unconditional)?"""
        return False

    def is_whole(self, r, off, n, g):
        """does [off, off+n) bytes cover the whole array"""
        if cval(off) != 0:
            return False
        if r.mem is not None:
            import contracts
            tot = mul(r.mem.numel, contracts.type_size(r.mem.type))
            return self.prove(eq(n, tot), g)
        return r.size is not None and (n is r.size or self.prove(eq(n, r.size), g))

    # ------------------------------------------------------------ array reads
    def read(self, cont, r, idx, g, extra=()):
        """content of region r at idx, under guard g"""
        chain, base = cont.chain()
        facts = self.facts + list(self.gl(g)) + list(extra)
        pend = []   # (cond, value, kind)
        i = len(chain) - 1
        res = None
        while i >= 0:
            u = chain[i]
            i -= 1
            m = self.match(u, idx, facts, r)
            if m is None:
                continue
            cond, val, kind = m
            if cond is FALSE:
                continue
            d = self.decide(cond, facts)
            if d is False:
                continue
            if kind == "set" and d is True:
                res = val
                break
            pend.append((cond if d is None else TRUE, val, kind))
        if res is None and len(pend) > 1:
            sets = [c for c, v, kd in pend if kd == "set"]
            if len(sets) > 1 and prover.valid(or_(*sets), facts, 1500):
                while pend[-1][2] != "set":
                    pend.pop()
                res = pend.pop()[1]
        if res is None:
            res = self.base_read(base, r, idx)
        for cond, val, kind in reversed(pend):
            if kind == "set":
                if isinstance(val, T) and isinstance(res, T) and val.s != res.s:
                    raise Unsupported("mixed types in " + r.name)
                res = ite(cond, val, res)
            else:
                z = t.const(0, res.s)
                res = add(res, ite(cond, val, z))
        return res

    def decide(self, c, facts):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        d = t.decide_lits(c, set(prover.flat_facts(facts)))
        if d is not None:
            return d
        if prover.valid(c, facts, 2000):
            return True
        if prover.valid(not_(c), facts, 2000):
            return False
        return None

    def base_read(self, base, r, idx):
        reg, tag = base.tag
        s = r.sort or "r"
        if tag == "zero":
            return t.const(0, s)
        v = t.sel(tag, idx, s)
        f = self.elements.get(tag)
        if f is not None and not self.dry:
            f = f(v)
            if f not in self.facts:
                self.facts.append(f)
        return v

    def match(self, u, idx, facts, r):
        """resolve update u for index idx: (cond, value, kind) or None"""
        if u.kind == "havoc":
            return u.guard, t.sel(u.tag, idx, r.sort or "r"), "set"
        if not u.bv:
            c = u.guard
            for a, b in zip(u.idx, idx):
                e = eq(a, b)
                if e is FALSE:
                    return None
                c = and_(c, e)
            return c, u.val, u.kind
        if len(u.idx) != len(idx):
            raise Unsupported("rank mismatch reading " + r.name)
        sols = {}
        bvs = [b for b, lo, hi in u.bv]
        uidx, tidx, dcond = merge_div(u.idx, idx)
        if dcond is not TRUE and prover.valid(dcond, facts, 1500):
            dcond = TRUE
        eqs = [sub(a, b) for a, b in zip(uidx, tidx)]
        changed = True
        while changed:
            changed = False
            for n, e in enumerate(eqs):
                if cval(e) is not None:
                    if cval(e) != 0:
                        return None
                    continue
                for b in bvs:
                    if b in sols:
                        continue
                    li = t.linear_in(e, b)
                    if li and abs(li[0]) == 1:
                        s = scale(li[1], -1 / li[0])
                        if b in t.fv(s):
                            continue
                        sols = {k: subst(v, {b: s}) for k, v in sols.items()}
                        sols[b] = s
                        eqs = [subst(x, {b: s}) for x in eqs]
                        changed = True
                        break
                if changed:
                    break
            if changed:
                continue
            for n, e in enumerate(eqs):
                if cval(e) is not None:
                    continue
                for b in bvs:
                    li = t.linear_in(e, b) if b not in sols else None
                    if not li or li[0] == 0 or li[0].denominator != 1 or b in t.fv(li[1]) or any(c.denominator != 1 for _, c in li[1].a):
                        continue
                    # m*b + rest = 0: b is the quotient where m divides the rest
                    m = int(abs(li[0]))
                    q = scale(li[1], -1 if li[0] > 0 else 1)
                    k = -int(dict(q.a).get((), 0)) % m
                    q = add(q, I(k))
                    whole = t.poly({x: c for x, c in q.a if c % m == 0}, q.s)
                    part = sub(q, whole)
                    s = add(scale(whole, Fraction(1, m)), t.fdiv(part, I(m)))
                    dcond = and_(dcond, eq(t.emod(part, I(m)), I(k)))
                    sols = {x: subst(v, {b: s}) for x, v in sols.items()}
                    sols[b] = s
                    eqs = [subst(x, {b: s}) if y != n else I(0) for y, x in enumerate(eqs)]
                    changed = True
                    break
                if changed:
                    break
        un = [b for b in bvs if b not in sols]
        cond = and_(dcond, subst(u.guard, sols), *[t.eq0(e) for e in eqs if cval(e) != 0])
        val = subst(u.val, sols)
        if has_div(val):
            val = self.norm_div(val, facts)
        if has_div(cond):
            cond = self.norm_div(cond, facts)
        rngs = {}
        for b, lo, hi in u.bv:
            lo2, hi2 = subst(lo, sols), subst(hi, sols)
            if b in sols:
                cond = and_(cond, le(lo2, sols[b]), lt(sols[b], hi2))
            else:
                rngs[b] = (lo2, hi2)
        if not un:
            return cond, val, u.kind
        if u.kind == "acc":
            # sum over the unresolved variables
            body = ite(cond, val, t.const(0, val.s))
            for b in reversed(un):
                lo2, hi2 = rngs[b]
                body = mk_sum(b, lo2, hi2, body)
            return TRUE, body, "acc"
        # set with unresolved variables: unique witness among the ghosts
        used = t.fv(cond) | t.fv(val)
        free = [b for b in un if b not in used]
        for b in free:
            cond = and_(cond, lt(rngs[b][0], rngs[b][1]))
        un = [b for b in un if b in used]
        if not un:
            return cond, val, "set"
        import itertools
        for cand in itertools.permutations(self.ghosts, len(un)):
            m = {b: atom(gv) for b, gv in zip(un, cand)}
            c2 = subst(cond, m)
            for b in un:
                c2 = and_(c2, le(subst(rngs[b][0], m), m[b]), lt(m[b], subst(rngs[b][1], m)))
            if prover.valid(c2, facts):
                return TRUE, subst(val, m), "set"
        # undetermined: opaque value under an opaque condition
        key = freshb("hit_" + r.name)
        key = and_(key, *[x for x in lits(cond) if not (t.fv(x) & set(un))])
        return key, t.sel("undetermined_%s!%d" % (r.name, next(t._fresh)), idx, val.s), "set"

    # -------------------------------------------------------------------- calls
    def call(self, fr, ins, g):
        cv = ins.x["callee"]
        if cv.k == "global":
            name = cv.v
        else:
            f = self.value(fr, cv)
            f = psimp(f, g)
            if isinstance(f, FuncRef):
                name = f.name
            elif isinstance(f, PtrIte):
                raise Unsupported("call through undetermined function pointer")
            else:
                raise Unsupported("indirect call")
        args = [self.value(fr, a) if a.ty is None or a.ty.k != "metadata" else UNDEF for a in ins.ops]
        r = self.call_named(fr, name, args, ins, g)
        if ins.res is not None:
            fr.env[ins.res] = r if r is not None else UNDEF

    def call_named(self, fr, name, args, ins, g):
        if g is FALSE:
            return UNDEF
        c = self.contracts.get(name)
        if c is None:
            for pref, f in PREFIXES:
                if name.startswith(pref):
                    c = f
                    break
        if c is not None and not self.inlined(name):
            self.called.add(name)
            return c(self, args, ins, g)
        fn = self.mod.funcs.get(name)
        if fn is not None:
            return self.call_function(fn, args, g)
        m2 = self.linker(name)
        if m2 is not None:
            save = self.mod
            self.mod = m2
            try:
                return self.call_function(m2.funcs[name], args, g)
            finally:
                self.mod = save
        raise Unsupported("call to %s, which has no contract" % name)

    def inlined(self, name):
        return any(name == x or x.endswith("*") and name.startswith(x[:-1]) for x in self.opts.get("inline", ()))

    def linker(self, name):
        """module of another translation unit whose function is verified in place"""
        import build
        for pref, rel in LINK:
            if name.startswith(pref):
                m = build.module(rel)
                if name in m.funcs:
                    return m
        return None

    # --------------------------------------------------------------------- loops
    def do_loop(self, fr, loop, g, init):
        """returns exit edges {(p, s): [(guard, phivals)]}"""
        key = (fr.fn.name, loop.header)
        info = self.loopinfo.setdefault(key, {"cells": set(), "arrays": set(), "affine": {}, "known": False})
        mem0 = dict(self.mem)
        facts0 = list(self.facts)
        where0 = self.where
        # ---- 1. discovery of modified state (dry), to a fixpoint
        for rounds in range(8):
            res = self.generic_iter(fr, loop, g, init, mem0, info, dry=True)
            self.mem = dict(mem0)
            self.facts = list(facts0)
            grew = not (res["cells"] <= self.cellkeys(info, mem0)) or not (res["arrays"] <= info["arrays"])
            newaff = self.find_affine(res, info)
            if not grew and not newaff and info["known"]:
                break
            info["cells"] |= res["cells"]
            info["arrays"] |= res["arrays"]
            info["known"] = True
            if not grew and not newaff:
                break
        else:
            raise Unsupported("loop analysis did not converge in " + fr.fn.name)
        # ---- 2. constant trip count: unroll
        trip = self.trip(res)
        par = self.parallel(fr, loop)
        if trip is not None and trip["N"] is not None and par is None:
            n = cval(trip["N"])
            if n is not None and n <= MAXUNROLL:
                return self.unroll(fr, loop, g, init, int(max(0, n)) + 2)
        # ---- 3. the iteration contract, with obligations
        rec = self.generic_iter(fr, loop, g, init, mem0, info, dry=False, trip=trip)
        if not (rec["cells"] <= self.cellkeys(info, mem0)) or not (rec["arrays"] <= info["arrays"]):
            raise Unsupported("unstable loop effects in " + fr.fn.name)
        trip = self.trip(rec)
        self.mem = dict(mem0)
        self.facts = list(facts0)
        rec["par"] = par
        return self.finish_loop(fr, loop, g, init, mem0, info, rec, trip)

    def parallel(self, fr, loop):
        """(directive, marker call) when the loop's iterations run concurrently"""
        notes = getattr(self.mod, "omp", None)
        if not notes:
            return None
        import omp
        par, lost = omp.parallel_loops(fr.fn, notes)
        p = par.get(loop.header)
        return None if p is None else (p[1], notes[p[1]], self.omp_cond.get(id(p[0]), TRUE))

    def omp_oblig(self, ident, note, what, ok, why):
        name = "%s|omp|%s:%d|%s" % (self.fname, os.path.basename(self.mod.name), note["line"], what)
        n = self.seen_names.get(name, 0)
        self.seen_names[name] = n + 1
        if n:
            name += "#%d" % n
        self.obls.append(Obl(name, "omp", bool(ok), 0.0, why, "z3", None if ok else why))

    def live_slots(self, rec):
        """slots whose value at the start of an iteration influences anything"""
        ats = {}
        for key in rec["keys"]:
            self.collect_atoms(rec["slots"][key][1], s := set())
            ats[key] = s
        used = set()
        for r in rec["arrays"]:
            chain, base = rec["mem"][r].chain()
            for u in chain:
                for x in tuple(u.idx or ()) + (u.guard, u.val):
                    if x is not None:
                        used |= t.atoms_in(x) if isinstance(t.atoms_in(x), set) else set(t.atoms_in(x))
        used |= set(t.atoms_in(rec["cont"]))
        for e, lst in rec["exits"].items():
            for gg, vals in lst:
                used |= set(t.atoms_in(gg))
        live = set(key for key in rec["keys"] if ats[key] & used or key[0] != "phi")
        grew = True
        while grew:
            grew = False
            for key in list(live):
                nx = rec["next"][key]
                if isinstance(nx, T):
                    used |= set(t.atoms_in(nx))
                else:
                    self.collect_atoms(nx, used)
            for key in rec["keys"]:
                if key not in live and ats[key] & used:
                    live.add(key)
                    grew = True
        # a sum that survives the loop
        for key in rec["keys"]:
            nx = rec["next"][key]
            if key not in live and isinstance(nx, T) and isinstance(rec["slots"][key][1], T) and nx.s in "ir" \
                    and ats[key] & set(t.atoms_in(nx)):
                live.add(key)
        return live

    def omp_check(self, rec, g, subs, pend_slots, finals, full_facts):
        """iterations of a parallel loop must be independent of each other"""
        ident, note, cond = rec["par"]
        if self.dry or (self.want is not None and "omp" not in self.want):
            return
        facts = full_facts + [cond]
        k = rec["k"]
        private = rec["privs"]
        shared = self.mod.omp_shared.get(ident, ["(unknown)"])
        self.omp_oblig(ident, note, "variables shared between threads are not assigned", not shared,
                       "assigned in the parallel loop: " + ", ".join(shared))
        carried = []
        live = self.live_slots(rec)
        for key in rec["keys"]:
            v0, v, st = rec["slots"][key]
            nx = rec["next"][key]
            if key not in live:
                continue
            if key[0] == "phi":
                if st is not None or nx is None or veq(nx, v):
                    continue
                if key in pend_slots or not note["reduction"]:
                    carried.append(key[1])
            elif key[1] not in private and key[:1] == ("c",):
                carried.append("%s+%d" % (key[1].name, key[2]))
        self.omp_oblig(ident, note, "no value is carried from one iteration to another", not carried,
                       "carried: " + ", ".join(map(str, carried)))
        chains, bad = {}, {}
        for r in sorted(rec["arrays"], key=lambda r: r.id):
            if r in private:
                continue
            chain, base = rec["mem"][r].chain()
            ups = []
            for u in chain:
                if u.kind == "havoc":
                    bad[r] = "its contents after an iteration are not expressed"
                    break
                ups.append(Cont(None, u.kind, ((k, rec["lo"], rec["kv"]),) + tuple(u.bv), subst(u.guard, subs),
                                tuple(subst(x, subs) for x in u.idx), subst(u.val, subs), line=u.line))
            if base is not rec["lbase"][r]:
                bad[r] = "it is replaced as a whole"
            chains[r] = ups
        for r, ups in chains.items():
            if os.environ.get("DBG"):
                for u in ups:
                    print("OMP", r.name, [t.show(x)[:600] for x in u.idx], t.show(u.guard)[:300])
            why = bad.get(r)
            for i, u in enumerate(ups):
                for w in ups[i:]:
                    if why is None and not self.disjoint_iters(u, w, rec, facts + list(self.gl(u.guard))):
                        why = "two iterations may write the same element (%s, %s)" % (u.line, w.line)
            self.omp_oblig(ident, note, "different iterations write different elements of %s" % r.name, why is None, why)
        # what an iteration reads is not written by another one
        tags = {b.tag[1]: r for r, b in rec["lbase"].items() if r not in private}
        seen = set()
        why = None
        terms = []
        for r, ups in chains.items():
            for u in ups:
                terms += [(x, u, r) for x in u.idx + (u.guard, u.val)]
        for key in rec["keys"]:
            nx = rec["next"][key]
            if key[0] == "phi" and isinstance(nx, T):
                terms.append((subst(nx, subs), None, None))
        for x, u, r in terms:
            for n in t.atoms_in(x):
                if n.k != "sel" or n.a[0] not in tags or why:
                    continue
                r2 = tags[n.a[0]]
                if u is not None and r2 is r and all(p is q for p, q in zip(n.a[1:], u.idx)):
                    continue        # the element this iteration itself writes
                if (n, u) in seen:
                    continue
                seen.add((n, u))
                rd = Cont(None, "set", ((k, rec["lo"], rec["kv"]),) + (tuple(u.bv[1:]) if u else ()),
                          u.guard if u else TRUE, tuple(n.a[1:]), I(0), line=self.where)
                for w in chains.get(r2, ()):
                    if not self.disjoint_iters(rd, w, rec, facts + (list(self.gl(u.guard)) if u else [])):
                        why = "%s%s may be read by one iteration and written by another (%s)" % (
                            r2.name, [t.show(q) for q in n.a[1:]], w.line)
        self.omp_oblig(ident, note, "no iteration reads what another one writes", why is None, why)

    def cellkeys(self, info, mem0):
        return info["cells"]

    def slot_init(self, key, init, mem0):
        if key[0] == "phi":
            return init[key[1]]
        _, r, off, sz, ty = key
        v = mem0[r].get((off, sz)) if r in mem0 else None
        if v is None:
            v = self.load_cell_from(mem0, r, off, sz, ty)
        return v

    def load_cell_from(self, mem0, r, off, sz, ty):
        if r not in mem0:
            return UNDEF
        save = self.mem
        self.mem = dict(mem0)
        self.dry += 1
        try:
            v = self.load_cell(r, off, ty, TRUE)
        finally:
            self.dry -= 1
            self.mem = save
        return v

    def generic_iter(self, fr, loop, g, init, mem0, info, dry, trip=None):
        """run one iteration with symbolic counter; collect effects"""
        k = fresh("k", "i")
        ka = as_atom(k)
        self.mem = dict(mem0)
        slots = {}
        order = []
        cells = [c for c in info["cells"] if c[1] in mem0]
        keys = [("phi", p) for p in init] + sorted(cells, key=lambda c: (c[1].id, c[2], c[3]))
        aff = {}
        primary = None
        for key in keys:
            skey = key if key[0] == "phi" else key[:4]
            st = info["affine"].get(skey)
            if st is not None and st != "no":
                aff[key] = st
        # choose the primary induction variable (step +-1)
        for key in keys:
            st = aff.get(key)
            if st is not None and isinstance(st, T) and cval(st) in (1, -1):
                v0 = self.slot_init(key, init, mem0)
                if isinstance(v0, T) and v0.s == "i" and cval(st) == 1:
                    primary = key
                    break
        tcount = k
        lo = I(0)
        if primary is not None:
            lo = self.slot_init(primary, init, mem0)
            tcount = sub(k, lo)
        fr_atoms = set()
        for key in keys:
            v0 = self.slot_init(key, init, mem0)
            st = aff.get(key)
            if st is not None and not self.invariant_step(st):
                st = None
            if st is not None:
                if isinstance(v0, Ptr):
                    v = Ptr(v0.r, add(v0.off, mul(st, tcount)))
                else:
                    v = add(self.numval(v0), mul(st, tcount))
            else:
                v = self.fresh_slot(key, v0)
                self.collect_atoms(v, fr_atoms)
            slots[key] = (v0, v, st)
        for key in keys:
            if key[0] != "phi":
                _, r, off, sz, ty = key
                c = dict(self.mem[r])
                c[(off, sz)] = slots[key][1]
                self.mem[r] = c
        lbase = {}
        for r in info["arrays"]:
            if r in self.mem:
                b = self.fresh_base(r, "it_" + r.name)
                lbase[r] = b
                self.mem[r] = b
        start_mem = dict(self.mem)
        # cells live in objects created inside the loop are not slots
        self.modified.append(set())
        self.privs.append(set())
        self.loopvars.append(ka)
        nf = len(self.facts)
        self.facts = self.facts + [le(lo, k)] + list(self.gl(g))
        invs = []
        if trip is not None and trip.get("general_hi") is not None:
            pass
        for inv in info.get("invs", ()):
            try:
                invs.append(inv)
                self.facts.append(inv["f"](slots, tcount))
            except KeyError:
                pass
        if dry:
            self.dry += 1
        try:
            exits, rets, latch = self.run_blocks(fr, loop, loop.header, TRUE,
                                                 {key[1]: slots[key][1] for key in keys if key[0] == "phi"})
        finally:
            if dry:
                self.dry -= 1
            facts_in = self.facts
            self.loopvars.pop()
            md = self.modified.pop()
            privs = self.privs.pop()
        cont = or_(*[gg for gg, v in latch]) if latch else FALSE
        if len(latch) > 1:
            cont = self.join_guard(latch, fr, loop.header)
        nextv = self.merge_phis(latch, cont) if latch else {}
        rec = {"k": ka, "kv": k, "lo": lo, "primary": primary, "slots": slots, "cont": cont, "exits": exits,
               "rets": rets, "mem": self.mem, "lbase": lbase, "tcount": tcount, "fratoms": fr_atoms,
               "facts": facts_in[nf:], "next": {}, "keys": keys, "loop": loop, "start": start_mem,
               "cells": set(m for m in md if m[0] == "c" and m[1] in mem0),
               "arrays": set(m[1] for m in md if m[0] == "a" and m[1] in mem0), "md": md, "latch": latch,
               "privs": privs}
        for key in keys:
            if key[0] == "phi":
                rec["next"][key] = nextv.get(key[1])
            else:
                _, r, off, sz, ty = key
                rec["next"][key] = self.mem[r].get((off, sz)) if r in self.mem and isinstance(self.mem[r], dict) else None
        if rets:
            raise Unsupported("return inside loop")
        return rec

    def collect_atoms(self, v, out):
        if isinstance(v, T):
            if v.k == "poly":
                a = as_atom(v)
                if a is not None:
                    out.add(a)
            else:
                out.add(v)
        elif isinstance(v, Ptr):
            a = as_atom(v.off)
            if a is not None:
                out.add(a)
        elif isinstance(v, Agg):
            for x in v.e:
                self.collect_atoms(x, out)

    def invariant_step(self, st):
        return True

    def fresh_slot(self, key, v0):
        nm = str(key[1] if key[0] == "phi" else "%s_%d" % (key[1].name, key[2]))
        if isinstance(v0, T):
            if v0.s == "b":
                return freshb(nm)
            return fresh(nm, v0.s)
        if isinstance(v0, Ptr):
            if v0.r is None:
                return UNDEF
            return Ptr(v0.r, fresh(nm, "i"))
        if isinstance(v0, Agg):
            return Agg([self.fresh_slot(key, x) for x in v0.e])
        if isinstance(v0, (UndefV, OpaqueV)):
            ty = key[4] if key[0] != "phi" else None
            if ty is None:
                return UNDEF
            return self.havoc_ty(ty)
        return v0 if isinstance(v0, FuncRef) else UNDEF

    def find_affine(self, rec, info):
        """update info['affine']; returns True when something new was learned"""
        new = False
        fra = rec["fratoms"]
        kat = rec["k"]
        for key in rec["keys"]:
            skey = key if key[0] == "phi" else key[:4]
            v0, v, st = rec["slots"][key]
            nx = rec["next"][key]
            cur = info["affine"].get(skey)
            if nx is None or cur == "no":
                continue
            a, b = v, nx
            if isinstance(v, Ptr):
                if not (isinstance(nx, Ptr) and nx.r is v.r):
                    if cur != "no":
                        info["affine"][skey] = "no"
                        new = True
                    continue
                a, b = v.off, nx.off
            if not (isinstance(a, T) and isinstance(b, T)) or a.s != "i" or b.s != "i":
                if cur is None:
                    info["affine"][skey] = "no"
                continue
            # under the continue condition
            b = t.assume_lits(b, set(self.gl(rec["cont"])))
            d = sub(b, a)
            nodes = set(t.atoms_in(d))
            bad = (nodes & fra) or kat in t.fv(d) or self.has_loopread(d, rec)
            if st is not None:
                if d is not st:
                    # another outer context: a different invariant step is fine
                    if not bad:
                        info["affine"][skey] = d
                    else:
                        info["affine"][skey] = "no"
                    new = True
            else:
                if not bad:
                    info["affine"][skey] = d
                    new = True
                elif cur is None:
                    # may become affine once others are closed forms; retry next round
                    if info.get("tried", {}).get(skey, 0) >= 2:
                        info["affine"][skey] = "no"
                    info.setdefault("tried", {})[skey] = info.get("tried", {}).get(skey, 0) + 1
                    new = new or info["tried"][skey] <= 1
        return new

    def has_loopread(self, x, rec):
        tags = set(b.tag[1] for b in rec["lbase"].values())
        for n in t.atoms_in(x):
            if n.k == "sel" and n.a[0] in tags:
                return True
        return False

    def trip(self, rec):
        """number of completed iterations, from the continue condition.
        returns dict(N=poly raw count from lo or None, hi=poly, general=bool)"""
        cont = rec["cont"]
        k = rec["k"]
        fra = rec["fratoms"]
        counted = []
        inv = []
        other = []
        for l in lits(cont):
            nodes = set(t.atoms_in(l))
            dep = k in t.fv(l)
            bad = bool(nodes & fra) or self.has_loopread(l, rec)
            if not dep and not bad:
                inv.append(l)
                continue
            if bad:
                other.append(l)
                continue
            hi = None
            if l.k == "le":
                li = t.linear_in(l.a[0], k)
                if li is not None and li[0] > 0:
                    c, r = li
                    if c == 1:
                        hi = sub(I(1), r)                       # k < 1 - r
                    else:
                        hi = add(t.toint("floor", scale(t.toreal(neg(r)), Fraction(1) / c)), I(1))
                    counted.append((l, hi, "lt"))
                    continue
                sl = sym_linear(l.a[0], k)
                if sl is not None and prover.valid(lt(I(0), sl[0]), self.facts + rec["facts"]):
                    # c*k + r <= 0 with a positive symbolic step
                    counted.append((l, add(t.fdiv(neg(sl[1]), sl[0]), I(1)), "lt"))
                    continue
            if l.k == "not" and l.a[0].k == "eq":
                li = t.linear_in(l.a[0].a[0], k)
                if li is not None and abs(li[0]) == 1:
                    hi = scale(li[1], -1 / li[0])
                    counted.append((l, hi, "ne"))
                    continue
            other.append(l)
        r = {"N": None, "hi": None, "counted": counted, "inv": inv, "other": other}
        if len(counted) >= 1 and not other:
            l, hi, kind = counted[0]
            for l2, hi2, kind2 in counted[1:]:
                hi = ite(le(hi, hi2), hi, hi2)
            r["hi"] = hi
            r["kind"] = kind
            r["N"] = sub(hi, rec["lo"])
            r["cond"] = and_(*inv)
            if r["cond"] is not TRUE:
                # loop does not run at all unless the invariant condition holds
                r["hi"] = ite(r["cond"], hi, rec["lo"])
                r["N"] = sub(r["hi"], rec["lo"])
        elif not counted and not other and cont is FALSE:
            r["N"] = I(0)
            r["hi"] = rec["lo"]
            r["kind"] = "lt"
        return r

    def unroll(self, fr, loop, g, init, maxn):
        vals = dict(init)
        out = {}
        gg = g
        for i in range(maxn + 1):
            exits, rets, latch = self.run_blocks(fr, loop, loop.header, gg, vals)
            if rets:
                raise Unsupported("return inside loop")
            for e, lst in exits.items():
                out.setdefault(e, []).extend(lst)
            if not latch:
                return out
            gg = self.join_guard(latch, fr, loop.header)
            if gg is FALSE:
                return out
            vals = self.merge_phis(latch, gg)
        # residual iterations must be infeasible
        if self.prove(FALSE, gg):
            return out
        raise Unsupported("loop did not unroll in %s" % fr.fn.name)

    # ------------------------------------------------------- loop summarisation
    def finish_loop(self, fr, loop, g, init, mem0, info, rec, trip):
        k, kv, lo = rec["k"], rec["kv"], rec["lo"]
        gen = trip["hi"] is None
        facts_loop = rec["facts"]
        if not gen:
            hi = trip["hi"]
            if trip.get("kind") == "ne":
                self.oblig("loop-termination", le(lo, hi), g, "%s: counter reaches its bound" % fr.fn.name)
        else:
            hi = self.fresh_dep("T", "i")
            self.facts.append(implies(g, le(lo, hi)))
            for l, h, kind in trip["counted"]:
                if kind == "lt":
                    self.facts.append(implies(g, or_(eq(hi, lo), le(hi, h))))
        rng = [le(lo, kv), lt(kv, hi)]
        # conditions true in every complete iteration
        rec["hi"] = hi
        strip = set(lits(rec["cont"])) if not gen else set()
        strip |= set(rng)
        full_facts = self.facts + list(self.gl(g)) + rng + [x for x in facts_loop]
        # ---- classify slots
        finals = {}
        subs = {}
        pend_slots = []
        for key in rec["keys"]:
            v0, v, st = rec["slots"][key]
            nx = rec["next"][key]
            if st is not None:
                cnt = sub(hi, lo)
                # raw count may be negative: clamp
                if cval(cnt) is None and not self.prove(le(I(0), cnt), g, 1500):
                    cnt = ite(le(I(0), cnt), cnt, I(0))
                if isinstance(v0, Ptr):
                    finals[key] = Ptr(v0.r, add(v0.off, mul(st, cnt)))
                else:
                    finals[key] = add(self.numval(v0), mul(st, cnt))
            else:
                pend_slots.append(key)
        def resolved(e):
            try:
                return self.resolve_reads(e, rec, mem0, full_facts, None, g)
            except Unsupported:
                return None

        # products: next = v * e
        def within(e):
            """e where the loop runs: what it is outside does not matter"""
            rl = {x: TRUE for x in (le(lo, kv), lt(kv, hi)) if x is not TRUE and x is not FALSE}
            return subst(e, rl, {"only_with": k}) if isinstance(e, T) else e

        def close_prod(key, v0, v, nx):
            va = as_atom(v)
            nx = t.assume_lits(nx, set(self.gl(rec["cont"])))
            if va is None or nx.k != "poly" or not nx.a or not all((va, 1) in m for m, c in nx.a):
                return False
            e = t.poly({tuple(q for q in m if q[0] is not va): c for m, c in nx.a}, nx.s)
            if set(t.atoms_in(e)) & rec["fratoms"]:
                return False
            e = resolved(e)
            if e is None:
                return False
            e = within(e)
            finals[key] = mul(self.numval(v0, v.s), t.mk_prod(k, lo, hi, e))
            k2 = fresh("k", "i")
            subs[va] = mul(self.numval(v0, v.s), t.mk_prod(as_atom(k2), lo, kv, subst(e, {k: k2})))
            pend_slots.remove(key)
            return True

        # flags: next = c ? constant : v, so the final value is the constant if c held at least once
        def close_flag(key, v0, v, nx):
            va, na = as_atom(v), as_atom(nx)
            if va is None or na is None or na.k != "ite":
                return False
            c, a, b = na.a
            if a is v or veq(a, v):
                c, a, b = not_(c), b, a
            if not veq(b, v) or not isinstance(a, T) or set(t.atoms_in(a)) & (rec["fratoms"] | {k}) or \
                    set(t.atoms_in(c)) & rec["fratoms"]:
                return False
            cnt = resolved(ite(c, I(1), I(0)))
            a = resolved(a)
            if cnt is None or a is None:
                return False
            cnt = within(cnt)
            flag = lambda n: ite(lt(I(0), mk_sum(as_atom(n[0]), lo, n[1], subst(cnt, {k: n[0]}))), a, self.numval(v0, v.s))
            finals[key] = flag((fresh("k", "i"), hi))
            subs[va] = flag((fresh("k", "i"), kv))
            pend_slots.remove(key)
            return True

        # sums: next = v + e
        def close_sums():
            done = False
            for key in list(pend_slots):
                v0, v, st = rec["slots"][key]
                nx = rec["next"][key]
                if not (isinstance(v, T) and isinstance(nx, T) and v.s in "ir" and nx.s == v.s):
                    continue
                if isinstance(v0, UndefV):
                    continue
                if subs:
                    nx = subst(nx, subs)     # slots whose value at this iteration is known by now
                e = t.assume_lits(sub(nx, v), set(self.gl(rec["cont"])))
                nodes = set(t.atoms_in(e))
                if (nodes & rec["fratoms"]):
                    if close_prod(key, v0, v, nx) or close_flag(key, v0, v, nx):
                        done = True
                    continue
                try:
                    e = self.resolve_reads(e, rec, mem0, full_facts, None, g)
                except Unsupported:
                    continue
                if e is None:
                    continue
                s = mk_sum(k, lo, hi, e)
                finals[key] = add(self.numval(v0, v.s), s)
                # value at iteration k: prefix sum
                k2 = fresh("k", "i")
                subs[as_atom(v)] = add(self.numval(v0, v.s), mk_sum(as_atom(k2), lo, kv, subst(e, {k: k2})))
                pend_slots.remove(key)
                done = True
            return done
        rec["closed"] = {}
        if gen and not self.dry:
            # what every complete iteration satisfies
            for x in lits(rec["cont"]):
                if not set(t.atoms_in(x)) & rec["fratoms"]:
                    y = resolved(x)
                    if y is not None:
                        self.univ.append((k, lo, hi, g, y))
            for f in self.forall:
                self.facts.append(f(hi))
        while close_sums() and pend_slots:
            pass
        # running extremum patterns and general slots
        for key in list(pend_slots):
            fv_ = self.reduce_slot(rec, key, lo, hi, g, mem0, full_facts)
            if fv_ is not None:
                finals[key] = fv_
                pend_slots.remove(key)
        for key in pend_slots:
            v0, v, st = rec["slots"][key]
            nx = rec["next"][key]
            if nx is None or veq(nx, v):
                finals[key] = v0
                if isinstance(v, T):
                    a = as_atom(v) if v.s != "b" else v
                    if isinstance(v0, T) and a is not None:
                        subs[a] = v0
                continue
            # a value that was never initialised before the loop and is always
            # written first: its final value is the last iteration's
            finals[key] = self.havoc_like(v, v0, key)
            self.opaque_slots = getattr(self, "opaque_slots", set())
        # substitution of slot values that became closed forms
        remaining = set()
        for key in pend_slots:
            v = rec["slots"][key][1]
            self.collect_atoms(v, remaining)
        remaining -= set(subs)
        # ---- array effects
        self.mem = dict(mem0)
        newmem = {}
        order = sorted(rec["arrays"], key=lambda r: r.id)
        for rnd in range(4):
            progress = False
            for r in order:
                if r not in rec["closed"]:
                    self.quiet = rnd < 3
                    c = self.wrap_region(r, rec, mem0, lo, hi, g, subs, remaining, full_facts, strip)
                    if c.kind != "havoc" or rnd == 3:
                        newmem[r] = c
                        rec["closed"][r] = c
                        progress = True
            if len(newmem) == len(order):
                break
            if any(c.kind != "havoc" for c in rec["closed"].values()) and pend_slots and close_sums():
                progress = True
                for key in rec["keys"]:
                    if key not in pend_slots:
                        self.collect_atoms(rec["slots"][key][1], dropped := set())
                        remaining -= dropped & set(subs)
            if not progress:
                for r in order:
                    if r not in newmem:
                        self.quiet = False
                        newmem[r] = self.wrap_region(r, rec, mem0, lo, hi, g, subs, remaining, full_facts, strip)
                break
        self.quiet = False
        if rec.get("par") is not None:
            self.omp_check(rec, g, subs, pend_slots, finals, full_facts)
        # objects created inside the loop stay local to an iteration
        for key in rec["keys"]:
            if key[0] != "phi":
                _, r, off, sz, ty = key
                c = dict(self.mem[r])
                v0 = mem0[r].get((off, sz)) if isinstance(mem0.get(r), dict) else None
                if v0 is None and g is not TRUE and not r.local:
                    v0 = self.slot_init(key, init, mem0)
                fin = finals[key]
                if v0 is not None and not isinstance(v0, UndefV) and g is not TRUE and not \
                        (isinstance(v0, T) and isinstance(fin, T) and {v0.s, fin.s} == {"r", "i"}):
                    fin = vite(g, fin, v0)
                c[(off, sz)] = fin
                self.mem[r] = c
        for r, c in newmem.items():
            self.mem[r] = c
        # ---- the last, incomplete iteration
        vals = {key[1]: finals[key] for key in rec["keys"] if key[0] == "phi"}
        if gen:
            # the exit condition holds in the state reached
            pass
        for inv in info.get("invs", ()):
            pass
        exits, rets, latch = self.run_blocks(fr, loop, loop.header, g, vals)
        lg = or_(*[x for x, v in latch]) if latch else FALSE
        if gen and lg is not FALSE:
            # backedge not taken any more
            self.facts.append(implies(g, not_(self.rel(lg, g))) if True else TRUE)
            if sum(len(l) for l in exits.values()) == 1:
                for e, lst in exits.items():
                    exits[e] = [(g, lst[0][1])]
        elif lg is not FALSE:
            if not self.prove(FALSE, lg) and not prover.refute(list(lits(lg)), self.facts + list(self.gl(g))):
                if os.environ.get("DBG"):
                    print("EXIT", t.show(lg)[:1500], "\nG", t.show(g)[:1500])
                raise Unsupported("loop exit of %s not derivable" % fr.fn.name)
        if not gen and sum(len(l) for l in exits.values()) == 1:
            for e, lst in exits.items():
                exits[e] = [(g, lst[0][1])]
        return exits

    def reduce_slot(self, rec, key, lo, hi, g, mem0, full_facts):
        return None

    def havoc_like(self, v, v0, key):
        nm = "out_" + str(key[1] if key[0] == "phi" else key[1].name)
        if isinstance(v, T):
            if v.s == "b":
                return freshb(nm)
            return self.fresh_dep(nm, v.s)
        if isinstance(v, Ptr):
            return Ptr(v.r, self.fresh_dep(nm, "i")) if v.r is not None else UNDEF
        if isinstance(v, Agg):
            return Agg([self.havoc_like(x, None, key) for x in v.e])
        return UNDEF

    # -- reads of loop-modified arrays inside an iteration
    def resolve_reads(self, e, rec, mem0, facts, own, g):
        """replace reads of 'content at start of iteration' by pre-loop contents,
        after proving no earlier iteration wrote there.  own: (region, idx) whose
        reads are left alone.  Returns term or None."""
        tags = {b.tag[1]: r for r, b in rec["lbase"].items()}
        changed = True
        while changed:
            changed = False
            for n in t.atoms_in(e):
                if n.k == "sel" and n.a[0] in tags:
                    r = tags[n.a[0]]
                    if own is not None and r is own[0] and all(x is y for x, y in zip(n.a[1:], own[1])):
                        continue
                    if any(v.a[0].startswith("$b") for v in t.fv(n)):
                        # inside a sum body: treat bound variable as arbitrary
                        pass
                    if self.unwritten_before(r, n.a[1:], rec, facts):
                        pre = self.read(mem0[r], r, tuple(n.a[1:]), g)
                    else:
                        c = self.partial(r, rec, mem0)
                        if c is None:
                            return None
                        pre = self.read(c, r, tuple(n.a[1:]), g, tuple(facts))
                        if any(q.k == "sel" and q.a[0] in tags for q in t.atoms_in(pre)):
                            return None
                    new = subst(e, {n: pre})
                    if new is e:
                        return None
                    e = new
                    changed = True
                    break
        return e

    def partial(self, r, rec, mem0):
        """content at the start of iteration k of an array whose effect over the whole loop is known"""
        c = rec.get("closed", {}).get(r)
        if c is None or c.kind == "havoc":
            return None
        ups = []
        while c is not mem0[r]:
            if c.kind not in ("set", "acc") or not c.bv or c.bv[0][0] is not rec["k"]:
                return None
            ups.append(c)
            c = c.prev
        for u in reversed(ups):
            k2 = fresh("k'", "i")
            m = {rec["k"]: k2}
            bv = [(as_atom(k2), rec["lo"], rec["kv"])] + [(b, subst(l, m), subst(h, m)) for b, l, h in u.bv[1:]]
            c = Cont(c, u.kind, tuple(bv), subst(u.guard, m), tuple(subst(x, m) for x in u.idx), subst(u.val, m), line=u.line)
        return c

    def unwritten_before(self, r, idx, rec, facts, other_only=True):
        """no earlier iteration (k' < k) writes r[idx]"""
        chain, base = rec["mem"][r].chain()
        k = rec["k"]
        k2 = fresh("k'", "i")
        m = {k: k2}
        f2 = [subst(f, m) for f in rec["facts"] if k in t.fv(f)]
        for u in chain:
            if u.kind == "havoc":
                return False
            # quick: a dimension that determines k
            quick = False
            for a, b in zip(u.idx, idx):
                if not (set(v for v, _, _ in u.bv) & t.fv(a)):
                    la = t.linear_in(a, k)
                    lb = t.linear_in(b, k)
                    if la and lb and la[0] != 0 and la[0] == lb[0] and la[1] is lb[1]:
                        quick = True
                        break
            if quick:
                continue
            um = dict(m)
            extra = []
            for b, l, h in u.bv:
                nb = fresh("b'", "i")
                um[b] = nb
            for b, l, h in u.bv:
                extra += [le(subst(l, um), um[b]), lt(um[b], subst(h, um))]
            cond = and_(subst(u.guard, um), *[eq(subst(a, um), b) for a, b in zip(u.idx, idx)])
            goal = not_(cond)
            if not prover.valid(goal, list(facts) + f2 + extra + [lt(k2, atom(k))] + self.k2range(rec, k2, facts)):
                return False
        return True

    def k2range(self, rec, k2, facts):
        k = rec["k"]
        return [subst(f, {k: k2}) for f in facts if k in t.fv(f)]

    def wrap_region(self, r, rec, mem0, lo, hi, g, subs, remaining, full_facts, strip):
        chain, base = rec["mem"][r].chain()
        pre = mem0[r]
        k = rec["k"]
        out = []
        ownbase = rec["lbase"][r]
        if base is not ownbase:
            # content replaced as a whole inside the loop
            return Cont(pre, "havoc", guard=g, tag="havoc_%s!%d" % (r.name, next(t._fresh)))
        bad = None
        for u in chain:
            if u.kind == "havoc":
                bad = "whole-array effect in a loop"
                break
            idx = tuple(subst(x, subs) for x in u.idx)
            guard = subst(u.guard, subs)
            val = subst(u.val, subs)
            kind = u.kind
            nodes = set()
            for x in idx + (guard, val):
                nodes |= set(t.atoms_in(x))
            if nodes & remaining:
                bad = "depends on a loop-carried value without closed form"
                break
            if kind == "set":
                s = t.sel(ownbase.tag[1], idx, val.s)
                sa = as_atom(s)
                if sa is not None and sa in t.atoms_in(val):
                    li = real_linear(val, sa)
                    if li is not None:
                        kind, val = "acc", li
                    else:
                        # conditional accumulate
                        d = sub(val, s)
                        if sa not in t.atoms_in(d):
                            kind, val = "acc", d
            f = full_facts + list(self.gl(guard)) + [x for b, l, h in u.bv for x in (le(l, atom(b)), lt(atom(b), h))]
            v2 = self.resolve_reads(val, rec, mem0, f, None, g)
            g2 = self.resolve_reads_b(guard, rec, mem0, f, g)
            i2 = tuple(self.resolve_reads(x, rec, mem0, f, None, g) for x in idx)
            if v2 is None or g2 is None or any(x is None for x in i2):
                bad = "reads a location another iteration writes"
                break
            ng = and_(*[x for x in lits(g2) if x not in strip])
            out.append(Cont(None, kind, ((k, lo, hi),) + tuple(u.bv), ng, i2, v2, line=u.line))
        if bad is None:
            bad = self.conflicts(r, out, rec, full_facts)
        if bad is not None:
            self.note_havoc(r, bad)
            return Cont(pre, "havoc", guard=g, tag="havoc_%s!%d" % (r.name, next(t._fresh)))
        c = pre
        for u in out:
            c = Cont(c, u.kind, u.bv, and_(g, u.guard), u.idx, u.val, line=u.line)
        return c

    def note_havoc(self, r, why):
        if not self.dry and not getattr(self, "quiet", False):
            self.havocs = getattr(self, "havocs", [])
            self.havocs.append("%s at %s: %s" % (r.name, self.where, why))

    def resolve_reads_b(self, b, rec, mem0, f, g):
        return self.resolve_reads(b, rec, mem0, f, None, g)

    def conflicts(self, r, ups, rec, facts):
        """different iterations must not write the same location (accumulations
        commute)"""
        k = rec["k"]
        for i, u in enumerate(ups):
            for j, w in enumerate(ups):
                if j < i:
                    continue
                if u.kind == "acc" and w.kind == "acc":
                    continue
                if self.disjoint_iters(u, w, rec, facts):
                    continue
                if i == j and u.kind == "set" and k not in t.fv(u.val) and all(k not in t.fv(x) for x in u.idx) \
                        and k not in t.fv(u.guard) and not any(k in t.fv(l) or k in t.fv(h) for b, l, h in u.bv[1:]):
                    continue     # every iteration writes the same values
                return "two iterations may write the same element"
        return None

    def disjoint_iters(self, u, w, rec, facts):
        k = rec["k"]
        for a, b in zip(u.idx, w.idx):
            la, lb = t.linear_in(a, k), t.linear_in(b, k)
            if la and lb and la[0] != 0 and la[0] == lb[0] and la[1] is lb[1]:
                bvs = set(v for v, _, _ in u.bv[1:]) | set(v for v, _, _ in w.bv[1:])
                if not (t.fv(la[1]) & bvs):
                    return True
        k2 = fresh("k'", "i")
        m = {k: k2}
        extra = []
        for b, l, h in w.bv[1:]:
            m[b] = fresh("b'", "i")
        for b, l, h in w.bv[1:]:
            extra += [le(subst(l, m), m[b]), lt(m[b], subst(h, m))]
        for b, l, h in u.bv[1:]:
            extra += [le(l, atom(b)), lt(atom(b), h)]
        extra += [subst(f, m) for f in facts if k in t.fv(f)]
        if rec.get("hi") is not None:
            for a, b in zip(u.idx, w.idx):
                for gm in wrap_moduli(a, k):
                    ra, rb = residue(a, gm), residue(b, gm)
                    la, lb = t.linear_in(ra, k), t.linear_in(rb, k)
                    if la and lb and la[0] == lb[0] and abs(la[0]) == 1 and la[1] is lb[1] and not (
                            t.fv(la[1]) & (set(v for v, _, _ in u.bv[1:]) | set(v for v, _, _ in w.bv[1:]))):
                        # congruent modulo gm, and the iterations span at most gm
                        if prover.valid(le(sub(rec["hi"], rec["lo"]), gm), list(facts)):
                            return True
        ui, wi, dc = merge_div(u.idx, w.idx)
        if dc is TRUE and ui is not u.idx:
            for a, b in zip(ui, wi):
                la, lb = t.linear_in(a, k), t.linear_in(b, k)
                if la and lb and la[0] != 0 and la[0] == lb[0] and la[1] is lb[1] and not (
                        t.fv(la[1]) & (set(v for v, _, _ in u.bv[1:]) | set(v for v, _, _ in w.bv[1:]))):
                    return True
        cond = and_(u.guard, subst(w.guard, m), *[eq(a, subst(b, m)) for a, b in zip(u.idx, w.idx)])
        return prover.valid(not_(cond), list(facts) + extra + [ne(k2, atom(k))])


def wrap_moduli(i, k):
    """divisors G of the quotients F in i = A + G * F that depend on k"""
    out = []
    for n in t.atoms_in(i):
        if n.k == "uf" and n.a[0] in ("fdiv", "sdiv", "srem") and k in t.fv(n.a[1]) and n.a[2] not in out:
            out.append(n.a[2])
    return out


def residue(i, gm):
    """i without the terms that are multiples of gm"""
    if len(gm.a) != 1:
        return i
    m, c = gm.a[0]
    out = {}
    for mm, cc in i.a:
        if m == ():
            if (cc / c).denominator == 1:
                continue
        elif t.mono_divides(mm, m) is not None and (cc / c).denominator == 1:
            continue
        out[mm] = cc
    return t.poly(out, i.s)


def sym_linear(p, v):
    """p = c*v + r with symbolic c free of v"""
    c, rest = {}, {}
    for m, k in p.a:
        hit = [x for x in m if x[0] is v]
        if hit and hit[0][1] == 1 and not any(v in t.fv(x[0]) for x in m if x[0] is not v):
            mm = tuple(x for x in m if x[0] is not v)
            c[mm] = c.get(mm, 0) + k
        elif any(x[0] is v or v in t.fv(x[0]) for x in m):
            return None
        else:
            rest[m] = k
    return (t.poly(c, p.s), t.poly(rest, p.s)) if c else None


def has_div(x):
    return any(n.k == "uf" and n.a[0] == "sdiv" for n in t.atoms_in(x))


def div_pair(i0, i1):
    """(i0, i1) = (m / d, m - d * (m / d)) -> (m, d)"""
    a = as_atom(i0)
    if a is None or a.k != "uf" or a.a[0] != "sdiv":
        return None
    m, d = a.a[1], a.a[2]
    if add(i1, mul(d, i0)) is m:
        return m, d
    return None


def merge_div(u, w):
    """join (quotient, remainder) index pairs back into the flat index they came
    from: returns new index tuples and the range condition that makes it exact"""
    u, w = list(u), list(w)
    n0 = len(u)
    cond = TRUE
    k = 0
    while k + 1 < len(u):
        p, q = div_pair(u[k], u[k + 1]), div_pair(w[k], w[k + 1])
        if p and q and p[1] is q[1]:
            u[k:k + 2], w[k:k + 2] = [p[0]], [q[0]]
        elif p or q:
            x, o, d = (u, w, p[1]) if p else (w, u, q[1])
            cond = and_(cond, le(I(0), o[k + 1]), lt(o[k + 1], d))
            x[k:k + 2] = [(p or q)[0]]
            o[k:k + 2] = [add(mul(o[k], d), o[k + 1])]
        else:
            k += 1
            continue
        k = max(0, k - 1)
    if len(u) == n0:
        return tuple(u), tuple(w), cond
    return tuple(u), tuple(w), cond


def real_linear(val, sa):
    """val = sa + rest (coefficient one, rest free of sa) -> rest"""
    rest = {}
    c = 0
    for m, cc in val.a:
        if len(m) == 1 and m[0][0] is sa and m[0][1] == 1:
            c += cc
        else:
            rest[m] = cc
    if c != 1:
        return None
    p = t.poly(rest, val.s)
    if sa in t.atoms_in(p):
        return None
    return p


def poly_divmod(p, s):
    """divide by a single-term polynomial (monomial) or constant; general divisors
    by leading monomial.  Returns (q, r) or (None, None)."""
    if len(s.a) == 1:
        m, c = s.a[0]
        q, r = {}, {}
        if m == ():
            # constant stride: everything with coefficient divisible goes to q; constants split
            for mm, cc in p.a:
                if mm == ():
                    fl = cc // c
                    q[()] = q.get((), 0) + fl
                    r[()] = r.get((), 0) + (cc - fl * c)
                elif cc % c == 0:
                    q[mm] = cc / c
                else:
                    r[mm] = cc
        else:
            for mm, cc in p.a:
                d = t.mono_divides(mm, m)
                if d is not None and (cc / c).denominator == 1:
                    q[d] = q.get(d, 0) + cc / c
                else:
                    r[mm] = cc
        return t.poly(q, p.s), t.poly(r, p.s)
    # multi-term divisor: long division by the leading monomial
    m, c = s.a[-1]
    q = I(0)
    r = p
    for _ in range(20):
        hit = None
        for mm, cc in r.a:
            d = t.mono_divides(mm, m)
            if d is not None and (cc / c).denominator == 1 and m != ():
                hit = (d, cc / c)
                break
        if hit is None:
            break
        term = t.poly({hit[0]: hit[1]}, "i")
        q = add(q, term)
        r = sub(r, mul(term, s))
    return q, r


LINK = [("sdp_data_model_", "utility/sdp_data_model_checks.c")]
BOOLTAGS = set()
PREFIXES = []
