"""Discharging obligations: translation to Z3, case splitting on conditionals,
congruence of sums.  Every `valid` answer is an UNSAT answer of the solver for
the negated obligation (or a syntactic identity of normal forms)."""
import time
import z3
import terms as t
from terms import T, ne, add, sub, neg, mul, eq, le, lt, and_, or_, not_, ite, subst, cval, as_atom, atom, fresh, scale

STATS = {"z3_queries": 0, "z3_time": 0.0, "syntactic": 0, "z3_unsat": 0, "z3_sat": 0, "z3_unknown": 0}
TIMEOUT_MS = 4000
NL_MS = 1000     # nonlinear real comparisons

_z = {}
_funcs = {}


def _sortz(s):
    return {"i": z3.IntSort(), "r": z3.RealSort(), "b": z3.BoolSort()}[s]


def _func(name, args, s):
    key = (name, tuple(a.s for a in args), s)
    f = _funcs.get(key)
    if f is None:
        f = z3.Function(name + "_" + "".join(key[1]), *([_sortz(a.s) for a in args] + [_sortz(s)]))
        _funcs[key] = f
    return f


def zv(c, s):
    if s == "i":
        return z3.IntVal(int(c))
    return z3.RatVal(c.numerator, c.denominator)


def z(x):
    r = _z.get(x)
    if r is None:
        r = _zz(x)
        _z[x] = r
    return r


def _zz(x):
    k = x.k
    if k == "poly":
        terms = []
        for m, c in x.a:
            fs = []
            for a, e in m:
                za = z(a)
                for _ in range(e):
                    fs.append(za)
            if not fs:
                terms.append(zv(c, x.s))
                continue
            p = fs[0]
            for f in fs[1:]:
                p = p * f
            if c != 1:
                p = zv(c, x.s) * p
            terms.append(p)
        if not terms:
            return zv(t.Fraction(0), x.s)
        r = terms[0]
        for q in terms[1:]:
            r = r + q
        return r
    if k in ("var", "bvar"):
        return z3.Const("%s_%s" % (x.a[0], x.s), _sortz(x.s))
    if k == "uf":
        n = x.a[0]
        args = x.a[1:]
        za = [z(a) for a in args]
        if n == "toreal":
            return z3.ToReal(za[0])
        if n == "floor":
            return z3.ToInt(za[0])
        if n == "ceil":
            return -z3.ToInt(-za[0])
        if n == "trunc":
            return z3.If(za[0] >= 0, z3.ToInt(za[0]), -z3.ToInt(-za[0]))
        if n == "round":
            return z3.If(za[0] >= 0, z3.ToInt(za[0] + z3.RealVal("1/2")), -z3.ToInt(-za[0] + z3.RealVal("1/2")))
        if n == "sdiv":
            a, b = za
            return z3.If(b > 0, z3.If(a >= 0, a / b, -((-a) / b)), z3.If(a >= 0, -(a / (-b)), (-a) / (-b)))
        if n == "srem":
            a, b = za
            bb = z3.If(b > 0, b, -b)
            return z3.If(a >= 0, a % bb, -((-a) % bb))
        if n == "fmod_int":
            return za[0] % za[1]
        return _func(n, args, x.s)(*za)
    if k == "ub":
        return _func(x.a[0], x.a[1:], "b")(*[z(a) for a in x.a[1:]])
    if k == "sel":
        args = x.a[1:]
        return _func("sel_" + x.a[0], args, x.s)(*[z(a) for a in args])
    if k == "ite":
        return z3.If(z(x.a[0]), z(x.a[1]), z(x.a[2]))
    if k in ("sum", "prod"):
        return z3.Const("%s%d_%s" % (k, x.id, x.s), _sortz(x.s))
    if k == "true":
        return z3.BoolVal(True)
    if k == "false":
        return z3.BoolVal(False)
    if k == "le" or k == "rle":
        return z(x.a[0]) <= 0
    if k == "rlt":
        return z(x.a[0]) < 0
    if k == "eq":
        return z(x.a[0]) == 0
    if k == "not":
        return z3.Not(z(x.a[0]))
    if k == "and":
        return z3.And(*[z(c) for c in x.a])
    if k == "or":
        return z3.Or(*[z(c) for c in x.a])
    raise Exception("z3: " + k)


_ax = {}


def axioms(x):
    """ground facts about interpreted function applications inside x"""
    r = _ax.get(x)
    if r is not None:
        return r
    r = []
    for n in t.atoms_in(x):
        if n.k == "uf":
            f = n.a[0]
            if f == "sqrt":
                v = z(n)
                r.append(v >= 0)
                r.append(z3.Implies(z(n.a[1]) >= 0, v * v == z(n.a[1])))
                r.append(z3.Implies(z(n.a[1]) > 0, v > 0))
            elif f in ("sin", "cos"):
                v = z(n)
                r.append(z3.And(v <= 1, v >= -1))
            elif f == "exp":
                r.append(z(n) > 0)
            elif f == "fabs":
                v = z(n.a[1])
                r.append(z(n) == z3.If(v >= 0, v, -v))
            elif f == "inv":
                r.append(z3.Implies(z(n.a[1]) > 0, z(n) > 0))
                r.append(z3.Implies(z(n.a[1]) < 0, z(n) < 0))
                r.append(z3.Implies(z(n.a[1]) != 0, z(n) * z(n.a[1]) == 1))
            elif f == "hypot":
                r.append(z(n) >= 0)
            elif f == "rint":
                v = z3.ToReal(z(n))
                a = z(n.a[1])
                r.append(z3.And(v - a <= z3.RealVal("1/2"), a - v <= z3.RealVal("1/2")))
            elif f == "rnd32":
                pass
            elif f == "fdiv":
                a, b, q = z(n.a[1]), z(n.a[2]), z(n)
                bq = z(mul(n.a[2], atom(n)))
                r.append(z3.Implies(b > 0, z3.And(bq <= a, a < bq + b)))
                r.append(z3.Implies(z3.And(b > 0, a >= 0), q >= 0))
                r.append(z3.Implies(z3.And(b > 0, a >= b), q >= 1))
                r.append(z3.Implies(z3.And(b > 0, a < 0), q < 0))
                r.append(z3.Implies(z3.And(b > 0, a >= 0, a < b), z3.And(q == 0, bq == 0)))
            elif f in RANGED:
                lo, hi = RANGED[f]
                v = z(n)
                if lo is not None:
                    r.append(v >= lo)
                if hi is not None:
                    r.append(v <= hi)
        elif n.k == "sel" and n.a[0] in SEL_RANGE:
            lo, hi = SEL_RANGE[n.a[0]]
            v = z(n)
            if lo is not None:
                r.append(v >= lo)
            if hi is not None:
                r.append(v <= hi)
    _ax[x] = r
    return r


RANGED = {}
SEL_RANGE = {}
_cache = {}
LAST_MODEL = [None]


def _split_or(goal):
    return goal


_fvs = {}


def _keys(x):
    r = _fvs.get(x)
    if r is None:
        r = frozenset(n for n in t.atoms_in(x) if n.k in ("var", "bvar", "sel", "sum", "prod", "ub")
                      or (n.k == "uf" and n.a[0] not in ("toreal", "inv", "floor", "sdiv", "srem", "fdiv")))
        _fvs[x] = r
    return r


def relevant(goal, facts):
    ks = set(_keys(goal))
    todo = [f for f in facts if f is not t.TRUE]
    out = []
    changed = True
    while changed and todo:
        changed = False
        rest = []
        for f in todo:
            kf = _keys(f)
            if not kf or kf & ks:
                out.append(f)
                ks |= kf
                changed = True
            else:
                rest.append(f)
        todo = rest
    return out


IMPL = {}      # named status literal "st == 0" -> what it implies (definitional)
_clo = {}


def closure(ls):
    """literals together with what named status literals among them imply, with
    unit propagation over the clauses met"""
    ls = tuple(ls)
    if not any(x in IMPL for x in ls):
        return ls
    r = _clo.get(ls)
    if r is not None:
        return r
    out = dict.fromkeys(ls)
    work = list(ls)
    clauses = []
    while True:
        while work:
            x = work.pop()
            for y in IMPL.get(x, ()):
                if y not in out:
                    out[y] = None
                    work.append(y)
        n = len(out)
        for c in list(out):
            if c.k == "or":
                rest = [l for l in c.a if t.decide_lits(l, out) is not False]
                if len(rest) == 1:
                    for y in t.lits(rest[0]):
                        if y not in out:
                            out[y] = None
                            work.append(y)
        if len(out) == n and not work:
            for c in list(out):
                if c.k in ("eq", "le") or c.k == "not" and c.a[0].k == "eq":
                    q = c.a[0] if c.k != "not" else c.a[0].a[0]
                    q2 = t.assume_lits(q, out)
                    if q2 is not q:
                        y = t.eq0(q2) if c.k == "eq" else (t.le0(q2) if c.k == "le" else t.not_(t.eq0(q2)))
                        for y in t.lits(y):
                            if y not in out:
                                out[y] = None
                                work.append(y)
            if not work:
                break
    r = tuple(out)
    _clo[ls] = r
    return r


DEFS = {}      # named status variable -> its defining equation


def with_defs(goal, ff):
    if not DEFS:
        return ff
    seen = set()
    work = [goal] + list(ff)
    add_ = []
    while work:
        x = work.pop()
        for a in t.fv(x):
            if a in DEFS and a not in seen:
                seen.add(a)
                add_.append(DEFS[a])
                work.append(DEFS[a])
    return ff + add_ if add_ else ff


def flat_facts(facts):
    out = []
    for f in facts:
        if f.k == "and":
            out.extend(f.a)
        else:
            out.append(f)
    return out


def limit(s, ms, wall=12):
    """deterministic resource limit (same verdict on slow and fast machines); the
    wall-clock limit is only a backstop"""
    s.set("rlimit", int(ms) * 4000)
    s.set("timeout", int(ms) * wall)


import os
SLOW = float(os.environ.get("SLOW", 0))


def near_facts(goal, ff):
    ks = _keys(goal)
    out = [f for f in ff if _keys(f) and _keys(f) <= ks]
    ks2 = set(ks)
    for f in ff:
        kf = _keys(f)
        if kf & ks and len(kf) <= 3:
            ks2 |= kf
    out = [f for f in ff if _keys(f) and _keys(f) <= ks2]
    return out if len(out) < len(ff) else None


def _quick(goal, facts):
    s = z3.Solver()
    limit(s, 300)
    seen = set()
    for f in facts:
        s.add(z(f))
    for f in facts + [goal]:
        for a in axioms(f):
            if a.get_id() not in seen:
                seen.add(a.get_id())
                s.add(a)
    s.add(z3.Not(z(goal)))
    t0 = time.time()
    r = s.check()
    STATS["z3_time"] += time.time() - t0
    STATS["z3_queries"] += 1
    STATS["z3_" + str(r)] += 1
    return r == z3.unsat


def valid(goal, facts, timeout=None, want_model=False, cheap=False):
    """facts |= goal ?"""
    if goal is t.TRUE:
        STATS["syntactic"] += 1
        return True
    ff = flat_facts(facts)
    if goal in ff:
        STATS["syntactic"] += 1
        return True
    if t.FALSE in ff:
        return True
    key = (goal, frozenset(ff))
    if not want_model and key in _cache:
        return _cache[key]
    if cheap and any(nonlinear_real(f) for f in ff):
        if (key, 0) not in _cache:
            r = _cache[key, 0] = shared_linear(goal, ff)
            if r:
                _cache[key] = r
        return _cache[key, 0]
    if not want_model and len(ff) > 4:
        # a small context first: facts about the goal's own symbols only
        near = near_facts(goal, ff)
        if near is not None and _quick(goal, near):
            _cache[key] = True
            return True
    rel = relevant(goal, with_defs(goal, ff)) if goal is not t.FALSE else with_defs(goal, ff)
    nl = not want_model and (nonlinear_real(goal) or goal is t.FALSE and any(nonlinear_real(f) for f in rel))
    if nl or not want_model and any(nonlinear_real(f) for f in rel):
        if linear_valid(goal, rel):
            _cache[key] = True
            return True
        if cheap:
            return False
    s = z3.Solver()
    limit(s, min(timeout or TIMEOUT_MS, NL_MS) if nl else timeout or TIMEOUT_MS, 3 if nl else 12)
    seen = set()
    for f in rel:
        s.add(z(f))
    for f in rel + [goal]:
        for a in axioms(f):
            if a.get_id() not in seen:
                seen.add(a.get_id())
                s.add(a)
    s.add(z3.Not(z(goal)))
    t0 = time.time()
    r = s.check()
    STATS["z3_time"] += time.time() - t0
    STATS["z3_queries"] += 1
    STATS["z3_" + str(r)] += 1
    ok = r == z3.unsat
    if SLOW and time.time() - t0 > SLOW:
        import traceback
        print("SLOW %.1fs %s %s facts=%d :: %s" % (time.time() - t0, r, "/".join(
            "%s:%d" % (q.name, q.lineno) for q in traceback.extract_stack()[-6:-1]), len(rel), t.show(goal)[:300]))
    if not ok:
        LAST_MODEL[0] = s.model() if r == z3.sat else None
    _cache[key] = ok
    return ok


_zab = {}
_nlr = {}


def nonlinear_real(x):
    """a comparison of real terms with products or function applications"""
    r = _nlr.get(x)
    if r is None:
        r = any(n.k == "uf" and n.s == "r" and n.a[0] != "toreal" for n in t.atoms_in(x))
        for n in t.literal_atoms(x):
            p = n.a[0]
            if p.s == "r" and any(sum(e for _, e in m) > 1 or any(a.k == "uf" and a.a[0] != "toreal" for a, _ in m) for m, c in p.a):
                r = True
                break
        _nlr[x] = r
    return r


def zab(x):
    """translation with real products and function applications as unknowns"""
    r = _zab.get(x)
    if r is not None:
        return r
    k = x.k
    if k == "poly" and x.s == "r":
        r = zv(t.Fraction(0), "r")
        for m, c in x.a:
            if not m:
                r = r + zv(c, "r")
                continue
            if sum(e for _, e in m) == 1:
                v = zab(m[0][0])
            else:
                v = z3.Const("mono!%s" % ",".join("%d^%d" % (a.id, e) for a, e in m), z3.RealSort())
            r = r + zv(c, "r") * v
    elif k == "uf" and x.s == "r" and x.a[0] != "toreal":
        r = z3.Const("ufab!%d" % x.id, z3.RealSort())
    elif k == "ite":
        r = z3.If(zab(x.a[0]), zab(x.a[1]), zab(x.a[2]))
    elif k == "le" or k == "rle":
        r = zab(x.a[0]) <= 0
    elif k == "rlt":
        r = zab(x.a[0]) < 0
    elif k == "eq":
        r = zab(x.a[0]) == 0
    elif k == "not":
        r = z3.Not(zab(x.a[0]))
    elif k == "and":
        r = z3.And(*[zab(c) for c in x.a])
    elif k == "or":
        r = z3.Or(*[zab(c) for c in x.a])
    else:
        r = z(x)
    _zab[x] = r
    return r


def linear_valid(goal, facts):
    """as valid(), with nonlinear real terms as unknowns"""
    s = z3.Solver()
    limit(s, 500)
    for f in facts:
        s.add(zab(f))
    s.add(z3.Not(zab(goal)))
    t0 = time.time()
    r = s.check()
    STATS["z3_time"] += time.time() - t0
    STATS["z3_queries"] += 1
    STATS["z3_" + str(r)] += 1
    return r == z3.unsat


_shared = {}


def shared_linear(goal, ff):
    """linear_valid for many goals under the same facts"""
    k = frozenset(ff)
    s = _shared.get(k)
    if s is None:
        if len(_shared) > 6:
            _shared.pop(next(iter(_shared)))
        s = z3.Solver()
        limit(s, 300)
        for f in ff:
            s.add(zab(f))
        _shared[k] = s
    s.push()
    s.add(z3.Not(zab(goal)))
    t0 = time.time()
    r = s.check()
    s.pop()
    STATS["z3_time"] += time.time() - t0
    STATS["z3_queries"] += 1
    STATS["z3_" + str(r)] += 1
    return r == z3.unsat


def consistent(facts, timeout=4000):
    """True: satisfiable, False: unsat, None: unknown"""
    ff = flat_facts(facts)
    if t.FALSE in ff:
        return False
    s = z3.Solver()
    limit(s, timeout)
    for f in with_defs(t.TRUE, ff):
        s.add(z(f))
        for a in axioms(f):
            s.add(a)
    t0 = time.time()
    r = s.check()
    STATS["z3_time"] += time.time() - t0
    STATS["z3_queries"] += 1
    STATS["z3_" + str(r)] += 1
    return True if r == z3.sat else (False if r == z3.unsat else None)


# ------------------------------------------------------------ simplification
def eqsubst(facts, avoid=()):
    """solved form of the variable equations among the facts (var == poly)"""
    m = {}
    for f in flat_facts(facts):
        if f.k != "eq":
            continue
        p = subst(f.a[0], m) if m else f.a[0]
        if cval(p) is not None:
            continue
        best = None
        for mono, c in p.a:
            if len(mono) == 1 and mono[0][1] == 1 and mono[0][0].k == "var" and (abs(c) == 1 or p.s == "r"):
                v = mono[0][0]
                lin = t.linear_in(p, v)
                if lin is None:
                    continue
                if v in avoid or v in DEFS:
                    continue
                r = scale(lin[1], -1 / lin[0])
                if v in t.fv(r):
                    continue
                # prefer eliminating the newest variable
                if best is None or v.id > best[0].id:
                    best = (v, r)
        if best:
            v, r = best
            m = {k: subst(x, {v: r}) for k, x in m.items()}
            m[v] = r
    return m


def bool_nodes(x):
    seen, out, stack = set(), [], [x]
    while stack:
        y = stack.pop()
        if y in seen:
            continue
        seen.add(y)
        if y.s == "b" and y.k not in ("true", "false"):
            out.append(y)
        stack.extend(t.children(y))
    return out


def known_rewrite(x, known):
    """replace literals (at any depth) that are among the known facts"""
    m = {}
    for n in bool_nodes(x):
        if n.k in ("and",):
            continue
        if n in known:
            m[n] = t.TRUE
        elif not_(n) in known:
            m[n] = t.FALSE
    return subst(x, m) if m else x


def simp(x, facts, use_z3=True, depth=6):
    """resolve ite atoms whose condition is decided by the facts"""
    if depth == 0:
        return x
    known = set(flat_facts(facts))
    x = known_rewrite(x, known)
    done = set()
    parts = {}
    while True:
        tgt = None
        for n in t.atoms_in(x):
            if n.k == "ite" and n not in done:
                if any(v.a[0].startswith("$b") for v in t.fv(n)):
                    continue
                tgt = n
                v = t.decide_lits(n.a[0], known)
                if v is None and use_z3:
                    if valid(n.a[0], facts, cheap=True):
                        v = True
                    elif valid(not_(n.a[0]), facts, cheap=True):
                        v = False
                if v is None:
                    done.add(n)
                    m = settled_parts(n.a[0], facts, parts) if use_z3 else None
                    if m:
                        y = subst(x, m)
                        if y is not x:
                            x = y
                            break
                    continue
                y = subst(x, {n: n.a[1] if v else n.a[2]})
                if y is x:
                    done.add(n)
                    continue
                x = y
                break
        else:
            return x


def settled_parts(c, facts, memo):
    """the literals of a compound condition that the facts decide"""
    m = {}
    if c.k in ("and", "or"):
        for p in c.a:
            if p.k in ("and", "or"):
                m.update(settled_parts(p, facts, memo))
                continue
            if any(v.a[0].startswith("$b") for v in t.fv(p)):
                continue
            if p not in memo:
                memo[p] = t.TRUE if valid(p, facts, cheap=True) else t.FALSE if valid(not_(p), facts, cheap=True) else None
            if memo[p] is not None:
                m[p] = memo[p]
    return m


def erase32(x, digits=6, erase=True):
    """Single precision instance: roundings to binary32 are read as identity and
    constants are compared to 6 significant digits."""
    m = {}
    memo = {}

    def go(p):
        if p in memo:
            return memo[p]
        k = p.k
        if k == "poly":
            d = []
            for mono, c in p.a:
                q = t.const(_rn(c, digits) if p.s == "r" else c, p.s)
                for a, e in mono:
                    q = mul(q, t.power(goa(a), e))
                d.append(q)
            r = add(*d) if d else p
        elif k == "le":
            r = t.le0(go(p.a[0]))
        elif k == "rlt":
            r = t.rlt0(go(p.a[0]))
        elif k == "rle":
            r = t.rle0(go(p.a[0]))
        elif k == "eq":
            r = t.eq0(go(p.a[0]))
        elif k == "not":
            r = not_(go(p.a[0]))
        elif k == "and":
            r = and_(*[go(q) for q in p.a])
        elif k == "or":
            r = or_(*[go(q) for q in p.a])
        elif k == "ub":
            r = t.ubool(p.a[0], [go(q) for q in p.a[1:]])
        else:
            r = p
        if r.k == "poly" and r.s == "r":
            r = t.poly({mm: _rn(cc, digits) for mm, cc in r.a}, "r")
        memo[p] = r
        return r

    def goa(a):
        if a in memo:
            return memo[a]
        if a.k == "uf":
            if erase and a.a[0] == "rnd32":
                r = go(a.a[1])
            else:
                r = t.rebuild_uf(a.a[0], tuple(go(q) for q in a.a[1:]), a.s)
        elif a.k == "sel":
            r = t.rebuild_sel(a.a[0], tuple(go(q) for q in a.a[1:]), a.s)
        elif a.k == "ite":
            r = ite(go(a.a[0]), go(a.a[1]), go(a.a[2]))
        elif a.k in ("sum", "prod"):
            f = fresh("k", "i")
            body = go(subst(a.a[3], {a.a[0]: f}))
            r = (t.mk_sum if a.k == "sum" else t.mk_prod)(as_atom(f), go(a.a[1]), go(a.a[2]), body)
        else:
            r = atom(a)
        memo[a] = r
        return r

    return go(x)


def _rn(c, n):
    """round a rational to n significant digits"""
    if c.denominator == 1 and abs(c.numerator) < 10 ** n:
        return c
    return t.Fraction(("%." + str(n - 1) + "e") % float(c))


class Budget(Exception):
    pass


def outer_lits(a):
    """literals of the conditions of the outermost conditionals (one of each pair of opposites)"""
    r = set()
    todo = [n.a[0] for mo, c in a.a for n, e in mo if n.k == "ite"]
    while todo:
        c = todo.pop()
        if c.k in ("and", "or"):
            todo.extend(c.a)
        elif closed(c):
            r.add(min(c, not_(c), key=lambda n: n.id))
    return r


def closed(c):
    return not any(v.a[0].startswith("$b") for v in t.fv(c))


def prove_eq(a, b, facts, depth=12, budget=None):
    """facts |= a == b for numeric polys, with case splits and sum congruence"""
    if budget is None:
        budget = [400]
    budget[0] -= 1
    if budget[0] < 0:
        return False
    if a is b:
        return True
    facts = flat_facts(facts)
    m = eqsubst(facts)
    if m:
        a, b = subst(a, m), subst(b, m)
        if a is b:
            return True
        have = set(facts)
        for f in list(facts):
            f2 = subst(f, m)
            if f2 is not f and f2 is not t.TRUE and f2 not in have:
                have.add(f2)
                facts = facts + flat_facts([f2])
    a, b = simp(a, facts), simp(b, facts)
    if a is b:
        return True
    d = sub(a, b)
    if cval(d) is not None:
        if cval(d) == 0:
            return True
        return valid(t.FALSE, facts)
    # the same outer condition on both sides: compare the branches
    if depth > 0:
        pa, pb = t.as_atom(a), t.as_atom(b)
        if pa is not None and pb is not None and pa.k == "ite" == pb.k and closed(pa.a[0]):
            if pa.a[0] is pb.a[0]:
                c = pa.a[0]
                return (prove_eq(pa.a[1], pb.a[1], facts + [c], depth, budget)
                        and prove_eq(pa.a[2], pb.a[2], facts + [not_(c)], depth, budget))
            if pa.a[0] is not_(pb.a[0]):
                c = pa.a[0]
                return (prove_eq(pa.a[1], pb.a[2], facts + [c], depth, budget)
                        and prove_eq(pa.a[2], pb.a[1], facts + [not_(c)], depth, budget))
    if depth > 0:
        com = outer_lits(a) & outer_lits(b)
        if com:
            lit = min(com, key=lambda n: n.id)
            return (prove_eq(a, b, facts + [lit], depth - 1, budget)
                    and prove_eq(a, b, facts + [not_(lit)], depth - 1, budget))
    # case split on a top-level ite
    if depth > 0:
        cand = []
        for n in t.atoms_in(d):
            if n.k == "ite" and not any(v.a[0].startswith("$b") for v in t.fv(n)):
                # innermost first: condition free of ites
                inner = any(q.k == "ite" for q in t.atoms_in(n.a[0]))
                cand.append((inner, n.id, n))
        if cand:
            cand.sort(key=lambda c: (c[0], c[1]))
            n = cand[0][2]
            c = n.a[0]
            # split on one literal of the condition
            lit = c
            while lit.k in ("and", "or"):
                lit = lit.a[0]
            return (prove_eq(a, b, facts + [lit], depth - 1, budget)
                    and prove_eq(a, b, facts + [not_(lit)], depth - 1, budget))
    if d.s == "r":
        x = clear_inv(d, facts)
        if cval(x) == 0:
            return True
    sums = [n for mo, c in d.a for n, e in mo if n.k == "sum"]
    if sums:
        if prove_sums(d, facts, depth, budget):
            return True
    if valid(t.eq0(d), facts):
        return True
    # congruence: try to unify atoms pairwise (sel / uf with provably equal args)
    x = unify(d, facts, depth, budget)
    if x is not d:
        return prove_eq(x, t.const(0, d.s), facts, depth - 1, budget)
    return False


def clear_inv(d, facts):
    """multiply out 1/p for divisors p known to be nonzero"""
    for n in sorted({n for mo, c in d.a for n, e in mo if n.k == "uf" and n.a[0] == "inv"}, key=lambda n: n.id):
        p = n.a[1]
        if len(p.a) < 2 or not valid(ne(p, t.const(0, p.s)), facts):
            continue
        by = {}
        for mo, c in d.a:
            e = dict(mo).get(n, 0)
            by.setdefault(e, {})[tuple(x for x in mo if x[0] is not n)] = c
        top = max(by)
        if min(by) < 0:
            continue
        x = t.const(0, d.s)
        for e, q in by.items():
            q = t.poly(q, d.s)
            for _ in range(top - e):
                q = mul(q, p)
            x = add(x, q)
        d = x
    return d


def unify(d, facts, depth, budget):
    ats = []
    for mo, c in d.a:
        for n, e in mo:
            if n not in ats:
                ats.append(n)
    for i in range(len(ats)):
        for j in range(i + 1, len(ats)):
            p, q = ats[i], ats[j]
            if p.k == q.k and p.s == q.s and p.k in ("uf", "sel") and p.a[0] == q.a[0] and len(p.a) == len(q.a):
                if all(prove_eq(x, y, facts, max(0, depth - 1), budget) if x.s != "b" else x is y
                       for x, y in zip(p.a[1:], q.a[1:])):
                    return subst(d, {q: atom(p)})
    return d


def align_sums(d, facts):
    """peel the first or last terms of a sum when another sum over nearly the same range occurs"""
    ss = []
    for mo, c in d.a:
        for n, e in mo:
            if n.k == "sum" and n not in ss:
                ss.append(n)
    for p in ss:
        for q in ss:
            if p is q:
                continue
            dl, dh = cval(sub(q.a[1], p.a[1])), cval(sub(p.a[2], q.a[2]))
            if dl is None or dh is None or dl < 0 or dh < 0 or not 0 < dl + dh <= 4 or not valid(le(q.a[1], q.a[2]), facts):
                continue
            # sum p has dl extra terms in front and dh extra terms at the end
            at = lambda v: subst(p.a[3], {p.a[0]: v})
            ex = t.mk_sum(p.a[0], q.a[1], q.a[2], p.a[3])
            for k in range(int(dl)):
                ex = add(ex, at(add(p.a[1], t.I(k))))
            for k in range(int(dh)):
                ex = add(ex, at(add(q.a[2], t.I(k))))
            return subst(d, {p: ex})
    return d


def prove_sums(d, facts, depth, budget):
    """d == 0 where d contains sums: group by equal bounds, prove the combined
    body pointwise zero, and the rest zero."""
    x = align_sums(d, facts)
    if x is not d:
        return prove_eq(x, t.const(0, d.s), facts, depth - 1, budget)
    rest = {}
    groups = []  # (lo, hi, [(coefpoly, sum)])
    for mo, c in d.a:
        ss = [n for n, e in mo if n.k == "sum" and e == 1]
        if not ss:
            rest[mo] = c
            continue
        n = ss[0]
        outer = t.poly({tuple(x for x in mo if x[0] is not n): c}, d.s)
        for g in groups:
            if g[0] is not n.a[1] and sub(g[1], g[0]) is sub(n.a[2], n.a[1]):
                # same number of terms, other start: count from the same start
                n = t.mk("sum", (n.a[0], g[0], g[1], subst(n.a[3], {n.a[0]: add(atom(n.a[0]), sub(n.a[1], g[0]))})), n.s)
                g[2].append((outer, n))
                break
            if (g[0] is n.a[1] or prove_eq(g[0], n.a[1], facts, 3, budget)) and \
               (g[1] is n.a[2] or prove_eq(g[1], n.a[2], facts, 3, budget)):
                g[2].append((outer, n))
                break
        else:
            groups.append((n.a[1], n.a[2], [(outer, n)]))
    restp = t.poly(rest, d.s)
    if cval(restp) != 0:
        if not prove_eq(restp, t.const(0, d.s), facts, depth - 1, budget):
            return False
    for lo, hi, items in groups:
        k = fresh("s", "i")
        body = None
        for outer, n in items:
            x = mul(outer, subst(n.a[3], {n.a[0]: k}))
            body = x if body is None else add(body, x)
        f2 = facts + [le(lo, k), lt(k, hi)]
        if cval(body) == 0:
            continue
        if not prove_eq(body, t.const(0, d.s), f2, depth, budget):
            return False
    return True


def refute(ls, facts, depth=8):
    """facts and the literals ls are contradictory (with case splits on conditionals)"""
    ls = [x for x in ls if x is not t.TRUE]
    if any(x is t.FALSE for x in ls):
        return True
    allf = list(flat_facts(facts)) + ls
    if valid(t.FALSE, allf):
        return True
    if depth == 0:
        return False
    m = eqsubst(facts)
    if m:
        ls = [y for x in ls for y in t.lits(subst(x, m))]
    cand = None
    for x in ls:
        for n in t.atoms_in(x):
            if n.k == "ite" and not any(v.a[0].startswith("$b") for v in t.fv(n)):
                inner = any(q.k == "ite" for q in t.atoms_in(n.a[0]))
                if cand is None or (inner, n.id) < cand[:2]:
                    cand = (inner, n.id, n)
    if cand is None:
        if os.environ.get("DBG"):
            print("REFUTE", [t.show(x)[:400] for x in ls], "FACTS", [t.show(x)[:200] for x in facts][-40:])
        return False
    c = cand[2].a[0]
    while c.k in ("and", "or"):
        c = c.a[0]
    for l in (c, not_(c)):
        f2 = list(facts) + [l]
        v = decided(c, facts)
        if v is not None and v != (l is c):
            continue
        known = set(flat_facts(f2))
        l2 = []
        for x in ls:
            y = subst(x, {n: (n.a[1] if t.decide_lits(n.a[0], known) else n.a[2]) for n in t.atoms_in(x)
                          if n.k == "ite" and t.decide_lits(n.a[0], known) is not None})
            l2 += t.lits(y)
        if not refute(l2, f2, depth - 1):
            return False
    return True


def decided(c, facts):
    if valid(c, facts):
        return True
    if valid(not_(c), facts):
        return False
    return None
