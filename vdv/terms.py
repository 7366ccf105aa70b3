"""Hash-consed terms: polynomials over atoms (Int and Real), booleans, sums.

Numeric terms are always 'poly' nodes (sum of coefficient * product of atoms),
so that equal polynomials are the same object.  Real coefficients are exact
rationals, rounded to 12 significant digits once they get long (a constant
folded in binary64 and the same constant computed exactly then coincide).
"""
from fractions import Fraction
import itertools

_table = {}
_ids = itertools.count(1)


class T:
    __slots__ = ("k", "a", "s", "id", "_d", "_fv")

    def __repr__(self):
        return show(self)

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __hash__(self):
        return self.id


def mk(k, a, s):
    key = (k, s, a)
    t = _table.get(key)
    if t is None:
        t = T()
        t.k, t.a, t.s = k, a, s
        t.id = next(_ids)
        t._d = None
        t._fv = None
        _table[key] = t
    return t


# ------------------------------------------------------------------ polynomials
def _roundc(c):
    try:
        n, d = c._numerator, c._denominator
    except AttributeError:
        n, d = c.numerator, c.denominator
    if d == 1 and abs(n) < (1 << 60):
        return c
    if d.bit_length() + n.bit_length() <= 44:
        return c
    return Fraction("%.12g" % float(c)) if abs(float(c)) > 0 else Fraction(0)


_mkeys = {}


def _mkey(mc):
    m = mc[0]
    k = _mkeys.get(m)
    if k is None:
        k = _mkeys[m] = (len(m), tuple([(a.id, e) for a, e in m]))
    return k


def memon(f):
    cache = {}

    def g(*bs):
        r = cache.get(bs)
        if r is None:
            r = cache[bs] = f(*bs)
        return r
    return g


def memo1(f):
    """terms are hash-consed, so unary term functions can be cached"""
    cache = {}

    def g(p):
        r = cache.get(p)
        if r is None:
            r = cache[p] = f(p)
        return r
    return g


def poly(d, s):
    """d: dict mono->Fraction.  mono = tuple of (atom, exp) sorted by atom id"""
    items = []
    for m, c in d.items():
        if not c:
            continue
        if type(c) is int:
            c = Fraction(c)
        if s == "r":
            c = _roundc(c)
            if not c:
                continue
        items.append((m, c))
    if len(items) > 1:
        items.sort(key=_mkey)
    return mk("poly", tuple(items), s)


def const(c, s):
    c = Fraction(c)
    return poly({(): c}, s)


def I(c):
    return const(c, "i")


def R(c):
    return const(c, "r")


def atom(t):
    return poly({((t, 1),): Fraction(1)}, t.s)


_fresh = itertools.count(1)


def var(name, s):
    return atom(mk("var", (name,), s))


def ivar(name):
    return var(name, "i")


def rvar(name):
    return var(name, "r")


def fresh(name, s):
    return var("%s!%d" % (name, next(_fresh)), s)


def bvar(name):
    return mk("bvar", (name,), "b")


def freshb(name):
    return bvar("%s!%d" % (name, next(_fresh)))


def is_const(p):
    return p.k == "poly" and (len(p.a) == 0 or (len(p.a) == 1 and p.a[0][0] == ()))


def cval(p):
    """constant value or None"""
    if p.k != "poly":
        return None
    if len(p.a) == 0:
        return Fraction(0)
    if len(p.a) == 1 and p.a[0][0] == ():
        return p.a[0][1]
    return None


def as_atom(p):
    """the atom if p is exactly 1*atom, else None"""
    if p.k == "poly" and len(p.a) == 1:
        m, c = p.a[0]
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


def add(*ps):
    s = ps[0].s
    d = {}
    for p in ps:
        assert p.k == "poly", p
        assert p.s == s, (p, s)
        for m, c in p.a:
            d[m] = d.get(m, 0) + c
    return poly(d, s)


def scale(p, c):
    c = Fraction(c)
    if c == 1:
        return p
    return poly({m: k * c for m, k in p.a}, p.s)


def neg(p):
    return scale(p, -1)


def sub(a, b):
    return add(a, scale(b, -1))


def _isinv(a):
    return a.k == "uf" and a.a[0] == "inv"


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].id))


def mul(*ps):
    r = ps[0]
    for q in ps[1:]:
        assert r.s == q.s, (r, q)
        d = {}
        for m1, c1 in r.a:
            for m2, c2 in q.a:
                m = mono_mul(m1, m2)
                d[m] = d.get(m, 0) + c1 * c2
        r = poly(d, r.s)
    return r


def power(p, n):
    r = const(1, p.s)
    for _ in range(n):
        r = mul(r, p)
    return r


def uf(name, args, s):
    return atom(mk("uf", (name,) + tuple(args), s))


# --------------------------------------------------------------- real functions
def inv(p):
    c = cval(p)
    if c is not None:
        if c == 0:
            return uf("inv", (p,), "r")
        return R(1 / c)
    if len(p.a) == 1:
        m, c = p.a[0]
        r = R(1 / c)
        for a, e in m:
            base = atom(a)
            if _isinv(a):
                f = a.a[1]
            else:
                f = uf("inv", (base,), "r")
            r = mul(r, power(f, e))
        return r
    # normalise the leading coefficient to 1
    lead = p.a[-1][1]
    q = scale(p, 1 / lead)
    if len(q.a) == 2 and unit_circle(q):
        return R(1 / lead)
    return scale(uf("inv", (q,), "r"), 1 / lead)


def unit_circle(q):
    """sin(x)^2 + cos(x)^2"""
    (m, c), (n, d) = q.a
    if c != 1 or d != 1 or len(m) != 1 or len(n) != 1 or m[0][1] != 2 or n[0][1] != 2:
        return False
    a, b = m[0][0], n[0][0]
    return a.k == b.k == "uf" and {a.a[0], b.a[0]} == {"sin", "cos"} and a.a[1] is b.a[1]


def rdiv(a, b):
    return mul(a, inv(b))


def toreal(p):
    assert p.s == "i"
    d = {}
    for m, c in p.a:
        nm = []
        extra = None
        for a, e in m:
            if a.k == "uf" and a.a[0] == "trunc" and False:
                pass
            if a.k == "ite":
                ra = ite(a.a[0], toreal(a.a[1]), toreal(a.a[2]))
                q = power(ra, e)
                extra = q if extra is None else mul(extra, q)
            elif a.k == "sum":
                ra = atom(mk("sum", (a.a[0], a.a[1], a.a[2], toreal(a.a[3])), "r"))
                q = power(ra, e)
                extra = q if extra is None else mul(extra, q)
            elif a.k == "uf" and a.a[0] == "toint" :
                # toint(x) with x known integral: not simplified
                nm.append((mk("uf", ("toreal", atom(a)), "r"), e))
            else:
                nm.append((mk("uf", ("toreal", atom(a)), "r"), e))
        mono = tuple(sorted(nm, key=lambda x: x[0].id))
        if extra is None:
            d[mono] = d.get(mono, 0) + c
        else:
            base = poly({mono: c}, "r")
            for mm, cc in mul(base, extra).a:
                d[mm] = d.get(mm, 0) + cc
    return poly(d, "r")


def _split_const_int(p):
    """p real poly: return (int part polynomial or None)"""
    return None


def int_of_real_poly(p):
    """If the real polynomial p has integer coefficients and only toreal(..)
    atoms, return the int polynomial it is the image of, else None."""
    d = {}
    for m, c in p.a:
        if c.denominator != 1:
            return None
        nm = ()
        for a, e in m:
            if a.k == "uf" and a.a[0] == "toreal":
                ia = as_atom(a.a[1])
                nm = mono_mul(nm, ((ia, e),))
            elif a.k == "uf" and a.a[0] in ("floorr", "ceilr", "rintr", "roundr", "truncr"):
                ia = as_atom(toint(a.a[0][:-1], a.a[1]))
                if ia is None:
                    return None
                nm = mono_mul(nm, ((ia, e),))
            elif a.k == "ite":
                x, y = int_of_real_poly(a.a[1]), int_of_real_poly(a.a[2])
                if x is None or y is None or e != 1:
                    return None
                t = as_atom(ite(a.a[0], x, y))
                if t is None:
                    return None
                nm = mono_mul(nm, ((t, e),))
            else:
                return None
        d[nm] = d.get(nm, 0) + c
    return poly(d, "i")


def toint(mode, p):
    """mode in floor, ceil, trunc, rint, round: real -> int"""
    q = int_of_real_poly(p)
    if q is not None:
        return q
    c = cval(p)
    if c is not None:
        import math
        if mode == "floor":
            return I(math.floor(c))
        if mode == "ceil":
            return I(math.ceil(c))
        if mode == "trunc":
            return I(math.trunc(c))
        if mode == "round":
            v = math.floor(abs(c) + Fraction(1, 2))
            return I(v if c >= 0 else -v)
        if mode == "rint":
            return I(round(c))
    a = as_atom(p)
    if a is not None and a.k == "ite":
        return ite(a.a[0], toint(mode, a.a[1]), toint(mode, a.a[2]))
    # pull out the integer part of the constant and integral terms
    if mode in ("floor", "ceil", "rint"):
        intpart, rest = {}, {}
        for m, cc in p.a:
            q = poly({m: cc}, "r")
            qi = int_of_real_poly(q) if (m != () and mode != "rint") else None
            if qi is not None:
                for mm, k in qi.a:
                    intpart[mm] = intpart.get(mm, 0) + k
            elif m == () and mode != "rint":
                import math
                f = math.floor(cc)
                intpart[()] = intpart.get((), 0) + f
                if cc - f:
                    rest[()] = cc - f
            else:
                rest[m] = cc
        if intpart and rest:
            return add(poly(intpart, "i"), uf(mode, (poly(rest, "r"),), "i"))
    return uf(mode, (p,), "i")


# --------------------------------------------------------------------- booleans
TRUE = mk("true", (), "b")
FALSE = mk("false", (), "b")


def B(v):
    return TRUE if v else FALSE


def _norm_sign(p):
    if p.a and p.a[-1][1] < 0:
        return neg(p)
    return p


def _ites(p):
    for m, c in p.a:
        for a, e in m:
            if a.k == "ite":
                return a
    return None


def _lift(f, p):
    """comparison f(p): push through one ite atom when that folds a branch"""
    n = 0
    for m, c in p.a:
        for a, e in m:
            if a.k == "ite":
                n += 1
                if n > 4:
                    return None
    for m, c in p.a:
        for a, e in m:
            if a.k == "ite":
                x = f(subst_atom(p, a, a.a[1]))
                y = f(subst_atom(p, a, a.a[2]))
                if x in (TRUE, FALSE) or y in (TRUE, FALSE):
                    return or_(and_(a.a[0], x), and_(not_(a.a[0]), y))
    return None


def subst_atom(p, a, val):
    d = {}
    for m, c in p.a:
        rest = tuple(x for x in m if x[0] is not a)
        e = 0
        for x in m:
            if x[0] is a:
                e = x[1]
        if e == 0:
            d[m] = d.get(m, 0) + c
        else:
            for mm, cc in mul(poly({rest: c}, p.s), power(val, e)).a:
                d[mm] = d.get(mm, 0) + cc
    return poly(d, p.s)


@memo1
def le0(p):  # int p <= 0
    from math import gcd
    if p.s == "r":
        return rle0(p)
    c = cval(p)
    if c is not None:
        return B(c <= 0)
    r = _lift(le0, p)
    if r is not None:
        return r
    g = 0
    k = Fraction(0)
    for m, cc in p.a:
        if m == ():
            k = cc
        else:
            g = gcd(g, int(cc))
    if g > 1:
        import math
        d = {m: cc / g for m, cc in p.a if m != ()}
        d[()] = Fraction(math.ceil(k / g))
        p = poly(d, "i")
    return mk("le", (p,), "b")


def _rnorm(p):
    lead = abs(p.a[-1][1])
    if lead != 1:
        p = scale(p, 1 / lead)
    return p


def _r2i(p):
    """real comparison whose terms are all integral -> int poly"""
    if any(m and any(a.k == "uf" and a.a[0] == "toreal" for a, e in m) for m, c in p.a):
        d = 1
        for m, c in p.a:
            d = d * c.denominator // __import__("math").gcd(d, c.denominator)
        if d < (1 << 40):
            return int_of_real_poly(scale(p, d))
    return None


@memo1
def rlt0(p):
    c = cval(p)
    if c is not None:
        return B(c < 0)
    q = _r2i(p)
    if q is not None:
        return le0(add(q, I(1)))
    r = _lift(rlt0, p)
    if r is not None:
        return r
    return mk("rlt", (_rnorm(p),), "b")


@memo1
def rle0(p):
    c = cval(p)
    if c is not None:
        return B(c <= 0)
    q = _r2i(p)
    if q is not None:
        return le0(q)
    r = _lift(rle0, p)
    if r is not None:
        return r
    return mk("rle", (_rnorm(p),), "b")


@memo1
def eq0(p):
    c = cval(p)
    if c is not None:
        return B(c == 0)
    r = _lift(eq0, p)
    if r is not None:
        return r
    if p.s == "r":
        q = _r2i(p)
        if q is not None:
            return eq0(q)
        p = scale(p, 1 / p.a[-1][1])
    else:
        from math import gcd
        g = 0
        k = Fraction(0)
        for m, cc in p.a:
            if m == ():
                k = cc
            else:
                g = gcd(g, int(cc))
        if (k / g).denominator != 1:
            return FALSE
        p = scale(p, Fraction(1, g))
        p = _norm_sign(p)
    return mk("eq", (p,), "b")


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    if a.s == "r":
        return rlt0(sub(a, b))
    return le0(add(sub(a, b), I(1)))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    if a.s == "b":
        return iff(a, b)
    return eq0(sub(a, b))


def ne(a, b):
    return not_(eq(a, b))


def iff(a, b):
    return or_(and_(a, b), and_(not_(a), not_(b)))


def implies(a, b):
    return or_(not_(a), b)


@memo1
def not_(b):
    k = b.k
    if k == "true":
        return FALSE
    if k == "false":
        return TRUE
    if k == "not":
        return b.a[0]
    if k == "le":
        return le0(sub(I(1), b.a[0]))
    if k == "rlt":
        return rle0(neg(b.a[0]))
    if k == "rle":
        return rlt0(neg(b.a[0]))
    if k == "and":
        return or_(*[not_(x) for x in b.a])
    if k == "or":
        return and_(*[not_(x) for x in b.a])
    return mk("not", (b,), "b")


def lits(b):
    if b.k == "and":
        return b.a
    if b.k == "true":
        return ()
    return (b,)


def _eqconst(l):
    """literal atom == const -> (atom, const)"""
    if l.k == "eq":
        p = l.a[0]
        if len(p.a) == 1:
            m, c = p.a[0]
            if len(m) == 1 and m[0][1] == 1:
                return m[0][0], Fraction(0)
        elif len(p.a) == 2 and p.a[0][0] == ():
            m, c = p.a[1]
            if len(m) == 1 and m[0][1] == 1:
                return m[0][0], -p.a[0][1] / c
    return None


@memon
def and_(*bs):
    out = set()
    stack = list(bs)
    while stack:
        b = stack.pop()
        if b.k == "true":
            continue
        if b.k == "false":
            return FALSE
        if b.k == "and":
            stack.extend(b.a)
        else:
            out.add(b)
    if not out:
        return TRUE
    if len(out) == 1:
        return next(iter(out))
    known = {}
    for l in out:
        ec = _eqconst(l)
        if ec:
            if ec[0] in known and known[ec[0]] != ec[1]:
                return FALSE
            known[ec[0]] = ec[1]
    res = set()
    for l in out:
        if not_(l) in out:
            return FALSE
        if l.k == "not" and known:
            ec = _eqconst(l.a[0])
            if ec and ec[0] in known:
                if known[ec[0]] == ec[1]:
                    return FALSE
                continue
        if l.k == "or":
            # unit propagation / subsumption
            new = []
            drop = False
            for d in l.a:
                if d in out:
                    drop = True
                    break
                ds = lits(d)
                if any(not_(x) in out for x in ds):
                    continue
                rest = [x for x in ds if x not in out]
                if not rest:
                    drop = True
                    break
                if known:
                    bad = False
                    for x in rest:
                        ec = _eqconst(x)
                        if ec and ec[0] in known and known[ec[0]] != ec[1]:
                            bad = True
                    if bad:
                        continue
                new.append(and_(*rest) if len(rest) != len(ds) else d)
            if drop:
                continue
            n = or_(*new)
            if n is not l:
                if n.k == "false":
                    return FALSE
                return and_(*([x for x in out if x is not l] + [n]))
        res.add(l)
    if not res:
        return TRUE
    if len(res) == 1:
        return next(iter(res))
    return mk("and", tuple(sorted(res, key=lambda x: x.id)), "b")


@memon
def or_(*bs):
    out = set()
    stack = list(bs)
    while stack:
        b = stack.pop()
        if b.k == "false":
            continue
        if b.k == "true":
            return TRUE
        if b.k == "or":
            stack.extend(b.a)
        else:
            out.add(b)
    if not out:
        return FALSE
    changed = True
    while changed and len(out) > 1:
        changed = False
        lst = sorted(out, key=lambda x: x.id)
        for i in range(len(lst)):
            for j in range(i + 1, len(lst)):
                x, y = lst[i], lst[j]
                lx, ly = set(lits(x)), set(lits(y))
                if lx <= ly:
                    out.discard(y)
                    changed = True
                    break
                if ly <= lx:
                    out.discard(x)
                    changed = True
                    break
                dx, dy = lx - ly, ly - lx
                if len(dx) == 1 and len(dy) == 1:
                    a, b = next(iter(dx)), next(iter(dy))
                    if not_(a) is b:
                        out.discard(x)
                        out.discard(y)
                        out.add(and_(*(lx & ly)))
                        changed = True
                        break
                if len(dx) == 1 and not_(next(iter(dx))) in dy:
                    # (c & a) | (c & !a & r) -> (c & a) | (c & r)
                    out.discard(y)
                    out.add(and_(*(ly - {not_(next(iter(dx)))})))
                    changed = True
                    break
                if len(dy) == 1 and not_(next(iter(dy))) in dx:
                    out.discard(x)
                    out.add(and_(*(lx - {not_(next(iter(dy)))})))
                    changed = True
                    break
                # x and not-y combined:  dx conj vs or
            if changed:
                break
        if TRUE in out:
            return TRUE
        # (c & A) | (c & not A) where not A is an 'or' literal
        if not changed:
            lst = sorted(out, key=lambda x: x.id)
            for i in range(len(lst)):
                for j in range(len(lst)):
                    if i == j:
                        continue
                    lx, ly = set(lits(lst[i])), set(lits(lst[j]))
                    c = lx & ly
                    dx, dy = lx - ly, ly - lx
                    if len(dy) == 1 and next(iter(dy)).k == "or" and dx:
                        if not_(and_(*dx)) is next(iter(dy)):
                            out.discard(lst[i])
                            out.discard(lst[j])
                            out.add(and_(*c))
                            changed = True
                            break
                if changed:
                    break
            if TRUE in out:
                return TRUE
    if len(out) == 1:
        return next(iter(out))
    for l in out:
        if not_(l) in out:
            return TRUE
    return mk("or", tuple(sorted(out, key=lambda x: x.id)), "b")


def ubool(name, args):
    return mk("ub", (name,) + tuple(args), "b")


# -------------------------------------------------------------------------- ite
def minmax(c, a, b):
    """one form for each way to write a minimum or maximum (ties give the same value)"""
    if c.k not in ("rlt", "rle", "le"):
        return c, a, b
    p, d = c.a[0], sub(a, b)
    if cval(d) is not None or p.s != a.s:
        return c, a, b
    n = _rnorm(d) if a.s == "r" else d
    if p is n or (a.s == "i" and p is add(n, I(1))):
        small = True
    elif p is neg(n) or (a.s == "i" and p is sub(I(1), n)):
        small = False
    else:
        return c, a, b
    x, y = (a, b) if a.id < b.id else (b, a)
    return (le(x, y), x, y) if small else (le(x, y), y, x)


def ite(c, a, b):
    if a is b:
        return a
    if c.k == "true":
        return a
    if c.k == "false":
        return b
    if a.s == "b":
        return or_(and_(c, a), and_(not_(c), b))
    assert a.s == b.s, (a, b)
    c, a, b = minmax(c, a, b)
    nc = not_(c)
    if nc.id < c.id:
        c, nc, a, b = nc, c, b, a
    # nested with same condition
    a = assume_lits(a, set(lits(c)))
    b = assume_lits(b, set(lits(nc)))
    if a is b:
        return a
    # common part
    da, db = dict(a.a), dict(b.a)
    com = {m: v for m, v in da.items() if db.get(m) == v}
    if com:
        a2 = poly({m: v for m, v in da.items() if m not in com}, a.s)
        b2 = poly({m: v for m, v in db.items() if m not in com}, a.s)
        return add(poly(com, a.s), ite(c, a2, b2))
    # common linear scaling (keeps -ite / k*ite canonical)
    za, zb = cval(a), cval(b)
    if zb == 0 and za is None and len(a.a) >= 1 and a.s == "r":
        lead = a.a[-1][1]
        if lead != 1:
            return scale(ite(c, scale(a, 1 / lead), b), lead)
    if za == 0 and zb is None and a.s == "r":
        lead = b.a[-1][1]
        if lead != 1:
            return scale(ite(c, a, scale(b, 1 / lead)), lead)
    if zb == 0:
        # ite(c, ite(c2, x, 0), 0) -> ite(c & c2, x, 0)
        t = as_atom(a)
        if t is not None and t.k == "ite":
            if cval(t.a[2]) == 0:
                return ite(and_(c, t.a[0]), t.a[1], t.a[2])
            if cval(t.a[1]) == 0:
                return ite(and_(c, not_(t.a[0])), t.a[2], t.a[1])
    if za == 0:
        t = as_atom(b)
        if t is not None and t.k == "ite":
            if cval(t.a[2]) == 0:
                return ite(and_(nc, t.a[0]), t.a[1], t.a[2])
            if cval(t.a[1]) == 0:
                return ite(and_(nc, not_(t.a[0])), t.a[2], t.a[1])
    return atom(mk("ite", (c, a, b), a.s))


def assume_lits(t, known, depth=3):
    """cheap simplification of ite atoms in poly t given a set of true literals"""
    if t.s == "b" or depth == 0:
        return t
    for m, c in t.a:
        for a, e in m:
            if a.k == "ite":
                v = decide_lits(a.a[0], known)
                if v is not None:
                    return assume_lits(subst_atom(t, a, a.a[1] if v else a.a[2]), known, depth)
    return t


def decide_lits(c, known):
    if c in known:
        return True
    if not_(c) in known:
        return False
    if c.k == "and":
        vs = [decide_lits(x, known) for x in c.a]
        if any(v is False for v in vs):
            return False
        if all(v is True for v in vs):
            return True
    elif c.k == "or":
        vs = [decide_lits(x, known) for x in c.a]
        if any(v is True for v in vs):
            return True
        if all(v is False for v in vs):
            return False
    return None


# ------------------------------------------------------------------ traversal
def children(t):
    k = t.k
    if k == "poly":
        for m, c in t.a:
            for a, e in m:
                yield a
    elif k in ("uf", "ub"):
        for x in t.a[1:]:
            yield x
    elif k == "sel":
        for x in t.a[1:]:
            yield x
    elif k in ("ite", "le", "rlt", "rle", "eq", "not", "and", "or"):
        for x in t.a:
            yield x
    elif k in ("sum", "prod"):
        yield t.a[1]
        yield t.a[2]
        yield t.a[3]


def fv(t):
    """free variable atoms (kind var/bvar) of t"""
    if t._fv is not None:
        return t._fv
    if t.k in ("var", "bvar"):
        r = frozenset((t,))
    elif t.k in ("sum", "prod"):
        r = fv(t.a[1]) | fv(t.a[2]) | (fv(t.a[3]) - frozenset((t.a[0],)))
    else:
        r = frozenset()
        for c in children(t):
            r |= fv(c)
    t._fv = r
    return r


def atoms_in(t, seen=None, out=None):
    """all sub-nodes"""
    if out is None:
        out, seen = [], set()
    if t in seen:
        return out
    seen.add(t)
    out.append(t)
    for c in children(t):
        atoms_in(c, seen, out)
    return out


def literal_atoms(x):
    """comparison nodes of a formula (not inside terms)"""
    out, st = [], [x]
    while st:
        n = st.pop()
        if n.k in ("le", "rle", "rlt", "eq"):
            out.append(n)
        elif n.k in ("and", "or", "not"):
            st.extend(n.a)
    return out


def atoms_with(t, v):
    """sub-nodes in which v is free"""
    out, seen, st = [], set(), [t]
    while st:
        n = st.pop()
        if n in seen or v not in fv(n):
            continue
        seen.add(n)
        out.append(n)
        st.extend(children(n))
    return out


def sumdepth(t):
    if t._d is not None:
        return t._d
    d = 0
    for c in children(t):
        d = max(d, sumdepth(c))
    if t.k in ("sum", "prod"):
        d += 1
    t._d = d
    return d


def subst(t, m, memo=None):
    """m: dict atom(T var / any atom T) -> poly (or bool)"""
    if not m:
        return t
    if memo is None:
        memo = {}
    return _subst(t, m, frozenset(m), memo)


def _subst(t, m, keys, memo):
    if t in memo:
        return memo[t]
    if t.k in ("var", "bvar"):
        r = m.get(t)
        if r is None:
            r = atom(t) if t.k == "var" else t
        # atoms are handled in poly; here only reached for bvar
        memo[t] = r
        return r
    if t in m:
        return m[t]
    pv = memo.get("only_with")
    if pv is not None:
        if pv not in fv(t):
            memo[t] = t
            return t
    elif not (fv(t) & keys):
        # non-variable atom keys may still occur
        vk = memo.get("varkeys")
        if vk is None:
            vk = memo["varkeys"] = all(k.k in ("var", "bvar") for k in keys)
        if vk:
            memo[t] = t
            return t
    k = t.k
    if k == "poly":
        d = {}
        res = None
        for mono, c in t.a:
            plain = []
            acc = None
            for a, e in mono:
                if a in m:
                    v = m[a]
                elif a.k == "var":
                    v = None
                else:
                    v = _subst_atom_node(a, m, keys, memo)
                    if as_atom(v) is a:
                        v = None
                if v is None:
                    plain.append((a, e))
                else:
                    q = power(v, e)
                    acc = q if acc is None else mul(acc, q)
            mono2 = tuple(plain)
            if acc is None:
                d[mono2] = d.get(mono2, 0) + c
            else:
                for mm, cc in mul(poly({mono2: c}, t.s), acc).a:
                    d[mm] = d.get(mm, 0) + cc
        r = poly(d, t.s)
    elif k == "le":
        r = le0(_subst(t.a[0], m, keys, memo))
    elif k == "rlt":
        r = rlt0(_subst(t.a[0], m, keys, memo))
    elif k == "rle":
        r = rle0(_subst(t.a[0], m, keys, memo))
    elif k == "eq":
        r = eq0(_subst(t.a[0], m, keys, memo))
    elif k == "not":
        r = not_(_subst(t.a[0], m, keys, memo))
    elif k == "and":
        r = and_(*[_subst(x, m, keys, memo) for x in t.a])
    elif k == "or":
        r = or_(*[_subst(x, m, keys, memo) for x in t.a])
    elif k == "ub":
        r = mk("ub", (t.a[0],) + tuple(_subst(x, m, keys, memo) for x in t.a[1:]), "b")
    elif k in ("true", "false"):
        r = t
    else:
        r = _subst_atom_node(t, m, keys, memo)
    memo[t] = r
    return r


def _subst_atom_node(a, m, keys, memo):
    """substitute inside an atom node; returns poly"""
    key = ("A", a)
    if key in memo:
        return memo[key]
    if a.k == "uf":
        args = tuple(_subst(x, m, keys, memo) for x in a.a[1:])
        r = rebuild_uf(a.a[0], args, a.s)
    elif a.k == "sel":
        args = tuple(_subst(x, m, keys, memo) for x in a.a[1:])
        r = rebuild_sel(a.a[0], args, a.s)
    elif a.k == "ite":
        c = _subst(a.a[0], m, keys, memo)
        if c is TRUE:
            r = _subst(a.a[1], m, keys, memo)
        elif c is FALSE:
            r = _subst(a.a[2], m, keys, memo)
        else:
            r = ite(c, _subst(a.a[1], m, keys, memo), _subst(a.a[2], m, keys, memo))
    elif a.k in ("sum", "prod"):
        lo = _subst(a.a[1], m, keys, memo)
        hi = _subst(a.a[2], m, keys, memo)
        fa, body = a.a[0], a.a[3]
        vals = memo.get("fv")
        if vals is None:
            vals = frozenset().union(*[fv(x) for x in m.values()])
            memo["fv"] = vals
        kv = memo.get("kfv")
        if kv is None:
            kv = frozenset().union(*[fv(x) for x in keys if x.k != "var"], frozenset())
            memo["kfv"] = kv
        if fa in keys or (fa in vals and fa not in kv):     # fa in kv: the caller means this bound variable
            f = fresh("k", "i")
            body = subst(body, {fa: f})
            fa = as_atom(f)
        body = _subst(body, m, keys, memo)
        if fa is a.a[0] and lo is a.a[1] and hi is a.a[2] and body is a.a[3]:
            r = atom(a)
        else:
            r = (mk_sum if a.k == "sum" else mk_prod)(fa, lo, hi, body)
    else:
        r = atom(a)
    memo[key] = r
    return r


def rebuild_uf(name, args, s):
    if name == "inv":
        return inv(args[0])
    if name == "toreal":
        return toreal(args[0])
    if name in ("floor", "ceil", "trunc", "rint", "round"):
        return toint(name, args[0])
    if name in ("sdiv", "srem"):
        return idiv(name, args[0], args[1])
    if name == "fdiv":
        return fdiv(args[0], args[1])
    f = SIMPLIFY_UF.get(name)
    if f:
        return f(args, s)
    return uf(name, args, s)


SIMPLIFY_UF = {}


def rebuild_sel(tag, args, s):
    h = SEL_HOOK.get(tag)
    if h:
        return h(args, s)
    return atom(mk("sel", (tag,) + args, s))


SEL_HOOK = {}


def sel(tag, args, s):
    return atom(mk("sel", (tag,) + tuple(args), s))


def idiv(name, a, b):
    """C integer division / remainder (truncating)"""
    ca, cb = cval(a), cval(b)
    if cb is not None and cb != 0:
        if cb == 1:
            return a if name == "sdiv" else I(0)
        if ca is not None:
            q = abs(int(ca)) // abs(int(cb))
            if (ca < 0) != (cb < 0):
                q = -q
            return I(q) if name == "sdiv" else I(int(ca) - q * int(cb))
        if all(c % cb == 0 for m, c in a.a):
            return scale(a, Fraction(1, 1) / cb) if name == "sdiv" else I(0)
    else:
        # exact polynomial multiple of a symbolic divisor (divisor non-zero or UB)
        if len(b.a) == 1:
            m, c = b.a[0]
            q = mono_div_all(a, m, c)
            if q is not None:
                return q if name == "sdiv" else I(0)
    q = uf("sdiv", (a, b), "i")
    return q if name == "sdiv" else sub(a, mul(b, q))


def fdiv(a, b):
    """floor(a / b) for a positive symbolic divisor"""
    a1 = as_atom(a)
    if a1 is not None and a1.k == "ite":
        return ite(a1.a[0], fdiv(a1.a[1], b), fdiv(a1.a[2], b))
    for m, c in a.a:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].k == "ite":
            n = m[0][0]
            r = sub(a, scale(atom(n), c))
            return ite(n.a[0], fdiv(add(r, scale(n.a[1], c)), b), fdiv(add(r, scale(n.a[2], c)), b))
    if len(b.a) == 1 and b.a[0][1] == 1:
        bm = b.a[0][0]
        q, r = {}, {}
        for m, c in a.a:
            d = mono_divides(m, bm)
            if d is not None:
                q[d] = q.get(d, 0) + c
            else:
                r[m] = c
        if q:
            return add(poly(q, "i"), fdiv(poly(r, "i"), b))
    if cval(a) == 0:
        return I(0)
    lead = [c for m, c in a.a if m != ()]
    if lead and lead[0] < 0:
        # floor((-y - 1) / b) = -floor(y / b) - 1
        return sub(neg(fdiv(sub(neg(a), I(1)), b)), I(1))
    return uf("fdiv", (a, b), "i")


def emod(a, b):
    """a modulo b, in [0, b) for positive b"""
    return sub(a, mul(b, fdiv(a, b)))


def mono_divides(m, by):
    d = dict(m)
    for a, e in by:
        if d.get(a, 0) < e:
            return None
        d[a] -= e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].id))


def mono_div_all(p, m, c):
    d = {}
    for mm, cc in p.a:
        q = mono_divides(mm, m)
        if q is None or (cc / c).denominator != 1:
            return None
        d[q] = d.get(q, 0) + cc / c
    return poly(d, p.s)


# ------------------------------------------------------------------------- sums
def linear_in(p, v):
    """p = c*v + r with constant c: returns (c, r) or None (v an atom)"""
    c = Fraction(0)
    rest = {}
    for m, k in p.a:
        hit = [x for x in m if x[0] is v]
        if hit:
            if len(m) == 1 and m[0][1] == 1:
                c += k
            else:
                return None
        else:
            if any(v in fv(x[0]) for x in m):
                return None
            rest[m] = k
    return c, poly(rest, p.s)


def solve_eqs(cond, v):
    """find in the conjunction cond an equation v == expr (unit coefficient)"""
    for l in lits(cond):
        if l.k == "eq" and l.a[0].s == "i":
            r = linear_in(l.a[0], v)
            if r is not None and abs(r[0]) == 1:
                return scale(r[1], -1 / r[0])
    return None


def canon_bound(v, body):
    """rename the bound variable v of body to its canonical, capture-free name"""
    d = sumdepth(body) + 1
    bv = mk("var", ("$b%d" % d,), "i")
    free = fv(body)
    while bv is not v and bv in free:
        d += 1
        bv = mk("var", ("$b%d" % d,), "i")
    if bv is not v:
        body = subst(body, {v: atom(bv)})
    return bv, body


def mk_sum(v, lo, hi, body):
    """v: var atom (int); sum over lo <= v < hi of body"""
    z = cval(body)
    if z == 0:
        return const(0, body.s)
    n = cval(sub(hi, lo))
    if n is not None and n <= 0:
        return const(0, body.s)
    if n is not None and n == 1:
        return subst(body, {v: lo})
    if v not in fv(body):
        cnt = sub(hi, lo)
        c = ite(gt(cnt, I(0)), cnt, I(0))
        return mul(body, toreal(c) if body.s == "r" else c)
    # body = coef * mono * ite(c, e, 0) with an equation that pins v
    if len(body.a) == 1:
        m, c = body.a[0]
        for a, e in m:
            if a.k == "ite" and e == 1:
                for cond, x, y in ((a.a[0], a.a[1], a.a[2]), (not_(a.a[0]), a.a[2], a.a[1])):
                    if cval(y) == 0:
                        s = solve_eqs(cond, v)
                        if s is not None:
                            rest = poly({tuple(q for q in m if q[0] is not a): c}, body.s)
                            val = subst(mul(rest, x), {v: s})
                            cc = and_(subst(cond, {v: s}), le(lo, s), lt(s, hi))
                            return ite(cc, val, const(0, body.s))
    # the summation range is known inside the body
    if any(n.k == "ite" for n in atoms_with(body, v)):
        rl = {x: TRUE for x in (le(lo, atom(v)), lt(atom(v), hi)) if x is not TRUE and x is not FALSE}
        b2 = subst(body, rl, {"only_with": v})
        if b2 is not body:
            return mk_sum(v, lo, hi, b2)
    # conditions that do not depend on v come out of the sum
    common = None
    for m, c in body.a:
        here = set()
        for a, e in m:
            if a.k == "ite" and cval(a.a[2]) == 0:
                here |= set(x for x in (a.a[0].a if a.a[0].k == "and" else (a.a[0],)) if v not in fv(x))
        common = here if common is None else common & here
        if not common:
            break
    if common:
        rest = const(0, body.s)
        for m, c in body.a:
            q = const(c, body.s)
            for a, e in m:
                if a.k == "ite" and cval(a.a[2]) == 0:
                    ls = a.a[0].a if a.a[0].k == "and" else (a.a[0],)
                    f = ite(and_(*[x for x in ls if x not in common]), a.a[1], a.a[2])
                else:
                    f = atom(a)
                q = mul(q, power(f, e))
            rest = add(rest, q)
        return ite(and_(*common), mk_sum(v, lo, hi, rest), const(0, body.s))
    # arrays are read backwards: count the other way
    signs = set()
    for n_ in atoms_with(body, v):
        if n_.k == "sel":
            for x in n_.a[1:]:
                if v in fv(x):
                    l = linear_in(x, v)
                    signs.add(0 if l is None else (l[0] > 0) - (l[0] < 0))
    if signs == {-1}:
        body = subst(body, {v: sub(add(lo, hi), add(atom(v), I(1)))})
    bv, body = canon_bound(v, body)
    return atom(mk("sum", (bv, lo, hi, body), body.s))


def mk_prod(v, lo, hi, body):
    n = cval(sub(hi, lo))
    if n is not None and n <= 0:
        return const(1, body.s)
    if n is not None and n <= 8:
        r = const(1, body.s)
        for k in range(int(n)):
            r = mul(r, subst(body, {v: add(lo, I(k))}))
        return r
    if any(n.k == "ite" for n in atoms_with(body, v)):
        rl = {x: TRUE for x in (le(lo, atom(v)), lt(atom(v), hi)) if x is not TRUE and x is not FALSE}
        b2 = subst(body, rl, {"only_with": v})
        if b2 is not body:
            return mk_prod(v, lo, hi, b2)
    if cval(body) == -1:          # an alternating sign
        one = const(1, body.s)
        return ite(and_(lt(lo, hi), not_(eq(emod(sub(hi, lo), I(2)), I(0)))), neg(one), one)
    bv, body = canon_bound(v, body)
    return atom(mk("prod", (bv, lo, hi, body), body.s))


# ------------------------------------------------------------------------- show
def show(t, prec=0):
    k = t.k
    if k == "poly":
        if not t.a:
            return "0"
        out = []
        for m, c in t.a:
            f = []
            if c != 1 or not m:
                cs = str(c)
                if len(cs) > 14:
                    cs = "%.10g" % float(c)
                f.append(cs)
            for a, e in m:
                s = show(a, 1)
                f.append(s if e == 1 else "%s^%d" % (s, e))
            out.append("*".join(f))
        s = " + ".join(out)
        return "(%s)" % s if prec and len(t.a) > 1 else s
    if k in ("var", "bvar"):
        return t.a[0]
    if k == "uf":
        return "%s(%s)" % (t.a[0], ", ".join(show(x) for x in t.a[1:]))
    if k == "ub":
        return "%s(%s)" % (t.a[0], ", ".join(show(x) for x in t.a[1:]))
    if k == "sel":
        return "%s[%s]" % (t.a[0], ", ".join(show(x) for x in t.a[1:]))
    if k == "ite":
        return "ite(%s, %s, %s)" % tuple(show(x) for x in t.a)
    if k in ("sum", "prod"):
        return "%s{%s=%s..%s}(%s)" % (k, t.a[0].a[0], show(t.a[1]), show(t.a[2]), show(t.a[3]))
    if k == "le":
        return "%s<=0" % show(t.a[0])
    if k == "rlt":
        return "%s<.0" % show(t.a[0])
    if k == "rle":
        return "%s<=.0" % show(t.a[0])
    if k == "eq":
        return "%s==0" % show(t.a[0])
    if k == "not":
        return "!(%s)" % show(t.a[0])
    if k == "and":
        return "(" + " && ".join(show(x) for x in t.a) + ")"
    if k == "or":
        return "(" + " || ".join(show(x) for x in t.a) + ")"
    return k
