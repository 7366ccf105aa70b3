"""Concrete replay of a specification against the compiled real code.

Used only to turn a failed proof obligation into a failing input: inputs are
drawn from the specification's own accepted / rejected sets (Z3 picks shapes,
types and integer arguments; data is random plus constants taken from the
function's own code), the real function is run on them under the address
sanitizer, and the outputs are compared with the specification."""
import glob
import os
import pickle
import random
import re
import struct
import subprocess
import sys
import time
from fractions import Fraction
import numpy as np
import z3
import build
import evalt
import prover
import terms as t
import engine as E
import spec as S
from terms import I, and_, not_, eq, le, lt, implies, or_, lits, as_atom, cval, mul, ite, TRUE, FALSE

DT = {0: "i1", 1: "i1", 2: "i4", 4: "f4", 8: "f8", 36: "c8", 40: "c16"}
_lib = None


def library():
    """the whole library from the current tree, with the address sanitizer"""
    global _lib
    if _lib:
        return _lib
    d = os.path.join(build.tmpdir(), "asan")
    os.makedirs(d, exist_ok=True)
    srcs = sorted(glob.glob(build.SRC + "/**/*.cpp", recursive=True) + glob.glob(build.SRC + "/**/*.c", recursive=True))
    jobs, objs = [], []
    for s in srcs:
        o = os.path.join(d, s[len(build.SRC) + 1:].replace("/", "_") + ".o")
        objs.append(o)
        c = ["gcc", "-std=c99"] if s.endswith(".c") else ["g++", "-std=c++11"]
        jobs.append(c + ["-O1", "-g", "-fopenmp", "-fsanitize=address", "-fPIC", "-w", "-I" + build.REPO + "/src", "-I" + build.REPO,
                         "-c", s, "-o", o])
    procs = []
    fails = []

    def reap(n):
        while len(procs) > n:
            p, cmd = procs.pop(0)
            err = p.communicate()[1]
            if p.returncode:
                fails.append(err.decode()[-1500:])
    for cmd in jobs:
        procs.append((subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE), cmd))
        reap(7)
    reap(0)
    if fails:
        raise build.ExtractError("the library does not build: " + fails[0])
    so = os.path.join(d, "libreplay.so")
    r = subprocess.run(["g++", "-shared", "-fopenmp", "-fsanitize=address", "-o", so] + objs, capture_output=True,
                       text=True)
    if r.returncode:
        raise build.ExtractError("link: " + r.stderr[-1500:])
    _lib = so
    return so


def run_cases(cases, timeout=120):
    """[(result | ('crash', text))]"""
    so = library()
    d = build.tmpdir()
    pin = os.path.join(d, "cases%d.pkl" % os.getpid())
    pout = os.path.join(d, "res%d.pkl" % os.getpid())
    pickle.dump(cases, open(pin, "wb"))
    res = {}
    start = 0
    asan = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
    env = dict(os.environ, LD_PRELOAD=asan, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:"
               "allocator_may_return_null=1:max_allocation_size_mb=4000", OMP_NUM_THREADS="4", PYTHONHASHSEED="0")
    t0 = time.time()
    crashes = 0
    while start < len(cases) and crashes < 4 and time.time() - t0 < timeout:
        if os.path.exists(pout):
            os.remove(pout)
        err = ""
        try:
            p = subprocess.run(["/usr/bin/python3", os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "replay_child.py"), so, pin, pout, str(start)], env=env, capture_output=True, text=True,
                               timeout=max(20, timeout - (time.time() - t0)), errors="replace")
            err, rc = p.stderr, p.returncode
        except subprocess.TimeoutExpired:
            err, rc = "the call did not return in time", -1
        last = start - 1
        if os.path.exists(pout):
            with open(pout, "rb") as f:
                while True:
                    try:
                        i, r = pickle.load(f)
                    except (EOFError, pickle.UnpicklingError):
                        break
                    res[i] = r
                    last = i
        if rc == 0:
            break
        crashes += 1
        lines = [l for l in err.splitlines() if "|ERROR|" not in l]
        res[last + 1] = ("crash", "\n".join(lines[:40]))
        start = last + 2
    for f in (pin, pout):
        if os.path.exists(f):
            os.remove(f)
    return res


# --------------------------------------------------------------- generation
class Gen:
    def __init__(self, spec, sig, cases, varying, seed):
        self.spec, self.sig, self.cases = spec, sig, cases
        self.rng = random.Random(seed)
        self.eng, self.ctx, self.args = S.setup(spec, sig, varying)
        self.eng.ghosts = []
        self.base = list(self.eng.facts)
        self.valid, self.cc = S.auto_valid(spec, self.ctx, cases)
        self.consts = self.pool()

    def pool(self):
        """integer and real constants of the function's code and its specification"""
        ints, reals = set(), set()
        try:
            mod = self.eng.mod
            text = mod.text
            for m in re.finditer(r"icmp \w+ i(?:32|64) [^,\n]+, (-?\d+)", text):
                v = int(m.group(1))
                if 1 < v <= 4096:
                    ints |= {v - 1, v, v + 1}
            for m in re.finditer(r"\b(?:add|mul|sdiv|srem|and)\b[^,\n]* i(?:32|64) [^,\n]+, (-?\d+)", text):
                v = abs(int(m.group(1)))
                if 1 < v <= 1024:
                    ints |= {v, v + 1}
            for m in re.finditer(r"\bdouble (0x[0-9A-F]{16}|-?\d\.\d+e[+-]\d+)", text):
                s = m.group(1)
                v = struct.unpack(">d", bytes.fromhex(s[2:]))[0] if s.startswith("0x") else float(s)
                if v == v and abs(v) < 1e6:
                    reals.add(v)
        except OSError:
            pass
        return sorted(ints), sorted(reals)

    def solve(self, cond, big=False):
        """assignment of the scalar variables satisfying cond"""
        rng = self.rng
        spec, ctx = self.spec, self.ctx
        s = z3.Solver()
        s.set("timeout", 4000)
        s.set("random_seed", rng.randrange(1 << 20))
        facts = list(self.base) + [cond]
        pick = []
        cap = self.spec.gen_shape if getattr(spec, "gen_shape", None) else 4
        for a in spec.mems():
            m = ctx.mems[a.name]
            nd = 4 if not isinstance(a.ndims, int) else a.ndims + 1
            if not isinstance(a.ndims, int):
                facts += [le(m.ndims, I(3)), le(I(1), m.ndims)]
                prod = mul(m.shape(0), ite(le(I(2), m.ndims), m.shape(1), I(1)), ite(le(I(3), m.ndims), m.shape(2), I(1)))
                facts.append(eq(m.numel, prod))
                dims = [m.shape(k) for k in range(3)]
            else:
                facts.append(le(m.ndims, I(max(a.ndims + 1, 1))))
                dims = [m.shape(k) for k in range(nd)]
                num = I(1)
                for k, dd in enumerate(dims):
                    num = mul(num, ite(le(I(k + 1), m.ndims), dd, I(1)))
                facts.append(eq(m.numel, num))
            for d in dims:
                facts.append(le(d, I(5000 if big else 300)))
                facts.append(le(I(0), d))
            # real handles are C-contiguous by construction except where we stride the last axis
            facts.append(or_(m.contig, le(I(1), m.ndims)))
            facts.append(le(I(1), m.type))
            facts.append(le(I(0), m.ndims))
            pick.append(("dims", m, dims))
        for f in facts:
            if f is not TRUE:
                s.add(prover.z(f))
                for ax in prover.axioms(f):
                    s.add(ax)
        if s.check() != z3.sat:
            return None
        chosen = {}

        def fix(term, val):
            e = prover.z(eq(term, val)) if term.s != "b" else (prover.z(term) if val else z3.Not(prover.z(term)))
            s.push()
            s.add(e)
            if s.check() == z3.sat:
                return True
            s.pop()
            return False
        order = []
        for _, m, dims in pick:
            for d in dims:
                order.append(("dim", d))
            order.append(("contig", m.contig))
            order.append(("ro", m.ro))
            order.append(("loc", m.loc))
            order.append(("type", m.type))
            order.append(("ndims", m.ndims))
            if m.isnull is not FALSE:
                order.append(("null", m.isnull))
        for a in spec.args:
            if isinstance(a, S.Int):
                order.append(("int", ctx.vals[a.name]))
            elif isinstance(a, S.Real):
                order.append(("real", ctx.vals[a.name]))
            elif isinstance(a, S.IntOut):
                for k in range(a.n):
                    order.append(("cellr" if a.real else "cell", ctx.vals["%s%d" % (a.name, k)]))
        rng.shuffle(order)
        order.sort(key=lambda o: 0 if o[0] in ("ndims", "type") else 1)
        ints, reals = self.consts
        hints = getattr(spec, "hints", None) or {}
        bigleft = 1 if big else 0
        for kind, term in order:
            nm = term.a[0] if term.k == "bvar" else (as_atom(term).a[0] if as_atom(term) is not None else "?")
            h = hints.get(nm)
            tries = []
            if h is not None:
                tries = [h(rng) for _ in range(3)]
            elif kind == "dim":
                if bigleft and rng.random() < 0.5 and ints:
                    tries.append(rng.choice(ints))
                tries += [rng.randint(1, cap), rng.randint(1, cap), rng.choice([0, 1, 2, 3, 5, 7])]
            elif kind == "contig":
                tries = [True]
            elif kind in ("ro", "null"):
                tries = [rng.random() < 0.3]
            elif kind in ("int", "cell"):
                tries = [rng.randint(-3, 8), rng.randint(0, 20), rng.randint(1, 100)]
                if ints and rng.random() < 0.4:
                    tries.insert(0, rng.choice(ints))
            elif kind in ("real", "cellr"):
                tries = [rng.uniform(-3, 3), rng.uniform(0.1, 2), rng.uniform(1, 300), 10 ** rng.uniform(-4, 9)]
                rng.shuffle(tries)
                if reals and rng.random() < 0.3:
                    tries.insert(0, rng.choice(reals))
            for v in tries:
                if kind in ("contig", "ro", "null"):
                    ok = fix(term, v)
                elif term.s == "i":
                    ok = fix(term, I(int(v)))
                else:
                    ok = fix(term, t.R(Fraction(float(v))))
                if ok:
                    if kind == "dim" and int(v) > 8:
                        bigleft = 0
                    break
        if s.check() != z3.sat:
            return None
        mod = s.model()
        out = {}
        for kind, term in order:
            v = mod.eval(prover.z(term), model_completion=True)
            nm = term.a[0] if term.k == "bvar" else as_atom(term).a[0]
            if z3.is_bool(v):
                out[nm] = z3.is_true(v)
            elif z3.is_int_value(v):
                out[nm] = v.as_long()
            elif z3.is_rational_value(v):
                out[nm] = float(v.as_fraction())
            elif z3.is_algebraic_value(v):
                out[nm] = float(v.approx(20).as_fraction())
            else:
                return None
        return out

    def data(self, name, code, n, vals):
        rng = self.rng
        hints = getattr(self.spec, "hints", None) or {}
        h = hints.get(name)
        nr = np.random.RandomState(rng.randrange(1 << 30))
        dt = DT.get(code, "i1")
        style = rng.random()
        if dt == "i1":
            x = nr.randint(0, 2, n)
        elif dt == "i4":
            x = nr.randint(0, 6, n) if style < 0.6 else nr.randint(-3, 60, n)
        else:
            def one():
                if style < 0.35:
                    return nr.standard_normal(n) * 10 ** rng.uniform(-1, 2)
                if style < 0.6:
                    return nr.uniform(0, 2, n)
                if style < 0.8:
                    return nr.randint(-4, 5, n).astype(float)
                pool = np.array([0.0, 1.0, -1.0, 0.5, 2.0] + [v for v in self.consts[1] if abs(v) < 1e4])
                y = nr.standard_normal(n)
                k = nr.rand(n) < 0.5
                y[k] = pool[nr.randint(0, len(pool), n)][k]
                return y
            x = one() + 1j * one() if dt[0] == "c" else one()
        if h is not None:
            x = h(rng, nr, n, vals)
        return np.ascontiguousarray(np.asarray(x).astype(dt))

    def case(self, vals, status0):
        """concrete call from an assignment"""
        spec, ctx = self.spec, self.ctx
        args, arrs = [], {}
        for a in spec.args:
            if isinstance(a, S.M):
                m = ctx.mems[a.name]
                nm = a.name
                nd = max(vals[nm + ".ndims"], 0)
                shape = [max(vals.get("%s.shape%d" % (nm, k), 1), 0) for k in range(nd)]
                code = vals[nm + ".type"]
                n = int(np.prod(shape)) if nd else 0
                if n > 3000000:
                    return None
                x = self.data(nm, code, n, vals).reshape(shape if nd else (0,))
                arrs[nm] = x
                isz = x.dtype.itemsize
                strided = not vals[nm + ".contig"]
                if strided and nd >= 1:
                    stride = [0] * nd
                    st = 2 * isz
                    for k in range(nd - 1, -1, -1):
                        stride[k] = st
                        st *= max(shape[k], 1)
                    raw = np.zeros(n * 2, dtype=x.dtype)
                    raw[::2] = x.reshape(-1)
                    b = raw.tobytes()
                else:
                    stride = []
                    st = isz
                    for k in range(nd - 1, -1, -1):
                        stride.insert(0, st)
                        st *= shape[k]
                    b = x.tobytes()
                args.append(dict(kind="mem", name=nm, type=code, loc=vals[nm + ".loc"], ndims=nd, shape=shape,
                                 stride=stride, data=b, ro=vals[nm + ".readonly"], null=vals.get(nm + ".isnull", False),
                                 strided=strided))
            elif isinstance(a, S.Sky):
                c = [self.rng.uniform(-3.2, 3.2), self.rng.uniform(-1.6, 1.6), self.rng.choice([0.0, self.rng.uniform(0, 2)])]
                if self.rng.random() < 0.2:
                    c[0] = self.rng.choice([0.0, 3.141592653589793, -3.0, 6.1])
                if self.rng.random() < 0.2:
                    c[1] = self.rng.choice([0.0, 1.5707963, -1.5, 0.7])
                for k in range(3):
                    vals["%s.c%d" % (a.name, k)] = c[k]
                args.append(dict(kind="sky", c=c, name=a.name))
            elif isinstance(a, S.Int):
                args.append(dict(kind="int", v=vals[a.name], name=a.name))
            elif isinstance(a, S.Real):
                args.append(dict(kind="real", v=vals[a.name], name=a.name))
            elif isinstance(a, S.Const):
                cv = a.v
                if cv is E.NULL:
                    args.append(dict(kind="null"))
                else:
                    q = cval(cv)
                    args.append(dict(kind="int", v=int(q)) if cv.s == "i" else dict(kind="real", v=float(q)))
            elif isinstance(a, S.IntOut):
                fmt = ("d" if a.size == 8 else "f") if a.real else ("q" if a.size == 8 else "i")
                b = struct.pack("<%d%s" % (a.n, fmt), *[vals["%s%d" % (a.name, k)] for k in range(a.n)])
                args.append(dict(kind="cells", name=a.name, data=b, fmt=fmt, n=a.n))
            elif isinstance(a, S.Status):
                args.append(dict(kind="status", v=status0))
        vals["status0"] = status0
        ret = None
        if spec.ret is not None:
            ret = self.rettype(spec.fn)
        chain = None
        names = [a.name for a in spec.args]
        if spec.chain:
            chain = [(f, [int(x[1:]) if x[0] == "$" else names[:].index(x) + 1000 for x in an], self.rettype(f))
                     for f, an in spec.chain]
        for f, an in spec.chain or [(spec.fn, names)]:
            for (ty, _), x in zip(self.eng.mod.funcs[f].params, an):
                if x in names and getattr(ty, "k", None) == "fp" and ty.a[0] == "float":
                    q = args[names.index(x)]
                    if q["kind"] == "real":
                        q["kind"] = "real4"
                        q["v"] = vals[x] = float(np.float32(q["v"]))
        return dict(fn=spec.fn, args=args, ret=ret, chain=chain), arrs

    def rettype(self, fn):
        mt = re.search(r"^define [^@\n]*?(double|float|i64|i32|ptr|void) @%s\(" % fn, self.eng.mod.text, re.M)
        return {"double": "real", "float": "real4", "i64": "int64", "i32": "int", "ptr": "ptr", "void": None}[mt.group(1)]

    def env(self, vals, arrs):
        sels = {}
        vals = dict(vals)
        for a in self.spec.mems():
            x = arrs.get(a.name)
            if x is None:
                continue
            m = self.ctx.mems[a.name]
            n = as_atom(m.numel)
            if n is not None and n.k == "var":
                vals.setdefault(n.a[0], int(x.size))
            flat = not isinstance(a.ndims, int)
            if flat:
                x = x.reshape(-1)
            cplx = self.sig[a.name]

            def f(*idx, x=x, cplx=cplx, nm=a.name):
                if cplx:
                    c = idx[-1]
                    idx = idx[:-1]
                if any(i < 0 or i >= d for i, d in zip(idx, x.shape)) or len(idx) != x.ndim:
                    raise evalt.Cannot("index %r outside %s%r" % (idx, nm, x.shape))
                v = x[tuple(int(i) for i in idx)]
                if cplx:
                    v = v.real if c == 0 else v.imag
                return float(v) if x.dtype.kind in "fc" else int(v)
            sels[self.ctx.mems[a.name].init_tag] = f
        return evalt.Env(vals, sels)


def describe(case, limit=40):
    out = []
    for a in case["args"]:
        a = dict(a)
        if "data" in a:
            b = a.pop("data")
            dt = DT.get(a.get("type"), "u1") if a["kind"] == "mem" else "u1"
            if a["kind"] == "mem":
                x = np.frombuffer(b, dtype=dt)
                a["values"] = [repr(v) for v in x[:limit].tolist()] + (["... %d in all" % x.size] if x.size > limit else [])
            else:
                a["bytes"] = b.hex()
        out.append(a)
    return {"function": case["fn"], "arguments": out, **({"calls": case["chain"]} if case.get("chain") else {})}


def illposed(env, ex, cplx, idx, e, d, single):
    """the difference is what rounding the angles and roots of the formula can make"""
    env.vars.update({"g%d" % k: int(i) for k, i in enumerate(idx)})
    far = 0.0
    try:
        for s in (1, -1):
            evalt.JITTER = 1.0 + s * (1e-6 if single else 1e-13)
            far = max(far, abs((complex(evalt.ev(ex[0], env), evalt.ev(ex[1], env)) if cplx else evalt.ev(ex, env)) - e))
    finally:
        evalt.JITTER = 1.0
    return far >= 0.1 * d


def compare(gen, lab, casec, vals, arrs, case, r, sample=1500):
    """None, or a description of the disagreement, for an accepted call"""
    spec, ctx = gen.spec, gen.ctx
    if spec.status and r["status"] not in (None, 0):
        return "valid input is rejected with status %d" % r["status"]
    env = gen.env(vals, arrs)
    codes = [a.get("type") for a in case["args"] if a["kind"] == "mem"]
    single = any(c in (4, 36) for c in codes)
    tol = 1e-3 if single else 1e-7
    tol = spec.opts.get("tol", tol)
    rng = gen.rng
    for name, outf in spec.outs.items():
        if name not in ctx.mems or vals.get(name + ".isnull"):
            continue
        m = ctx.mems[name]
        a = next(x for x in case["args"] if x.get("name") == name)
        n = len(m.dimlist())
        gi = [t.ivar("g%d" % k) for k in range(n)]
        ex = outf(ctx, lab, *gi)
        if ex is None:
            continue
        got = np.frombuffer(r["mems"][name], dtype=DT[a["type"]])
        if a["strided"]:
            got = got[::2]
        shape = list(arrs[name].shape)
        if not isinstance(next(q for q in spec.mems() if q.name == name).ndims, int):
            shape = [got.size]
        got = got.reshape(shape)
        idxs = list(np.ndindex(*shape))
        if len(idxs) > sample:
            idxs = idxs[:100] + idxs[-100:] + rng.sample(idxs, sample - 200)
        exps, gots = [], []
        sp_ = getattr(spec, "split", {}).get(name)
        if sp_ and getattr(sp_, "partial", False):      # the property speaks of these elements only
            conds = sp_(ctx, *gi)
            keep = []
            for idx in idxs:
                env.vars.update({"g%d" % k: int(i) for k, i in enumerate(idx)})
                if any(evalt.ev(q, env) for q in conds):
                    keep.append(idx)
            idxs = keep
        for idx in idxs:
            env.vars.update({"g%d" % k: int(i) for k, i in enumerate(idx)})
            if gen.sig[name]:
                e = complex(evalt.ev(ex[0], env), evalt.ev(ex[1], env))
            else:
                e = evalt.ev(ex, env)
            exps.append(e)
            gots.append(got[idx])
        if not idxs:
            continue
        ea = np.array(exps, dtype=complex)
        ga = np.array(gots).astype(complex)
        fin = np.isfinite(ea)
        if not fin.any():
            continue
        mag = np.abs(ea[fin]).max()
        if mag > 1e30:
            continue
        sc = max(mag, 1e-30)
        d = np.abs(ea - ga)
        d[~np.isfinite(ga)] = np.inf
        if got.dtype.kind == "i":
            lim = 0.5
        else:
            lim = tol * max(sc, spec.opts.get("scale", 0))
        badi = [k for k in range(len(idxs)) if fin[k] and not d[k] <= lim]
        if got.dtype.kind != "i":
            badi = [k for k in badi if not illposed(env, ex, gen.sig[name], idxs[k], exps[k], d[k], single)]
        if badi:
            k = badi[0]
            return "%s%r: got %r, the property requires %r (%d of %d elements checked differ)" % (
                name, list(map(int, idxs[k])), gots[k], exps[k], len(badi), len(idxs))
    for name, outf in spec.cells.items():
        exp = outf(ctx, lab)
        if exp is None:
            continue
        exp = exp if isinstance(exp, (list, tuple)) else [exp]
        a = next(x for x in case["args"] if x.get("name") == name)
        got = struct.unpack("<%d%s" % (a["n"], a["fmt"]), r["cells"][name])
        for k, ex in enumerate(exp):
            e = evalt.ev(ex, env)
            if e != e or abs(e) > 1e30:
                continue
            if not abs(e - got[k]) <= (tol * max(abs(e), 1.0) if a["fmt"] in "df" else 0):
                return "%s[%d]: got %r, the property requires %r" % (name, k, got[k], e)
    if spec.ret is not None:
        ex = spec.ret(ctx, lab)
        if ex is not None:
            e = evalt.ev(ex, env)
            if e == e and abs(e) < 1e30 and not abs(e - r["ret"]) <= (tol * max(abs(e), 1) if ex.s == "r" else 0):
                return "returned %r, the property requires %r" % (r["ret"], e)
    return None


def search(spec, kinds, seed=1, budget=150, rounds=12, ncases=40):
    """kinds: which modes to try ('accept', 'reject', 'sticky').
    Returns (failure dict | None, number of calls run)."""
    t0 = time.time()
    total = 0
    for rd in range(rounds):
        for sig, cases, varying in S.signatures(spec):
            if time.time() - t0 > budget:
                return None, total
            gen = Gen(spec, sig, cases, varying, "%s/%d/%d/%s" % (spec.fn, seed, rd, sorted(sig.items())))
            f, n = batch(gen, kinds, ncases, rd, max(10, budget - (time.time() - t0)))
            total += n
            if f:
                return f, total
    return None, total


def batch(gen, kinds, ncases, rd, tleft):
    spec, ctx = gen.spec, gen.ctx
    plan = []
    rng = gen.rng
    vl = [x for x in lits(gen.valid)] + ([gen.cc] if gen.cc is not TRUE else [])
    t0 = time.time()
    modes = [k for k in kinds]
    stat = any(isinstance(a, S.Status) for a in spec.args)
    i = 0
    while len(plan) < ncases and i < 3 * ncases and time.time() - t0 < min(30, tleft / 2):
        i += 1
        mode = rng.choice(modes)
        if mode != "accept" and not stat or mode == "accept" and not gen.cases:
            continue
        lab, c = rng.choice(gen.cases) if gen.cases else ("", {})
        cond = and_(gen.valid, S.case_cond(ctx, c))
        if spec.pre:
            cond = and_(cond, *[p for p in spec.pre(ctx) if not has_sel(p)])
        st0 = 0
        neg = None
        if mode == "reject":
            if rng.random() < 0.1 and gen.cases:
                # a valid call, except that every array is on a device this build does not support
                vals = gen.solve(cond)
                if vals is None:
                    continue
                for nm in list(vals):
                    if nm.endswith(".loc"):
                        vals[nm] = 1
                cs = gen.case(vals, 0)
                if cs is not None:
                    plan.append((mode, lab, c, vals, cs[1], cs[0], TRUE))
                continue
            neg = rng.choice(vl)
            rest = [x for x in vl if x is not neg]
            # keep the other requirements when possible
            vals = gen.solve(and_(not_(neg), *rest)) or gen.solve(not_(neg))
        else:
            if mode == "sticky":
                st0 = rng.randint(1, 6)
            vals = gen.solve(cond, big=rng.random() < 0.35)
        if vals is None:
            continue
        cs = gen.case(vals, st0)
        if cs is None:
            continue
        case, arrs = cs
        if spec.pre and mode == "accept":
            try:
                env = gen.env(vals, arrs)
                if not all(evalt.ev(p, env) for p in spec.pre(ctx)):
                    continue
            except evalt.Cannot:
                pass
        plan.append((mode, lab, c, vals, arrs, case, neg))
    if not plan:
        return None, 0
    res = run_cases([p[5] for p in plan], timeout=min(120, max(20, tleft)))
    for k, (mode, lab, c, vals, arrs, case, neg) in enumerate(plan):
        r = res.get(k)
        if r is None:
            continue
        why = None
        if isinstance(r, tuple):
            why = "the call crashes or is caught by the address sanitizer:\n" + r[1]
        elif mode == "accept":
            try:
                why = compare(gen, lab, c, vals, arrs, case, r)
            except evalt.Cannot as e:
                why = None
        else:
            if mode == "reject" and r["status"] == 0 and spec.exact and neg is not TRUE:
                why = "input is accepted although it violates: %s" % t.show(neg)[:300]
            if mode == "sticky" and r["status"] != case_status(case):
                why = "an error status %d set before the call becomes %d" % (case_status(case), r["status"])
            if why is None and r["status"] != 0 and spec.reject_frame:
                for a in case["args"]:
                    if a["kind"] == "mem" and not a.get("null") and a["name"] not in spec.unchanged_ok \
                            and r["mems"][a["name"]] != a["data"]:
                        why = "the call fails with status %d but changes %s" % (r["status"], a["name"])
        if why:
            return {"mode": mode, "case": lab, "call": describe(case), "failure": why}, k + 1
    return None, len(plan)


def case_status(case):
    return next(a["v"] for a in case["args"] if a["kind"] == "status")


def has_sel(x, seen=None):
    stack = [x]
    seen = set()
    while stack:
        y = stack.pop()
        if y in seen:
            continue
        seen.add(y)
        if isinstance(y, t.T):
            if y.k in ("sel", "forall", "sum", "prod"):
                return True
            for z_ in y.a:
                if isinstance(z_, t.T):
                    stack.append(z_)
                elif isinstance(z_, tuple):
                    stack.extend(w for w in flat(z_))
    return False


def flat(x):
    for y in x:
        if isinstance(y, t.T):
            yield y
        elif isinstance(y, tuple):
            yield from flat(y)


if __name__ == "__main__":
    import importlib
    sys.setrecursionlimit(20000)
    modn = importlib.import_module("specs." + sys.argv[1])
    for sp in modn.SPECS:
        if len(sys.argv) > 2 and not any(w in sp.fn for w in sys.argv[2:]):
            continue
        t0 = time.time()
        build.module(sp.module, exceptions=sp.opts.get("exceptions"))
        f, n = search(sp, ["accept", "reject", "sticky"], budget=60, rounds=2)
        print(sp.fn, n, "calls", "%.1fs" % (time.time() - t0), "OK" if not f else f["mode"] + " " + f["case"] + ": " + f["failure"][:1500])
        if f and os.environ.get("CALL"):
            print(str(f["call"])[:3000])
