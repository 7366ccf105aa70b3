"""Properties over several calls: the calls of a script run one after another on
symbolic arguments (each function is executed from its extracted code, its loops
through their summaries), and the lemmas of the script are proved about the
values and the memory they leave.  Everything holds for all arguments."""
import os
import subprocess
import time

import build
import contracts
import engine as E
import prover
import terms as t
from engine import Engine, Obl, Ptr, PtrIte, Region, Cont, NULL, Unsupported, UndefV, psimp
from spec import Result
from terms import I, R, TRUE, FALSE, T, add, sub, mul, eq, ne, le, lt, and_, or_, not_, atom, as_atom, cval, lits


class Run:
    single = False              # the arrays compared hold single precision values
    def __init__(self, script, mod, res, want, arrayize):
        self.eng = eng = Engine(mod, contracts.C, script.fn)
        eng.opts = script.opts
        eng.arrayize = arrayize
        eng.want = want
        eng.where = "script"
        eng.ghosts = []
        self.mod, self.res, self.want = mod, res, want
        self.reals = {}

    # ---- symbolic arguments
    def int(self, name, lo=None, hi=None):
        v = t.var(name, "i")
        if lo is not None:
            self.eng.facts.append(le(I(lo), v))
        if hi is not None:
            self.eng.facts.append(le(v, I(hi)))
        return v

    def real(self, name):
        return t.var(name, "r")

    def assume(self, *fs):
        """preconditions of the caller"""
        self.eng.facts += list(fs)

    def assume_forall(self, f, *at):
        """a precondition on every index, used at the given ones and where loops stop"""
        self.eng.forall.append(f)
        self.assume(*[f(i) for i in at])

    def instantiate(self, *idx):
        """what is known of every iteration of a loop, at the given ones"""
        for k, lo, hi, g, y in self.eng.univ:
            for i in idx:
                self.eng.facts.append(t.implies(and_(g, le(lo, i), lt(i, hi)), t.subst(y, {k: i})))

    def status(self, v=0):
        r = Region("status", "cells", size=I(4))
        self.eng.mem[r] = {(0, 4): I(v) if isinstance(v, int) else v}
        self.eng.status_region = r
        return Ptr(r, I(0))

    def cell(self, p, size=4):
        return self.eng.mem[p.r][(int(cval(p.off)), size)]

    def string(self, name):
        """a zero-terminated string of any length"""
        n = t.var(name + ".len", "i")
        self.eng.facts.append(le(I(0), n))
        r = Region(name, "array", size=add(n, I(1)))
        r.esize, r.sort, r.dims = 1, "i", [add(n, I(1))]
        r.writable = False
        r.strlen = n
        self.eng.mem[r] = Cont(tag=(r, name))
        return Ptr(r, I(0))

    def ints(self, name, vals, size=8):
        """array of 64-bit integers"""
        r = Region(name, "cells", size=I(size * len(vals)))
        r.writable = False
        self.eng.mem[r] = {(k * size, size): v for k, v in enumerate(vals)}
        return Ptr(r, I(0))

    def buffer(self, name, nbytes, esize, sort="r"):
        r = Region(name, "array", size=nbytes)
        r.esize, r.sort = esize, sort
        self.eng.mem[r] = Cont(tag=(r, name))
        return Ptr(r, I(0))

    # ---- execution
    def call(self, fn, *args):
        eng = self.eng
        args = [I(a) if isinstance(a, int) else a for a in args]
        f = self.mod.funcs.get(fn)
        if f is None:
            raise Unsupported("function %s not found" % fn)
        r = eng.call_function(f, args, TRUE)
        eng.where = "after " + fn
        return r

    def prove(self, kind, what, goal, guard=TRUE):
        return self.eng.oblig(kind, goal, guard, what)

    def equal(self, kind, what, a, b, guard=TRUE):
        eng = self.eng
        if self.want is not None and kind not in self.want:
            return
        if isinstance(a, (Ptr, PtrIte)) or isinstance(b, (Ptr, PtrIte)):
            ok = self.sameptr(a, b, guard)
            eng.obls.append(Obl("%s|%s|%s|%s" % (eng.fname, kind, eng.where, what), kind, ok, 0.0, "", "normaliser",
                                None if ok else "code: %r\nspec: %r" % (a, b)))
            return
        if not isinstance(a, T):
            eng.obls.append(Obl("%s|%s|%s|%s" % (eng.fname, kind, eng.where, what), kind, False, 0.0, "", "normaliser",
                                "code: %r" % (a,)))
            return
        if a.s == "b":
            a = t.ite(a, I(1), I(0))
        if a.s == "r" or b.s == "r":
            from spec import prove_num
            t0 = time.time()
            q0 = prover.STATS["z3_queries"]
            ok = prove_num(eng, t.toreal(a) if a.s == "i" else a, t.toreal(b) if b.s == "i" else b,
                           eng.facts + list(lits(guard)), single=self.single)
            eng.obls.append(Obl("%s|%s|%s|%s" % (eng.fname, kind, eng.where, what), kind, ok, time.time() - t0, "",
                                "z3" if prover.STATS["z3_queries"] > q0 else "normaliser",
                                None if ok else "code: %s\nspec: %s" % (t.show(a)[:800], t.show(b)[:800])))
            return
        eng.oblig(kind, eq(a, b), guard, what)

    def sameptr(self, a, b, g):
        a, b = psimp(a, g), psimp(b, g)
        if isinstance(a, PtrIte):
            return all(self.eng.prove(FALSE, and_(g, c)) or self.sameptr(x, b, and_(g, c))
                       for x, c in ((a.a, a.c), (a.b, not_(a.c))))
        if isinstance(b, PtrIte):
            return self.sameptr(b, a, g)
        return isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r and (
            a.r is None or self.eng.prove(eq(a.off, b.off), g))

    def resolve(self, p, g=TRUE):
        """the pointer p is under g, as far as the facts tell"""
        p = psimp(p, g)
        if isinstance(p, PtrIte):
            if self.eng.prove(p.c, g):
                return self.resolve(p.a, g)
            if self.eng.prove(not_(p.c), g):
                return self.resolve(p.b, g)
            a, b = self.resolve(p.a, and_(g, p.c)), self.resolve(p.b, and_(g, not_(p.c)))
            return a if E.veq(a, b) else PtrIte(p.c, a, b)
        return p

    def released(self, what="every allocation is released exactly once", guard=TRUE):
        eng = self.eng
        for r, g in eng.heap:
            eng.oblig("leak", r.freed, and_(g, guard), "%s (%s)" % (what, r.name.split("!")[0]))

    def alive(self, p, what, guard=TRUE):
        p = psimp(p, guard)
        if isinstance(p, Ptr) and p.r is not None:
            self.eng.oblig("leak", not_(p.r.freed), guard, what)


class Script:
    evidence_kind = "lemma over a call sequence"
    exclude = ("C01", "C02", "C24")

    def __init__(self, fn, module, body, harness=None, opts=None, label=None, cost=5):
        self.fn, self.module, self.body, self.harness = fn, module, body, harness
        self.opts = opts or {}
        self.cost = cost
        if label:
            self.label = label

    def verify(self, want=None):
        res = Result(self)
        t0 = time.time()
        nm = self.fn + (":" + self.label if getattr(self, "label", None) else "")
        try:
            mod = build.module(self.module, exceptions=self.opts.get("exceptions"))
            arrayize = set()
            for _ in range(12):
                run = Run(self, mod, res, want, arrayize)
                run.eng.fname = nm
                try:
                    self.body(run)
                    break
                except E.Restart:
                    continue
            eng = run.eng
            res.obls += eng.obls
            res.assumed |= eng.assumed
            res.under |= eng.under
            res.called |= eng.called
            res.havocs += getattr(eng, "havocs", [])
            res.eng = eng
        except (Unsupported, build.ExtractError) as e:
            res.error = str(e)
            res.obls.append(Obl("%s|reach|%s" % (nm, e), "reach", False, 0.0, "", "extractor",
                                "the functions could not be brought under contract: %s" % e))
        res.wall = time.time() - t0
        return res

    def search(self, modes, seed, budget):
        """concrete search for a failing sequence, on the real code (address sanitizer)"""
        if not self.harness:
            return None, 0
        d = build.tmpdir()
        exe = os.path.join(d, "h_" + self.harness.replace(".", "_"))
        src = os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness", self.harness)
        if not os.path.exists(exe):
            objs = []
            libs = [os.path.join(build.SRC, x) for x in
                    ("utility/sdp_mem.cpp", "utility/sdp_device_wrapper.cpp", "utility/sdp_logging.c", "utility/sdp_sky_coord.c",
                     "utility/sdp_data_model_checks.c")]
            inc = ["-I" + build.REPO + "/src", "-I" + build.REPO, "-I" + build.REPO + "/_build/src"]
            for s in libs + [src]:
                o = os.path.join(d, os.path.basename(s) + ".h.o")
                cc = ["gcc"] if s.endswith(".c") else ["g++", "-std=c++11"]
                r = subprocess.run(cc + ["-O1", "-g", "-fopenmp", "-fsanitize=address", "-w", "-c", s, "-o", o] + inc,
                                   capture_output=True, text=True)
                if r.returncode:
                    raise Exception("compiling %s: %s" % (s, r.stderr[-400:]))
                objs.append(o)
            r = subprocess.run(["g++", "-fopenmp", "-fsanitize=address", "-o", exe] + objs + ["-lm", "-ldl"],
                               capture_output=True, text=True)
            if r.returncode:
                raise Exception("linking: %s" % r.stderr[-400:])
        n = 0
        t0 = time.time()
        while time.time() - t0 < budget and n < 40:
            env = dict(os.environ, ASAN_OPTIONS="detect_leaks=1:exitcode=99")
            try:
                r = subprocess.run([exe, str(seed * 1000 + n), self.fn], capture_output=True, text=True, timeout=60, env=env)
            except subprocess.TimeoutExpired:
                return dict(failure="the run does not end (seed %d)" % n, seed=n), n
            n += 1
            if "LeakSanitizer has encountered a fatal error" in r.stderr:   # no ptrace here
                env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99"
                r = subprocess.run([exe, str(seed * 1000 + n - 1), self.fn], capture_output=True, text=True, timeout=60, env=env)
            if r.returncode:
                lines = [l for l in (r.stdout + "\n" + r.stderr).splitlines() if "FAIL" in l or "ERROR" in l or "SUMMARY" in l]
                return dict(failure="; ".join(lines[:3])[:800] or "exit %d" % r.returncode, seed=seed * 1000 + n - 1,
                            harness=self.harness), n
        return None, n
