"""Schedule independence: shared variables written by a parallel loop.

Runs on the IR exactly as the front end emits it (before any pass), where every
variable of the source is still an alloca with the lifetime of its scope."""
import re
import ir


def _roots(fn):
    """alloca -> set of values that may be its address (flow-insensitive)"""
    defs = {}
    for b in fn.order:
        for i in fn.blocks[b].ins:
            if i.res is not None:
                defs[i.res] = i
    allocas = {n for n, i in defs.items() if i.op == "alloca"}
    holds = {a: set() for a in allocas}        # alloca -> roots whose address it may contain

    def base(v, seen=()):
        """roots the pointer value v may point into"""
        if v.k != "local" or v.v in seen:
            return set()
        n = v.v
        if n in allocas:
            return {n}
        i = defs.get(n)
        if i is None:
            return {("param", n)}
        s = seen + (n,)
        if i.op in ("getelementptr", "bitcast", "addrspacecast", "freeze"):
            return base(i.ops[0], s)
        if i.op == "select":
            return base(i.ops[1], s) | base(i.ops[2], s)
        if i.op == "phi":
            out = set()
            for x, _ in i.x:
                out |= base(x, s)
            return out
        if i.op == "load":
            out = set()
            for r in base(i.ops[0], s):
                out |= holds.get(r, set())
            return out
        return set()

    changed = True
    while changed:
        changed = False
        for b in fn.order:
            for i in fn.blocks[b].ins:
                if i.op == "store":
                    v = base(i.ops[0])
                    if v:
                        for r in base(i.ops[1]):
                            if r in holds and not v <= holds[r]:
                                holds[r] |= v
                                changed = True
    return allocas, base


class Writes:
    """which pointer parameters a function may write through"""

    def __init__(self, mod):
        self.mod = mod
        self.memo = {}

    def params(self, name):
        if name in self.memo:
            return self.memo[name]
        fn = self.mod.funcs.get(name)
        if fn is None or not fn.order:
            return None
        self.memo[name] = set()
        allocas, base = _roots(fn)
        names = [p.v if hasattr(p, "v") else p[1] if isinstance(p, tuple) else p for p in fn.params]
        out = set()
        for b in fn.order:
            for i in fn.blocks[b].ins:
                for r in written(i, base, self):
                    if isinstance(r, tuple) and r[1] in names:
                        out.add(names.index(r[1]))
        self.memo[name] = out
        return out


PURE = ("llvm.dbg", "llvm.lifetime", "llvm.assume", "llvm.experimental", "vdv_omp")
READS = ("sdp_mem_",)


def written(i, base, writes):
    if i.op in ("store",):
        return base(i.ops[1])
    if i.op in ("atomicrmw", "cmpxchg"):
        return base(i.ops[0])
    if i.op in ("call", "invoke"):
        cv = i.x["callee"]
        name = cv.v if cv.k == "global" else None
        if name and name.startswith(PURE):
            return set()
        if name and name.startswith(("llvm.memcpy", "llvm.memset", "llvm.memmove")):
            return base(i.ops[0])
        which = writes.params(name) if name else None
        out = set()
        for n, a in enumerate(i.ops):
            if a.ty is not None and a.ty.k == "ptr" and (which is None or n in which):
                out |= base(a)
        return out
    return set()


def loop_after(fn, blk, call):
    """(loop governed by the marker call in block blk, blocks between marker and loop)"""
    loops, inner, idx, rpo = ir.loops_of(fn)
    encl = set()
    l = inner.get(blk)
    while l is not None:
        encl.add(l.header)
        l = l.parent
    # the edge taken when the marker returns 0
    term = fn.blocks[blk].ins[-1]
    start = None
    if term.op == "br" and term.ops:
        cmp = next((j for j in fn.blocks[blk].ins if j.res is not None and j.res == term.ops[0].v), None)
        if cmp is not None and cmp.op == "icmp" and any(o.k == "local" and o.v == call.res for o in cmp.ops):
            start = term.x[1] if cmp.x == "ne" else term.x[0]
    if start is None:
        return None, []
    seen, todo, pre = {blk, start}, [start], []
    if start in loops and start not in encl:
        return loops[start], pre
    while todo:
        b = todo.pop(0)
        pre.append(b)
        for s in fn.blocks[b].succ:
            if s in seen:
                continue
            seen.add(s)
            if s in loops and s not in encl:
                return loops[s], pre
            todo.append(s)
        if len(pre) > 12:
            break
    return None, pre


def parallel_loops(fn, notes):
    """header -> (marker call, marker id, is an inner loop of a collapsed nest)"""
    if hasattr(fn, "_omp"):
        return fn._omp
    out, lost = {}, []
    for b in fn.order:
        for i in fn.blocks[b].ins:
            if i.op == "call" and i.x["callee"].k == "global" and i.x["callee"].v == "vdv_omp_for":
                ident = int(i.ops[0].v)
                loop, _ = loop_after(fn, b, i)
                if loop is None:
                    lost.append(ident)
                    continue
                out[loop.header] = (i, ident)
                n = notes[ident]["collapse"]
                while n > 1 and len(loop.children) == 1:
                    loop = loop.children[0]
                    out[loop.header] = (i, ident)
                    n -= 1
                if n > 1:
                    lost.append(ident)
    fn._omp = (out, lost)
    return fn._omp


def shared_writes(text, notes):
    """{(function, marker id): [variables shared between threads that the loop assigns]}"""
    mod = ir.Module(text, "raw")
    writes = Writes(mod)
    out = {}
    for fn in mod.funcs.values():
        marks = []
        for b in fn.order:
            for i in fn.blocks[b].ins:
                if i.op == "call" and i.x["callee"].k == "global" and i.x["callee"].v in ("vdv_omp_for", "vdv_omp_region"):
                    marks.append((b, i))
        if not marks:
            continue
        allocas, base = _roots(fn)
        for b, i in marks:
            ident = int(i.ops[0].v)
            n = notes[ident]
            res = out.setdefault(ident, set())
            if i.x["callee"].v == "vdv_omp_region":
                continue
            loop, pre = loop_after(fn, b, i)
            if loop is None:
                res.add("(the loop of the parallel directive was not found)")
                continue
            iv = set()
            for p in pre:
                for j in fn.blocks[p].ins:
                    if j.op == "store":
                        iv |= base(j.ops[1])
            private = set()
            scope = set(loop.blocks)
            # inside an enclosing parallel region, what the region declares is private too
            for b2 in fn.order:
                for j in fn.blocks[b2].ins:
                    if b2 in scope and j.op == "call" and j.x["callee"].k == "global" and \
                            j.x["callee"].v.startswith("llvm.lifetime.start"):
                        private |= base(j.ops[-1])
            okname = set(n["private"]) | set(n["reduction"])
            for b2 in loop.blocks:
                for j in fn.blocks[b2].ins:
                    for r in written(j, base, writes):
                        if isinstance(r, tuple) or r in private or r in iv:
                            continue
                        nm = r.lstrip("%").strip('"')
                        if nm.split(".")[0].rstrip("0123456789") in set(x.rstrip("0123456789") for x in okname):
                            continue
                        if ("." in nm and not nm.rstrip("0123456789").endswith(".addr")) or \
                                re.match(r"(retval|coerce|tmpcast)\d*$", nm):
                            continue        # temporaries of the front end
                        res.add(nm)
            for op in n["badred"]:
                res.add("(reduction operator %s)" % op)
    return {k: sorted(v) for k, v in out.items()}
