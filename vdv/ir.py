"""Parser for the textual LLVM IR (LLVM 18, opaque pointers) of one translation unit."""
import re
import struct
from fractions import Fraction


class Ty:
    __slots__ = ("k", "a")

    def __init__(self, k, *a):
        self.k, self.a = k, a

    def __eq__(self, o):
        return self is o or (isinstance(o, Ty) and self.k == o.k and self.a == o.a)

    def __hash__(self):
        return hash((self.k, str(self.a)))

    def __repr__(self):
        return "%s%s" % (self.k, self.a if self.a else "")


class Val:
    """operand: kind in local, global, int, fp, null, undef, zero, agg, gep, cast, bool"""
    __slots__ = ("k", "v", "ty", "x")

    def __init__(self, k, v, ty=None, x=None):
        self.k, self.v, self.ty, self.x = k, v, ty, x

    def __repr__(self):
        return "%s:%s" % (self.k, self.v)


class Ins:
    __slots__ = ("op", "res", "ty", "ops", "x", "line", "fn")

    def __init__(self, op, res=None, ty=None, ops=(), x=None):
        self.op, self.res, self.ty, self.ops, self.x = op, res, ty, ops, x
        self.line = None
        self.fn = None

    def __repr__(self):
        return "%s = %s %s %s" % (self.res, self.op, self.ops, self.x)


class Block:
    def __init__(self, name):
        self.name = name
        self.ins = []
        self.succ = []
        self.pred = []


class Func:
    def __init__(self, name, rty, params, vararg=False):
        self.name, self.rty, self.params = name, rty, params  # params [(ty, name)]
        self.blocks = {}
        self.order = []
        self.linkage = ""
        self.line = None


TOK = re.compile(r'''\s*(?:
  (?P<str>c?"(?:[^"\\]|\\.)*")
 |(?P<local>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 |(?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 |(?P<md>![-a-zA-Z$._0-9]*)
 |(?P<attr>\#[0-9]+)
 |(?P<hex>0x[KMLHR]?[0-9A-Fa-f]+)
 |(?P<num>-?[0-9]+(?:\.[0-9]*(?:[eE][-+]?[0-9]+)?)?)
 |(?P<word>[a-zA-Z_$][-a-zA-Z$._0-9]*)
 |(?P<p>\.\.\.|[][(){}<>,=*:|])
)''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m or m.end() == i:
            if s[i:].strip() == "" or s[i:].lstrip().startswith(";"):
                break
            raise Exception("tokenize: %r" % s[i:i + 60])
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
        if s[i:i + 2].lstrip().startswith(";"):
            break
    return out


PARAM_ATTRS = set("""noundef nonnull noalias nocapture readonly writeonly readnone signext zeroext inreg returned
immarg noreturn nounwind nofree swiftself allocptr allocalign writable dead_on_unwind mustprogress inbounds
nsw nuw exact fast nnan ninf nsz arcp contract afn reassoc disjoint nneg samesign volatile weak tail musttail notail
dso_local local_unnamed_addr unnamed_addr internal private linkonce_odr linkonce weak_odr external hidden protected
available_externally default comdat common appending constant global thread_local externally_initialized fastcc ccc coldcc noext""".split())


class P:
    def __init__(self, mod, toks):
        self.m, self.t, self.i = mod, toks, 0

    def peek(self, d=0):
        return self.t[self.i + d] if self.i + d < len(self.t) else (None, None)

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise Exception("expected %r at %r in %r" % (v, self.t[self.i:self.i + 6], [x[1] for x in self.t]))

    def ty(self):
        k, v = self.next()
        if k == "word":
            if re.match(r"i\d+$", v):
                t = Ty("int", int(v[1:]))
            elif v in ("double", "float", "half", "x86_fp80", "fp128"):
                t = Ty("fp", v)
            elif v in ("ptr", "void", "label", "metadata", "token", "opaque"):
                t = Ty(v)
            else:
                raise Exception("type %r in %r" % (v, [x[1] for x in self.t]))
        elif k == "local":
            t = Ty("named", v[1:].strip('"'))
        elif v == "[":
            n = int(self.next()[1])
            self.expect("x")
            e = self.ty()
            self.expect("]")
            t = Ty("array", n, e)
        elif v == "<":
            if self.accept("{"):
                fs = self.tylist("}")
                self.expect(">")
                t = Ty("struct", True, tuple(fs))
            else:
                n = int(self.next()[1])
                self.expect("x")
                e = self.ty()
                self.expect(">")
                t = Ty("vec", n, e)
        elif v == "{":
            t = Ty("struct", False, tuple(self.tylist("}")))
        else:
            raise Exception("type at %r in %r" % (v, [x[1] for x in self.t]))
        # function type?
        if self.peek()[1] == "(" and t.k in ("void", "int", "ptr", "fp", "struct", "named"):
            # only in call signatures
            save = self.i
            self.next()
            try:
                args = []
                while not self.accept(")"):
                    if self.accept("..."):
                        continue
                    args.append(self.ty())
                    self.accept(",")
                return Ty("fn", t, tuple(args))
            except Exception:
                self.i = save
        return t

    def tylist(self, end):
        out = []
        while not self.accept(end):
            out.append(self.ty())
            self.accept(",")
        return out

    def skip_attrs(self):
        while True:
            k, v = self.peek()
            if k == "word" and v in ("align", ):
                self.next()
                if self.accept("("):
                    self.next()
                    self.expect(")")
                else:
                    self.next()
                continue
            if k == "word" and v in ("dereferenceable", "dereferenceable_or_null", "sret", "byval", "elementtype",
                                     "range", "memory", "captures", "initializes", "allocsize", "nofpclass",
                                     "inalloca", "preallocated", "addrspace"):
                self.next()
                if self.accept("("):
                    d = 1
                    while d:
                        v = self.next()[1]
                        d += (v == "(") - (v == ")")
                continue
            if k == "word" and v in PARAM_ATTRS:
                self.next()
                continue
            if k == "attr":
                self.next()
                continue
            break

    def val(self, ty):
        k, v = self.next()
        if k == "local":
            return Val("local", v[1:].strip('"'), ty)
        if k == "glob":
            return Val("global", v[1:].strip('"'), ty)
        if k == "num":
            if ty.k == "fp":
                return Val("fp", Fraction(float(v)), ty)
            return Val("int", int(v), ty)
        if k == "hex":
            if v.startswith("0xK") or v.startswith("0xM") or v.startswith("0xL"):
                return Val("fp", None, ty)
            d = struct.unpack(">d", bytes.fromhex(v[2:].rjust(16, "0")))[0]
            if d != d or d in (float("inf"), float("-inf")):
                return Val("fpspecial", d, ty)
            return Val("fp", Fraction(d), ty)
        if k == "word":
            if v == "true":
                return Val("bool", True, ty)
            if v == "false":
                return Val("bool", False, ty)
            if v in ("null",):
                return Val("null", None, ty)
            if v in ("undef", "poison"):
                return Val("undef", None, ty)
            if v == "zeroinitializer":
                return Val("zero", None, ty)
            if v == "getelementptr":
                self.skip_attrs()
                self.expect("(")
                self.skip_attrs()
                sty = self.ty()
                self.expect(",")
                ops = []
                while True:
                    self.skip_attrs()
                    ot = self.ty()
                    ops.append(self.val(ot))
                    if not self.accept(","):
                        break
                self.expect(")")
                return Val("gep", ops, ty, sty)
            if v in ("bitcast", "ptrtoint", "inttoptr", "addrspacecast", "trunc", "zext", "sext"):
                self.expect("(")
                ot = self.ty()
                o = self.val(ot)
                self.expect("to")
                tt = self.ty()
                self.expect(")")
                return Val("cast", o, tt, v)
            if v in ("sub", "add", "mul"):
                self.skip_attrs()
                self.expect("(")
                t1 = self.ty()
                a = self.val(t1)
                self.expect(",")
                t2 = self.ty()
                b = self.val(t2)
                self.expect(")")
                return Val("cbin", (v, a, b), ty)
            if v == "dso_local_equivalent":
                return self.val(ty)
            if v in ("blockaddress", "asm"):
                raise Exception("unsupported constant " + v)
        if k == "str":
            return Val("cstr", v, ty)
        if v in ("[", "{", "<"):
            end = {"[": "]", "{": "}", "<": ">"}[v]
            packed = False
            if v == "<" and self.accept("{"):
                end = "}"
                packed = True
            items = []
            while not self.accept(end):
                et = self.ty()
                items.append(self.val(et))
                self.accept(",")
            if packed:
                self.expect(">")
            return Val("agg", items, ty)
        raise Exception("value %r %r in %r" % (k, v, [x[1] for x in self.t]))

    def tv(self):
        ty = self.ty()
        if ty.k == "metadata":
            # metadata operand: skip
            d = 0
            while self.i < len(self.t):
                v = self.peek()[1]
                if d == 0 and v in (",", ")"):
                    break
                d += (v in "([{") - (v in ")]}")
                self.next()
            return Val("undef", None, ty)
        self.skip_attrs()
        return self.val(ty)


class Module:
    def __init__(self, text, name=""):
        self.name = name
        self.text = text
        self.types = {}
        self.globals = {}   # name -> (ty, init Val or None, const?)
        self.funcs = {}
        self.decls = {}
        self.md = {}
        self.parse(text)

    def parse(self, text):
        lines = text.split("\n")
        i = 0
        cur = None
        blk = None
        while i < len(lines):
            ln = lines[i]
            i += 1
            if not ln.strip() or ln.startswith(";"):
                continue
            if cur is None:
                if ln.startswith("%"):
                    m = re.match(r'%("(?:[^"\\]|\\.)*"|[-\w$.]+) = type (.*)$', ln)
                    nm = m.group(1).strip('"')
                    body = m.group(2)
                    if body.strip() == "opaque":
                        self.types[nm] = None
                    else:
                        self.types[nm] = P(self, tokenize(body)).ty()
                elif ln.startswith("@"):
                    self.parse_global(ln)
                elif ln.startswith("define"):
                    cur = self.parse_define(ln)
                    blk = None
                elif ln.startswith("declare"):
                    m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w$.]+)\(', ln)
                    if m:
                        self.decls[m.group(1).strip('"')] = ln
                elif ln.startswith("!"):
                    self.parse_md(ln)
                continue
            if ln.startswith("}"):
                self.finish(cur)
                cur = None
                continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-\w$.]+):', ln)
            if m:
                nm = m.group(1).strip('"')
                blk = Block(nm)
                cur.blocks[nm] = blk
                cur.order.append(nm)
                continue
            if blk is None:
                nm = cur.entryname
                blk = Block(nm)
                cur.blocks[nm] = blk
                cur.order.append(nm)
            s = ln.strip()
            if s.startswith("switch") or (" switch " in s and "= switch" in s):
                while "]" not in s:
                    s += " " + lines[i].strip()
                    i += 1
            if s.startswith("invoke") or " = invoke " in s:
                s += " " + lines[i].strip()
                i += 1
            if "landingpad" in s:
                while i < len(lines) and re.match(r"\s+(cleanup|catch|filter)", lines[i]):
                    i += 1
            ins = self.parse_ins(s)
            if ins is not None:
                blk.ins.append(ins)

    def parse_md(self, ln):
        m = re.match(r"!(\d+) = (?:distinct )?!?(\w*)\((.*)\)\s*$", ln)
        if m:
            self.md[int(m.group(1))] = (m.group(2), m.group(3))

    def loc(self, n):
        """(line, funcname) of DILocation n, outermost user location kept simple"""
        x = self.md.get(n)
        if not x or x[0] != "DILocation":
            return None, None
        m = re.search(r"line: (\d+)", x[1])
        sc = re.search(r"scope: !(\d+)", x[1])
        inl = re.search(r"inlinedAt: !(\d+)", x[1])
        return (int(m.group(1)) if m else None, int(sc.group(1)) if sc else None, int(inl.group(1)) if inl else None)

    def scope_file(self, sc):
        """name of subprogram and file of scope node"""
        while sc is not None:
            x = self.md.get(sc)
            if not x:
                return None, None
            if x[0] == "DISubprogram":
                nm = re.search(r'name: "([^"]*)"', x[1])
                f = re.search(r"file: !(\d+)", x[1])
                fn = None
                if f and int(f.group(1)) in self.md:
                    g = re.search(r'filename: "([^"]*)"', self.md[int(f.group(1))][1])
                    fn = g.group(1) if g else None
                return (nm.group(1) if nm else None), fn
            s2 = re.search(r"scope: !(\d+)", x[1])
            sc = int(s2.group(1)) if s2 else None
        return None, None

    def where(self, ins):
        """human location string file:line"""
        if ins.line is None:
            return "?"
        n = ins.line
        best = None
        for _ in range(30):
            l = self.loc(n)
            if l[0] is None:
                break
            nm, fn = self.scope_file(l[1])
            if fn and "ska-sdp-func" in fn:
                best = (fn.split("ska-sdp-func/")[-1], l[0])
                break
            best = best or ((fn or "?").split("/")[-1], l[0])
            if l[2] is None:
                break
            n = l[2]
        return "%s:%s" % best if best else "?"

    def parse_global(self, ln):
        m = re.match(r'@("(?:[^"\\]|\\.)*"|[-\w$.]+) = (.*)$', ln)
        nm = m.group(1).strip('"')
        rest = m.group(2)
        const = " constant " in " " + rest
        mm = re.search(r"\b(constant|global)\b (.*)$", rest)
        if not mm:
            return
        try:
            p = P(self, tokenize(re.sub(r", (align|comdat|section|!dbg).*$", "", mm.group(2))))
            ty = p.ty()
            init = None
            if p.i < len(p.t) and p.peek()[1] not in (",",):
                init = p.val(ty)
            self.globals[nm] = (ty, init, const)
        except Exception:
            self.globals[nm] = (None, None, const)

    def parse_define(self, ln):
        m = re.match(r'define (.*?)@("(?:[^"\\]|\\.)*"|[-\w$.]+)\((.*)$', ln)
        name = m.group(2).strip('"')
        pre = P(self, tokenize(m.group(1)))
        pre.skip_attrs()
        rty = pre.ty()
        rest = m.group(3)
        # find the matching paren
        d = 1
        j = 0
        while d:
            c = rest[j]
            d += (c == "(") - (c == ")")
            j += 1
        ptoks = tokenize(rest[:j - 1])
        p = P(self, ptoks)
        params = []
        n = 0
        while p.i < len(p.t):
            if p.accept("..."):
                continue
            ty = p.ty()
            p.skip_attrs()
            if p.peek()[0] == "local":
                pn = p.next()[1][1:].strip('"')
            else:
                pn = str(n)
            params.append((ty, pn))
            n += 1
            p.accept(",")
        f = Func(name, rty, params)
        f.entryname = str(len(params))
        f.linkage = m.group(1)
        mm = re.search(r"!dbg !(\d+)", rest[j:])
        f.dbg = int(mm.group(1)) if mm else None
        self.funcs[name] = f
        return f

    def finish(self, f):
        for b in f.blocks.values():
            t = b.ins[-1]
            if t.op == "br":
                b.succ = list(t.x)
            elif t.op == "switch":
                b.succ = [t.x[0]] + [c[1] for c in t.x[1]]
            elif t.op == "invoke":
                b.succ = list(t.x["succ"])
        for b in f.blocks.values():
            for s in b.succ:
                if b.name not in f.blocks[s].pred:
                    f.blocks[s].pred.append(b.name)

    def parse_ins(self, s):
        line = None
        m = re.search(r", !dbg !(\d+)", s)
        if m:
            line = int(m.group(1))
        s = re.sub(r'(,|\s)\s*![a-zA-Z_.]+ !\d+', '', s)
        s = re.sub(r'(,|\s)\s*!srcloc !\d+', '', s)
        p = P(self, tokenize(s))
        res = None
        if p.peek()[0] == "local" and p.peek(1)[1] == "=":
            res = p.next()[1][1:].strip('"')
            p.next()
        k, op = p.next()
        if op in ("tail", "musttail", "notail"):
            k, op = p.next()
        I = self._ins(p, op, res)
        if I is not None:
            I.line = line
        return I

    def _ins(self, p, op, res):
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor",
                  "fadd", "fsub", "fmul", "fdiv", "frem"):
            flags = []
            while p.peek()[0] == "word" and p.peek()[1] in PARAM_ATTRS:
                flags.append(p.next()[1])
            ty = p.ty()
            a = p.val(ty)
            p.expect(",")
            b = p.val(ty)
            return Ins(op, res, ty, (a, b), flags)
        if op == "fneg":
            p.skip_attrs()
            ty = p.ty()
            return Ins(op, res, ty, (p.val(ty),))
        if op in ("icmp", "fcmp"):
            p.skip_attrs()
            pred = p.next()[1]
            ty = p.ty()
            a = p.val(ty)
            p.expect(",")
            return Ins(op, res, ty, (a, p.val(ty)), pred)
        if op == "alloca":
            p.accept("inalloca")
            ty = p.ty()
            n = None
            if p.accept(","):
                if p.peek()[1] != "align":
                    nt = p.ty()
                    n = p.val(nt)
            return Ins(op, res, ty, (), n)
        if op == "load":
            at = p.accept("atomic")
            p.accept("volatile")
            ty = p.ty()
            p.expect(",")
            return Ins(op, res, ty, (p.tv(),), "atomic" if at else None)
        if op == "store":
            at = p.accept("atomic")
            p.accept("volatile")
            v = p.tv()
            p.expect(",")
            return Ins(op, None, v.ty, (v, p.tv()), "atomic" if at else None)
        if op == "getelementptr":
            p.skip_attrs()
            sty = p.ty()
            p.expect(",")
            ops = []
            while True:
                ops.append(p.tv())
                if not p.accept(","):
                    break
            return Ins(op, res, sty, ops)
        if op == "br":
            ty = p.ty()
            if ty.k == "label":
                return Ins(op, None, None, (), [p.next()[1][1:].strip('"')])
            c = p.val(ty)
            p.expect(",")
            p.ty()
            a = p.next()[1][1:].strip('"')
            p.expect(",")
            p.ty()
            b = p.next()[1][1:].strip('"')
            return Ins(op, None, None, (c,), [a, b])
        if op == "switch":
            ty = p.ty()
            v = p.val(ty)
            p.expect(",")
            p.ty()
            d = p.next()[1][1:].strip('"')
            p.expect("[")
            cases = []
            while not p.accept("]"):
                ct = p.ty()
                cv = p.val(ct)
                p.expect(",")
                p.ty()
                cases.append((cv.v, p.next()[1][1:].strip('"')))
            return Ins(op, None, ty, (v,), (d, cases))
        if op == "ret":
            ty = p.ty()
            if ty.k == "void":
                return Ins(op, None, ty, ())
            return Ins(op, None, ty, (p.val(ty),))
        if op == "unreachable":
            return Ins(op)
        if op == "phi":
            p.skip_attrs()
            ty = p.ty()
            inc = []
            while True:
                p.expect("[")
                v = p.val(ty)
                p.expect(",")
                b = p.next()[1][1:].strip('"')
                p.expect("]")
                inc.append((v, b))
                if not p.accept(","):
                    break
            return Ins(op, res, ty, (), inc)
        if op == "select":
            p.skip_attrs()
            c = p.tv()
            p.expect(",")
            a = p.tv()
            p.expect(",")
            b = p.tv()
            return Ins(op, res, a.ty, (c, a, b))
        if op in ("zext", "sext", "trunc", "fptrunc", "fpext", "sitofp", "uitofp", "fptosi", "fptoui", "bitcast",
                  "ptrtoint", "inttoptr", "addrspacecast"):
            p.skip_attrs()
            v = p.tv()
            p.expect("to")
            return Ins(op, res, p.ty(), (v,))
        if op in ("call", "invoke"):
            p.skip_attrs()
            ty = p.ty()
            p.skip_attrs()
            k, callee = p.peek()
            if k == "word" and callee == "asm":
                return Ins("asm", res, ty, ())
            cv = p.val(ty)
            p.expect("(")
            args = []
            while not p.accept(")"):
                args.append(p.tv())
                p.accept(",")
            x = {"callee": cv}
            if op == "invoke":
                while p.peek()[1] != "to":
                    p.next()
                p.next()
                p.ty()
                a = p.next()[1][1:].strip('"')
                p.expect("unwind")
                p.ty()
                b = p.next()[1][1:].strip('"')
                x["succ"] = [a, b]
            rt = ty.a[0] if ty.k == "fn" else ty
            return Ins(op, res, rt, args, x)
        if op in ("extractvalue",):
            v = p.tv()
            idx = []
            while p.accept(","):
                idx.append(int(p.next()[1]))
            return Ins(op, res, None, (v,), idx)
        if op == "insertvalue":
            v = p.tv()
            p.expect(",")
            e = p.tv()
            idx = []
            while p.accept(","):
                idx.append(int(p.next()[1]))
            return Ins(op, res, v.ty, (v, e), idx)
        if op == "extractelement":
            v = p.tv()
            p.expect(",")
            return Ins(op, res, None, (v, p.tv()))
        if op == "insertelement":
            v = p.tv()
            p.expect(",")
            e = p.tv()
            p.expect(",")
            return Ins(op, res, v.ty, (v, e, p.tv()))
        if op == "shufflevector":
            v = p.tv()
            p.expect(",")
            w = p.tv()
            p.expect(",")
            return Ins(op, res, v.ty, (v, w, p.tv()))
        if op == "atomicrmw":
            p.accept("volatile")
            kind = p.next()[1]
            ptr = p.tv()
            p.expect(",")
            v = p.tv()
            return Ins(op, res, v.ty, (ptr, v), kind)
        if op == "cmpxchg":
            p.accept("weak")
            p.accept("volatile")
            ptr = p.tv()
            p.expect(",")
            a = p.tv()
            p.expect(",")
            b = p.tv()
            return Ins(op, res, a.ty, (ptr, a, b))
        if op in ("freeze",):
            v = p.tv()
            return Ins(op, res, v.ty, (v,))
        if op in ("fence",):
            return Ins(op)
        if op in ("landingpad", "resume", "cleanupret"):
            return Ins(op, res)
        raise Exception("unsupported instruction %s: %s" % (op, [x[1] for x in p.t]))

    # ---------------------------------------------------------------- layout
    def sizeof(self, ty):
        k = ty.k
        if k == "int":
            n = (ty.a[0] + 7) // 8
            s = 1
            while s < n:
                s *= 2
            return s
        if k == "fp":
            return {"double": 8, "float": 4, "half": 2, "x86_fp80": 16, "fp128": 16}[ty.a[0]]
        if k == "ptr":
            return 8
        if k == "array":
            return ty.a[0] * self.sizeof(ty.a[1])
        if k == "vec":
            return ty.a[0] * self.sizeof(ty.a[1])
        if k == "named":
            d = self.types.get(ty.a[0])
            if d is None:
                raise Exception("sizeof opaque " + ty.a[0])
            return self.sizeof(d)
        if k == "struct":
            return self.layout(ty)[0]
        raise Exception("sizeof %r" % ty)

    def alignof(self, ty):
        k = ty.k
        if k in ("int", "fp", "ptr", "vec"):
            return self.sizeof(ty)
        if k == "array":
            return self.alignof(ty.a[1])
        if k == "named":
            return self.alignof(self.types[ty.a[0]])
        if k == "struct":
            if ty.a[0]:
                return 1
            return max([1] + [self.alignof(f) for f in ty.a[1]])
        return 8

    def layout(self, ty):
        if ty.k == "named":
            return self.layout(self.types[ty.a[0]])
        off = 0
        offs = []
        for f in ty.a[1]:
            if not ty.a[0]:
                al = self.alignof(f)
                off = (off + al - 1) // al * al
            offs.append(off)
            off += self.sizeof(f)
        if not ty.a[0]:
            al = self.alignof(ty)
            off = (off + al - 1) // al * al
        return off, offs

    def resolve(self, ty):
        while ty.k == "named":
            ty = self.types[ty.a[0]]
        return ty

    def demangled(self):
        return {}


# ------------------------------------------------------------------ loop forest
class Loop:
    def __init__(self, header):
        self.header = header
        self.blocks = set()
        self.latches = []
        self.parent = None
        self.children = []


def loops_of(f):
    """natural loops; returns (dict header->Loop, block->innermost Loop, rpo index)"""
    if hasattr(f, "_loops"):
        return f._loops
    entry = f.order[0]
    # rpo
    seen = set()
    post = []
    stack = [(entry, iter(f.blocks[entry].succ))]
    seen.add(entry)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(f.blocks[s].succ)))
                break
        else:
            post.append(b)
            stack.pop()
    rpo = post[::-1]
    idx = {b: i for i, b in enumerate(rpo)}
    # dominators
    idom = {entry: entry}
    changed = True
    while changed:
        changed = False
        for b in rpo[1:]:
            new = None
            for p in f.blocks[b].pred:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while idx[x] > idx[y]:
                                x = idom[x]
                            while idx[y] > idx[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                changed = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == entry:
                return False
            b = idom[b]

    loops = {}
    for b in rpo:
        for s in f.blocks[b].succ:
            if s in idx and dom(s, b):
                lp = loops.setdefault(s, Loop(s))
                lp.latches.append(b)
                lp.blocks.add(s)
                work = [b]
                while work:
                    x = work.pop()
                    if x in lp.blocks:
                        continue
                    lp.blocks.add(x)
                    work.extend(p for p in f.blocks[x].pred if p in idx)
            elif s in idx and idx[s] <= idx[b]:
                raise Exception("irreducible control flow in " + f.name)
    inner = {}
    for lp in sorted(loops.values(), key=lambda l: -len(l.blocks)):
        for b in lp.blocks:
            if b in inner and inner[b] is not lp:
                pass
            inner[b] = lp
    for lp in loops.values():
        best = None
        for q in loops.values():
            if q is not lp and lp.header in q.blocks and (best is None or len(q.blocks) < len(best.blocks)):
                best = q
        lp.parent = best
        if best:
            best.children.append(lp)
    f._loops = (loops, inner, idx, rpo)
    return f._loops
