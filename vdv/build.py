"""Mechanical extraction: /repo source -> LLVM IR text, on every run."""
import hashlib
import os
import re
import subprocess
import tempfile
import shutil
import ir

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = REPO + "/src/ska-sdp-func"
CFLAGS = ["-O1", "-Xclang", "-disable-llvm-passes", "-ffp-contract=off", "-fno-math-errno", "-funroll-loops", "-gline-tables-only",
          "-fno-discard-value-names", "-fno-strict-aliasing", "-DNDEBUG", "-fPIC", "-w", "-S", "-emit-llvm"]
_SIMP = "sroa,mem2reg,scalarizer,early-cse,simplifycfg,instsimplify,loop-simplify,lcssa"
PASSES = "cgscc(inline),function(%s,loop(loop-unroll-full),%s)" % (_SIMP, _SIMP)
# what the extraction drops / assumes
DROPPED = [
    "OpenMP pragmas (compiled without -fopenmp): loops are verified in sequential order",
    "CUDA translation units (.cu): no CUDA in this build",
    "LLVM passes applied before verification (trusted): " + PASSES,
]

_tmp = None


def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="vdv_")
        import atexit
        atexit.register(lambda: shutil.rmtree(_tmp, ignore_errors=True))
        gen = os.path.join(_tmp, "inc")
        os.makedirs(gen)
        # cmake-configured header, if the build tree lacks it
        for cand in (REPO + "/src/ska-sdp-func/utility/sdp_version.h.in",):
            pass
    return _tmp


class ExtractError(Exception):
    pass


_mods = {}


MARK_OMP = False      # keep the parallel loops visible (property C24)


def mark_omp(text, name):
    """replace every OpenMP pragma by a call that marks the statement it governs.
    The marker keeps the line structure; nothing else of the source changes."""
    out, notes = [], {}
    lines = text.split("\n")
    i = 0
    decl = 'extern "C" int vdv_omp_for(int, int); extern "C" int vdv_omp_single(int); extern "C" int vdv_omp_region(int);'
    while i < len(lines):
        l = lines[i]
        m = re.match(r"\s*#\s*pragma\s+omp\b(.*)$", l)
        if not m:
            out.append(l)
            i += 1
            continue
        body, extra = m.group(1), 0
        while body.rstrip().endswith("\\") and i + 1 < len(lines):
            i += 1
            extra += 1
            body = body.rstrip()[:-1] + " " + lines[i]
        words = re.sub(r"\(.*?\)", " ", body).split()
        ident = len(notes) + 1
        cond = "1"
        mm = re.search(r"\bif\s*\(", body)
        if mm:
            d, j = 1, mm.end()
            while d and j < len(body):
                d += {"(": 1, ")": -1}.get(body[j], 0)
                j += 1
            cond = body[mm.end():j - 1]
            cond = cond.split(":")[-1] if re.match(r"\s*parallel\s*:", cond) else cond
        def clause(nm):
            return [x.strip() for c in re.findall(r"\b%s\s*\(([^)]*)\)" % nm, body) for x in c.split(":")[-1].split(",")]
        mm = re.search(r"\bcollapse\s*\(\s*(\d+)\s*\)", body)
        red = re.findall(r"\breduction\s*\(\s*([^:\s]+)\s*:([^)]*)\)", body)
        notes[ident] = dict(line=i - extra + 1, text=" ".join(body.split()), collapse=int(mm.group(1)) if mm else 1,
                            private=clause("private") + clause("firstprivate") + clause("lastprivate") + clause("linear"),
                            reduction=[x.strip() for op, c in red if op in "+-" for x in c.split(",")],
                            badred=[op for op, c in red if op not in "+-"])
        if "for" in words:
            out.append("if (vdv_omp_for(%d, (%s) ? 1 : 0)) {} else" % (ident, cond))
        elif "atomic" in words or "critical" in words:
            out.append("if (vdv_omp_single(%d)) {} else" % ident)
        elif "parallel" in words:
            out.append("if (vdv_omp_region(%d)) {} else" % ident)
        elif set(words) & {"simd", "declare", "threadprivate", "barrier", "flush"}:
            out.append("")
        else:
            raise ExtractError("OpenMP directive not understood: " + body.strip())
        out += [""] * extra
        i += 1
    return decl + "\n#line 1 \"%s\"\n" % name + "\n".join(out), notes


def module(rel, exceptions=None):
    """rel: path below src/ska-sdp-func"""
    openmp = MARK_OMP
    key = (rel, openmp)
    if key in _mods:
        return _mods[key]
    d = tmpdir()
    src = os.path.join(SRC, rel)
    if not os.path.exists(src):
        raise ExtractError("no such source file " + rel)
    base = os.path.join(d, rel.replace("/", "_") + ("_omp" if openmp else "") + ".%d" % os.getpid())
    isc = rel.endswith(".c")
    cmd = ["clang" if isc else "clang++"] + CFLAGS + ["-std=c99" if isc else "-std=c++11",
           "-I" + REPO + "/src", "-I" + REPO + "/_build/src", "-I" + REPO + "/_build", "-I" + REPO]
    if not isc and not exceptions:
        cmd += ["-fno-exceptions"]
    notes = {}
    if openmp and not isc:
        t, notes = mark_omp(open(src).read(), os.path.basename(src))
        cmd += ["-I" + os.path.dirname(src)]
        src = base + ".cpp"
        open(src, "w").write(t)
    cmd += [src, "-o", base + ".raw.ll"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise ExtractError("clang failed on %s:\n%s" % (rel, r.stderr[-2000:]))
    # public (extern) functions stay calls: a caller is checked against the contract
    text = open(base + ".raw.ll").read()
    text = keep_public(text)
    text = re.sub(r"^(declare (?:!dbg !\d+ )?i32 @vdv_omp_\w+\([^)]*\)[^#\n]*)#\d+", r"\1 memory(inaccessiblemem: readwrite) nounwind willreturn",
                  text, flags=re.M)
    open(base + ".raw.ll", "w").write(text)
    cmd = ["opt", "-S", "-passes=" + PASSES, "-inline-threshold=100000000", "-unroll-threshold=1000000",
           "-unroll-full-max-count=8", base + ".raw.ll", "-o", base + ".ll"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise ExtractError("opt failed on %s:\n%s" % (rel, r.stderr[-2000:]))
    m = ir.Module(open(base + ".ll").read(), rel)
    m.omp = notes
    m.omp_shared = {}
    if notes:
        import omp
        m.omp_shared = omp.shared_writes(text, notes)
    _mods[key] = m
    return m


def keep_public(text):
    """mark extern \"C\" sdp_* definitions noinline so that calls to them stay calls"""
    def f(m):
        return m.group(1) + " noinline" + m.group(2)
    return re.sub(r'^(define (?:dso_local )?(?!internal)[^@\n]*@(?:sdp_\w+|_ZSt3powI[df]ESt7complexIT_ERKS2_i)\([^\n]*?\))((?: [^\n]*)?)$',
                  lambda m: _ni(m), text, flags=re.M)


def _ni(m):
    s = m.group(0)
    # insert the attribute before the first '#n' attribute group or the '{'
    mm = re.search(r"\) (local_unnamed_addr |unnamed_addr )?(#\d+|\{|!dbg)", s)
    if not mm:
        return s
    j = mm.start(2)
    return s[:j] + "noinline " + s[j:]
