import sys,os,importlib
sys.path.insert(0,'/verif/vdv'); sys.setrecursionlimit(20000)
from spec import *
import spec as S, prover
orig=S.prove_num
def pn(eng,a,b,facts,single=False):
    ok=orig(eng,a,b,facts,single)
    if not ok and isinstance(a,t.T):
        m=prover.eqsubst(facts)
        aa=prover.simp(subst(a,m),facts); bb=prover.simp(subst(b,m),facts)
        if single: aa,bb=prover.erase32(aa),prover.erase32(bb)
        print("CODE",t.show(aa)[:60000]); print("SPEC",t.show(bb)[:60000]); print("DIFF", t.show(sub(aa,bb))[:60000])
    return ok
S.prove_num=pn
mod=importlib.import_module("specs."+sys.argv[1])
for sp in mod.SPECS:
    if sys.argv[2] in sp.fn:
        if len(sys.argv)>3: sp.cases=[c for c in sp.cases if c[0]==sys.argv[3]]
        import time
        r=verify(sp, want={"result","accept"}); print(r.wall, [o.name for o in r.failed()])
