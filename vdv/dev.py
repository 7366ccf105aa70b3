import sys, os, time, importlib, faulthandler
import faulthandler, sys, os
if os.environ.get("FH"): faulthandler.dump_traceback_later(int(os.environ["FH"]), exit=True)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); sys.setrecursionlimit(20000)
from spec import *
import spec as S
mod = importlib.import_module("specs." + sys.argv[1])
want = sys.argv[2:]
for sp in mod.SPECS:
    if want and not any(w in sp.fn + ":" + getattr(sp,'label','') for w in want): continue
    r = verify(sp)
    f = r.failed()
    print("%s: %d obligations, %d failed, %.1fs %s" % (sp.fn, len(r.obls), len(f), r.wall, r.error or ""))
    W = int(os.environ.get("W", 300))
    for o in f: print("   FAIL", o.name[len(sp.fn)+1:][:160], "::", (o.reason or "").replace("\n"," | ")[:W])
    for h in sorted(set(r.havocs)): print("   havoc", h)
    if os.environ.get("ALL"):
        for o in r.obls: print("      ", o.ok, o.name[len(sp.fn)+1:][:150], "%.2f"%o.time)
    print("   assumed:", sorted(r.assumed)[:20])
