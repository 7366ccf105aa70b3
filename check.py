#!/usr/bin/env python3-vt
"""check.py PROPERTY [--thorough]: prove every obligation of one property on /repo's current source.

exit 0: every obligation generated from the current tree was discharged (or is a listed known finding)
exit 1: "VIOLATION property=<id> replay=<path>" [" no-failing-input-found"]
"""
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "vdv"))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

KNOWN = os.path.join(HERE, "known_findings.txt")


def worker(item, conn, timeout_ms, want):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    sys.setrecursionlimit(20000)
    import threading
    threading.stack_size(512 << 20)
    box = {}

    def go():
        try:
            import props
            import prover
            import spec as S
            if timeout_ms:
                prover.TIMEOUT_MS = timeout_ms
            sp = props.find(item)
            r = sp.verify(want) if hasattr(sp, "verify") else S.verify(sp, want=want)
            box["r"] = dict(fn=item, obls=[(o.name, o.ok, o.kind, o.time, o.backend, o.reason) for o in r.obls],
                            assumed=sorted(map(str, r.assumed)), under=sorted(map(str, r.under)),
                            called=sorted(map(str, r.called)), havocs=sorted(set(map(str, r.havocs))), wall=r.wall,
                            queries=prover.STATS["z3_queries"], ztime=prover.STATS["z3_time"],
                            kind=getattr(sp, "evidence_kind", "contract"))
        except BaseException as e:
            box["r"] = dict(fn=item, obls=[("%s|reach|the obligations could not be generated: %s: %s" % (
                item, type(e).__name__, str(e)[:200]), False, "reach", 0.0, "extractor", traceback.format_exc()[-3000:])],
                assumed=[], under=[], called=[], havocs=[], wall=0, queries=0, ztime=0, kind="contract")
    th = threading.Thread(target=go)
    th.start()
    th.join()
    conn.send(box["r"])
    conn.close()


def run_all(items, deadline, timeout_ms, want, jobs=8):
    """items: (name, expected cost)"""
    import props
    todo = sorted(items, key=lambda i: -props.cost(i))
    running, out = [], {}
    ctx = mp.get_context("fork")
    t0 = time.time()
    while todo or running:
        while todo and len(running) < jobs and time.time() - t0 < deadline:
            it = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(it, b, timeout_ms, want))
            p.start()
            b.close()
            running.append((p, a, it))
        late = time.time() - t0 > deadline
        nr = []
        for p, a, it in running:
            r = None
            try:
                if a.poll(0.02):
                    r = a.recv()
            except EOFError:
                r = "died"
            if r is None and not late:
                nr.append((p, a, it))
                continue
            if r is None or r == "died":
                why = "time budget of %d s exceeded" % deadline if r is None else "the prover process died"
                p.kill()
                r = dict(fn=it, obls=[("%s|reach|%s" % (it, why), False, "reach", 0.0, "extractor", why)], assumed=[],
                         under=[], called=[], havocs=[], wall=time.time() - t0, queries=0, ztime=0, kind="contract")
            out[it] = r
            p.join(5)
        running = nr
        if late and not running:
            for it in todo:
                why = "time budget of %d s exceeded before it was started" % deadline
                out[it] = dict(fn=it, obls=[("%s|reach|%s" % (it, why), False, "reach", 0.0, "extractor", why)],
                               assumed=[], under=[], called=[], havocs=[], wall=0, queries=0, ztime=0, kind="contract")
            todo = []
        time.sleep(0.02)
    return out


def known(prop):
    """[(obligation prefix, text)] of findings recorded rather than repaired"""
    res = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("finding:"):
                parts = l.split(None, 3)
                d = dict(x.split("=", 1) for x in parts[1:3])
                if d.get("property") == prop:
                    res.append((d["obligation"].replace("~", " "), parts[3]))
    return res


def main():
    prop = sys.argv[1]
    thorough = "--thorough" in sys.argv
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    import props
    import build
    P = props.PROPS[prop]
    items = props.items(prop)
    kinds = P["kinds"]
    build.MARK_OMP = bool(P.get("omp"))
    # extract each module once, before the workers are forked
    err = {}
    for it in items:
        sp = props.find(it)
        try:
            if getattr(sp, "module", None):
                build.module(sp.module, exceptions=sp.opts.get("exceptions"))
        except Exception as e:
            err[it] = str(e)
    res = run_all(items, 2400 if thorough else 520, 12000 if thorough else None, kinds)
    obls = []
    for it in items:
        for o in res[it]["obls"]:
            if o[2] in kinds or o[2] in ("reach",):
                obls.append((it, o))
    kn = known(prop)
    failed, findings = [], {}
    for it, o in obls:
        if not o[1]:
            for pre, text in kn:
                if o[0].startswith(pre):
                    findings.setdefault((pre, text), []).append(o[0])
                    break
            else:
                failed.append((it, o))
    n = len(obls)
    if n == 0:
        failed.append((prop, ("%s|vacuity|no obligations were generated" % prop, False, "vacuity", 0, "", "")))
    for (pre, text), l in sorted(findings.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    wall = time.time() - t0
    replays = {}
    rdir = os.path.join(HERE, "evidence", "replay")
    path = None
    concrete = None
    calls = 0
    if failed or thorough:
        import replay
        sys.setrecursionlimit(20000)
        todo = []
        for it, o in failed:
            if it not in todo:
                todo.append(it)
        if thorough and not failed:
            todo = list(items)
        budget = (230 if not thorough else 900)
        tr = time.time()
        for k, it in enumerate(todo):
            left = budget - (time.time() - tr)
            if left < 5 or concrete:
                break
            try:
                sp = props.find(it)
                share = max(20, left / (len(todo) - k))
                if hasattr(sp, "search"):
                    f, c = sp.search(P["modes"], seed, min(share, left))
                else:
                    f, c = replay.search(sp, P["modes"], seed, budget=min(share, left))
                calls += c
                if f:
                    concrete = (it, f)
            except Exception as e:
                replays[it] = "replay not possible: %s: %s" % (type(e).__name__, str(e)[:500])
    if concrete and not failed:
        # the thorough tier's sampling disagrees with a proved contract: report it
        failed.append((concrete[0], ("%s|replay|sampled execution" % concrete[0], False, "replay", 0, "execution",
                                     concrete[1]["failure"])))
    if failed:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, prop + ".json")
        json.dump({"property": prop, "failed_obligations": [
            {"function": it, "obligation": o[0], "kind": o[2], "verifier_output": o[5]} for it, o in failed][:60],
            "failing_input": {"function": concrete[0], **concrete[1]} if concrete else None,
            "replay_calls": calls, "replay_notes": replays}, open(path, "w"), indent=1, default=str)
    trusted = [
        "clang/opt 18.1.3 front end and the IR passes " + build.PASSES + " used as the mechanical extraction",
        "the verification-condition generator /verif/vdv (engine, normaliser) and Z3 (python z3-solver)",
    ] + P.get("trusted", [])
    assumed = set(props.ASSUMPTIONS) | set(P.get("assumptions", []))
    for it in items:
        assumed |= set("contract of %s assumed: %s" % (x, props.assumed_text(x)) for x in res[it]["assumed"])
    bk = {}
    for it, o in obls:
        if o[1]:
            bk[o[4] or "normaliser"] = bk.get(o[4] or "normaliser", 0) + 1
    ev = {
        "property": prop, "tier": "thorough" if thorough else "quick", "seed": seed, "level": "proof",
        "coverage": {
            "obligations": n, "discharged": sum(1 for _, o in obls if o[1]),
            "checker_cmd": "python3-vt /verif/check.py %s%s" % (prop, " --thorough" if thorough else ""),
            "trusted_base": trusted,
            "functions_under_contract": {it: {"obligations": sum(1 for i, o in obls if i == it),
                                              "discharged": sum(1 for i, o in obls if i == it and o[1]),
                                              "wall_s": round(res[it]["wall"], 2),
                                              "inlined_internal_functions": res[it]["under"],
                                              "callee_contracts_used": res[it]["called"]} for it in items},
            "discharged_by_backend": bk,
            "solver_queries": sum(res[it]["queries"] for it in items),
            "solver_time_s": round(sum(res[it]["ztime"] for it in items), 2),
            "kinds": sorted(kinds),
            "extraction_drops": build.DROPPED,
            "known_findings": [t for (_, t) in sorted(findings)],
            "replayed_calls": calls,
        },
        "assumptions": sorted(assumed), "wall_s": round(time.time() - t0, 2), "violations": len(failed),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: %d obligations, %d discharged, %d functions, %.1f s" % (
        prop, n, sum(1 for _, o in obls if o[1]), len(items), time.time() - t0))
    if failed:
        for it, o in failed[:20]:
            print("FAILED %s" % o[0][:300])
        if concrete:
            print("failing input: %s: %s" % (concrete[0], concrete[1]["failure"][:600]))
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if concrete else " no-failing-input-found"))
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        # anything unexpected is an undecided property: name it, never an error exit
        os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
        p = os.path.join(HERE, "evidence", "replay", sys.argv[1] + ".json")
        tb = traceback.format_exc()
        json.dump({"property": sys.argv[1], "failed_obligations": [{"obligation": "reach", "verifier_output": tb}]},
                  open(p, "w"))
        print(tb)
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (sys.argv[1], p))
        sys.exit(1)
