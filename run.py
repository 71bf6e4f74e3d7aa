#!/usr/bin/env python3
"""python3 run.py <property id> [--tier quick|thorough] [--root /repo]"""
import argparse, json, os, sys, time, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def known_findings(pid):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                key, _, what = rest.partition(" :: ")
                out.append((key.strip(), what.strip()))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--root", default=os.environ.get("QTA_ROOT", "/repo"))
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import threading

    threading.stack_size(512 * 1024 * 1024)
    rc = []

    def go():
        try:
            rc.append(work(a.pid, tier, seed, a.root))
        except BaseException:
            import traceback

            traceback.print_exc()
            rc.append(2)

    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 2)


def work(pid, tier, seed, root):
    from qta.check import Check
    from qta import catalog

    t0 = time.time()
    ck = Check(pid, tier, seed, root)
    ck.case(pid, lambda: catalog.decide(pid)(ck))
    known = known_findings(pid)
    new, hit = [], {}
    for msg, site, ctx in ck.viol:
        k = next((k for k, w in known if k and k in msg + " " + ctx), None)
        if k is None:
            new.append((msg, site, ctx))
        else:
            hit[k] = 1
    for k, w in known:
        if k in hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, w))
    floor = catalog.FLOORS.get(pid, 1)
    if ck.total < floor and not new:
        ck.undecided("only %d obligations were found, at least %d expected: an anchor of the property has vanished" % (ck.total, floor))
    out = os.environ.get("QTA_OUT") or os.path.join(HERE, "evidence")
    os.makedirs(out, exist_ok=True)
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": catalog.LEVEL,
        "coverage": ck.evidence({"rule": catalog.rule(pid), "known_findings_hit": len(hit)}),
        "assumptions": catalog.assumptions(pid),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(new),
    }
    with open(os.path.join(out, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for msg, site, ctx in ck.und[:10]:
        print("UNDECIDED %s [%s] %s" % (msg, ctx, site))
    print("%s: %d obligations, %d discharged, %d violations, %d undecided, %.1fs" % (pid, ck.total, ck.ok, len(new), len(ck.und), time.time() - t0))
    if new:
        os.makedirs(os.path.join(out, "replay"), exist_ok=True)
        rp = os.path.join(out, "replay", pid + ".json")
        with open(rp, "w") as f:
            json.dump(
                {
                    "property": pid,
                    "replay_cmd": "python3 run.py %s" % pid,
                    "violations": [{"what": m, "construct": s, "context": c} for m, s, c in new[:200]],
                },
                f,
                indent=1,
            )
        for m, s, c in new[:10]:
            print("  %s\n    at %s\n    in %s" % (m, s or "?", c))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if ck.und:
        # what could not be analysed is reported above and counted in the evidence; without
        # at least half of the expected obligations decided there is no answer at all
        return 0 if 2 * ck.ok >= floor else 2
    return 0


main()
