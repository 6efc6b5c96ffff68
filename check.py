#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's current tree by static analysis.
Exit 0: holds. Exit 1 + 'VIOLATION property=<id> replay=<path>': broken."""
import importlib, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    t0 = time.time()
    from sa.core import Ctx
    mod = importlib.import_module(f"sa.checks.{pid.lower()}")
    ctx = Ctx(pid, opaque=getattr(mod, "OPAQUE", ()))
    ctx.tier = tier
    mod.run(ctx)
    known = json.load(open(f"{HERE}/known-findings.json")) if os.path.exists(f"{HERE}/known-findings.json") else {"findings": []}
    kf = {(f["property"], f["key"]): f for f in known["findings"]}
    bad, knownhit, seenk = [], [], set()
    for key, ok, msg, where in ctx.obs:
        if ok or key in seenk:
            continue
        seenk.add(key)
        if (pid, key) in kf:
            knownhit.append((key, kf[(pid, key)]["what"]))
        else:
            bad.append((key, msg, where))
    disch = sum(1 for o in ctx.obs if o[1])
    samples = [f"{o[0]}: {o[2]} [{o[3]}]" for o in ctx.obs if o[1]][:12]
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
        "coverage": {
            "explanation": (mod.__doc__ or "").strip(),
            "obligations": len(ctx.obs), "discharged": disch,
            "counts": ctx.notes, "functions_analysed": sorted(ctx.seen)[:400], "functions_analysed_count": len(ctx.seen),
            "bodies_in_program": len(ctx.P.own),
            "samples": samples,
            "obligation_keys": [o[0] for o in ctx.obs][:500],
            "facts": os.path.basename(ctx.P.facts_path),
        },
        "assumptions": list(getattr(mod, "ASSUME", [])) + ctx.assume,
        "violations": len(bad), "wall_s": round(time.time() - t0, 3),
    }
    EV = os.environ.get("VERIF_EVID", f"{HERE}/evidence")
    os.makedirs(EV, exist_ok=True)
    with open(f"{EV}/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)
    for key, what in knownhit:
        print(f"KNOWN-FINDING: property={pid} {key}: {what}")
    print(f"{pid}: {disch}/{len(ctx.obs)} obligations hold over {len(ctx.seen)} functions; {json.dumps(ctx.notes)}")
    if bad:
        rp = f"{EV}/{pid}.violations.txt"
        with open(rp, "w") as f:
            for key, msg, where in bad:
                f.write(f"{key}\n  {msg}\n  at {where}\n")
        for key, msg, where in bad[:20]:
            print(f"  {key}: {msg} [{where}]")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
