#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay file]

Decides one property: checks the design on the TLA+ specification, drives the real
code in /repo through scenarios generated from it, and has TLC validate the recorded
traces against the specification with this property's guards enforced."""
import argparse, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import core, plans

EVID = os.path.join(HERE, "evidence")

def known_findings():
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: "):
                kv = dict(x.split("=", 1) for x in line.split(" ")[1:3])
                out.append((kv["property"], kv["case"], line))
    return out

def short(trace, n=14):
    out = []
    for e in trace[:n]:
        out.append(" ".join("%s=%s" % (k, v) for k, v in e.items() if not isinstance(v, (list, dict)))[:160])
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    p = plans.Plan(a.prop, a.tier, a.seed)
    try:
        if a.replay:
            r = json.load(open(a.replay))
            p.module, p.extra_cfg = r["module"], r.get("extra", "")
            p.scens = [r["scenario"]]
        core.build_harness()
        if not a.replay:
            p.run(plans.PLANS[a.prop])
        t1 = time.time()
        traces, crashes = core.drive(p.scens, timeout=p.timeout, per_proc=p.per_proc)
        t2 = time.time()
        v = core.validate(p.module, a.prop, traces, extra=p.extra_cfg)
        t3 = time.time()
    except core.Inconclusive as x:
        print("INCONCLUSIVE property=%s: %s" % (a.prop, x))
        return 2
    except Exception:
        traceback.print_exc()
        print("INCONCLUSIVE property=%s: the check itself failed" % a.prop)
        return 2

    viols, known = [], []
    kf = known_findings()
    by_case = {c: line for pr, c, line in kf if pr == a.prop}
    for scen, note in crashes:
        viols.append((scen, [], -1, ["the code under test took the process down"], note))
    order = sorted(v.rejected, key=lambda x: len(x[0]["trace"]))
    for tr, line, reason in order:
        case = tr.get("scen", {}).get("case") or ""
        if case in by_case:
            ln, guards, note = core.diagnose(p.module, a.prop, tr, p.extra_cfg)
            if any(("guard=" + g.replace(" ", "_")) in by_case[case] for g in guards):
                known.append((case, by_case[case]))
                continue
        if len(viols) < 5:
            ln, guards, note = core.diagnose(p.module, a.prop, tr, p.extra_cfg)
            viols.append((tr["scen"], tr["trace"], ln, guards, note))
        else:
            viols.append((tr["scen"], tr["trace"], line, [], reason))
    for c, line in sorted(set(known)):
        print("KNOWN-FINDING: property=%s %s" % (a.prop, line.split(" ", 4)[4]))
    for i, (scen, trace, ln, guards, note) in enumerate(viols[:5]):
        path = os.path.join(EVID, "replay-%s-%d.json" % (a.prop, i))
        s = dict(scen)
        s.setdefault("fam", getattr(p, "fam", "eng"))
        json.dump({"property": a.prop, "module": p.module, "extra": p.extra_cfg, "scenario": s, "refused_line": ln,
                   "guards": guards, "note": note, "trace": trace}, open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        print("   refused at line %d: %s" % (ln, "; ".join(guards) or note[:600]))
        for j, e in enumerate(trace):
            if ln < 0 or abs(j + 1 - ln) < 6:
                print("   %s%3d %s" % (">" if j + 1 == ln else " ", j + 1, json.dumps(e)[:220]))
            if j > ln + 6 and ln > 0:
                break
    if a.replay:
        print("replay: %s" % ("violated" if viols else "accepted"))
        return 1 if viols else 0
    dg, dd = sum(x[1] for x in p.design), sum(x[2] for x in p.design)
    ev = {
        "property": a.prop, "tier": a.tier, "seed": a.seed, "level": "model_checking",
        "coverage": {
            "states": dd + v.distinct, "transitions": dg + v.states,
            "traces_validated_against_impl": v.ok,
            "traces_refused": len(v.rejected), "scenarios": len(p.scens),
            "design_checks": [{"model": n, "states_generated": g, "distinct": d} for n, g, d in p.design],
            "trace_states": v.states,
            "samples": [{"scenario": {k: x for k, x in t["scen"].items() if k != "init"}, "trace": short(t["trace"])} for t in traces[:1] + traces[len(traces) // 2:len(traces) // 2 + 1]],
            "notes": p.notes,
        },
        "assumptions": p.assumptions or ["the in-memory ports of the driver behave as the interfaces document"],
        "wall_s": round(time.time() - t0, 1), "violations": len(viols),
    }
    json.dump(ev, open(os.path.join(EVID, a.prop + ".json"), "w"), indent=1)
    print("%s %s: %d scenarios, %d traces accepted, %d refused, %d known; design %d states; gen %.0fs drive %.0fs validate %.0fs" %
          (a.prop, a.tier, len(p.scens), v.ok, len(v.rejected), len(known), dd, t1 - t0, t2 - t1, t3 - t2))
    if not p.scens or v.ok == 0 and not viols:
        print("INCONCLUSIVE property=%s: nothing was explored" % a.prop)
        return 2
    return 1 if viols else 0

sys.exit(main())
