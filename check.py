#!/usr/bin/env python3
"""check.py <property id>... | all     decides properties of /repo's current tree

Exit 0: every obligation discharged (known findings are printed).
Exit 1: VIOLATION lines name the property; the report file lists the constructs.
"""
import hashlib, importlib, json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
EV = os.environ.get("EVIDENCE_DIR", os.path.join(HERE, "evidence"))  # overridden by selftest only
sys.path.insert(0, os.path.join(HERE, "sa"))
sys.path.insert(0, os.path.join(HERE, "checks"))
sys.setrecursionlimit(20000)
import extract, mir, rules  # noqa


def load_facts():
    cache = os.environ.get("SA_FACTS")  # development only
    if cache and os.path.exists(cache):
        d = json.load(open(cache))
        return d["lib"], d["bin"]
    return extract.extract()


def known():
    p = os.path.join(HERE, "known_findings.json")
    out = {}
    for f in json.load(open(p))["findings"]:
        if f.get("status") == "open":
            out[(f["property"], f["key"])] = f["what"]
    return out


def run_one(pid, prog, kn, t_extract, err=None):
    t0 = time.time()
    cx = None
    if err is None:
        cx = rules.Ctx(pid, prog)
        mod = importlib.import_module(pid.lower())
        try:
            mod.run(cx)
        except mir.AnchorError as e:
            cx.ob("anchor", "anchor", False, "a construct the property is anchored to is missing: %s" % e)
        except Exception as e:  # an analysis that cannot complete decides nothing: fail closed
            cx.ob("analysis", "analysis", False, "the analysis could not be completed: %s" % traceback.format_exc()[-800:])
        obs = cx.obs
        if not obs:
            obs.append(("floor", "obligations", False, "no obligation generated", None))
    else:
        obs = [("extract", "extract", False, err, None)]
    bad, kf = [], []
    for rule, inst, ok, msg, where in obs:
        if ok:
            continue
        key = "%s/%s" % (rule, inst)
        if (pid, key) in kn:
            kf.append((key, kn[(pid, key)]))
        else:
            bad.append({"rule": rule, "instance": inst, "message": msg, "where": where})
    for key, what in dict(kf).items():
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, key, what))
    os.makedirs(EV, exist_ok=True)
    samples = [{"rule": r, "instance": i, "holds": ok, "where": w} for r, i, ok, m, w in obs][:40]
    rulecount = {}
    for o in obs:
        rulecount[o[0]] = rulecount.get(o[0], 0) + 1
    ev = {
        "property": pid,
        "tier": os.environ.get("VERIF_TIER", "quick") if os.environ.get("VERIF_TIER") in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": (importlib.import_module(pid.lower()).__doc__ if err is None else err) or "",
            "obligations": len(obs),
            "discharged": sum(1 for o in obs if o[2]),
            "known_findings": len(dict(kf)),
            "rules": rulecount,
            "functions_analysed": len(cx.functions) if cx else 0,
            "functions": sorted(cx.functions)[:60] if cx else [],
            "basic_blocks": cx.blocks if cx else 0,
            "call_sites": cx.callsites if cx else 0,
            "instance_counts": cx.counts if cx else {},
            "trusted_base": ["rustc 1.39 MIR construction", "the standard-library and dependency models in sa/flow.py"],
            "samples": samples,
        },
        "wall_s": round(time.time() - t0 + t_extract, 2),
        "violations": len(bad),
    }
    with open(os.path.join(EV, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    rep = os.path.join(EV, pid + ".report.json")
    if bad:
        with open(rep, "w") as f:
            json.dump(bad, f, indent=1)
        for b in bad[:25]:
            print("  %s [%s] %s %s" % (b["rule"], b["instance"], b["message"], "at %s" % (b["where"],) if b["where"] else ""))
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    if os.path.exists(rep):
        os.unlink(rep)
    print("OK property=%s obligations=%d functions=%d blocks=%d %.1fs" % (pid, len(obs), len(cx.functions), cx.blocks, time.time() - t0))
    return 0


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    if ids == ["all"]:
        ids = sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, "checks")) if f.startswith("c") and f[1:-3].isdigit())
    t0 = time.time()
    prog, err = None, None
    try:
        prog = mir.Prog(load_facts())
    except extract.ExtractError as e:
        err = "the analysed tree does not compile: %s" % str(e)[-1500:]
    te = time.time() - t0
    kn = known()
    rc = 0
    for pid in ids:
        rc |= run_one(pid, prog, kn, te, err)
    return rc


if __name__ == "__main__":
    sys.exit(main())
