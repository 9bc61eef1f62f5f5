#!/usr/bin/env python3
"""Decides one property of the working tree of /repo:  check.py ID [quick|thorough]"""
import json, os, sys, time, traceback, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
EVID = os.environ.get("VP_EVID", os.path.join(HERE, "evidence"))
sys.path[:0] = [os.path.join(HERE, "engine"), os.path.join(HERE, "rules")]
sys.dont_write_bytecode = True
from base import Ctx, Prog, Unanalysable
from registry import PROPS


def known():
    """exact keys of recorded findings"""
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding: "):
                head, what = l[9:].rstrip("\n").split(" | ", 1)
                prop, key = head.split(" ", 1)
                out[(prop.split("=", 1)[1], key.split("=", 1)[1])] = what
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or (sys.argv[2] if len(sys.argv) > 2 else "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    meta = PROPS[pid]
    obs, notes, analysed, sites, evs = [], [], set(), 0, 0
    partial = None
    try:
        prog = Prog()
        partial = prog.partial
        c = Ctx(pid, prog, tier)
        obs = c.obs
        if partial is not None:
            c.undecided("type-check", "part of the program does not type-check, and only the rest was analysed: " + partial[:600])
        for m, fn in meta["rules"]:
            try:
                getattr(importlib.import_module(m), fn)(c)
            except Exception:
                # a construct the analysis has no model for: nothing is claimed about this rule, and nothing is reported as a violation
                c.undecided("rule:" + fn, traceback.format_exc()[-1500:])
        floor = meta.get("floor", 1)
        if partial is None and not any(n[0].startswith("rule:") for n in c.notes):
            c.ob("floor", len(set(o[0] for o in obs)) >= floor, "at least %d rule instances must be found, %d were" % (floor, len(set(o[0] for o in obs))))
        notes = c.notes
        analysed, sites, evs = c.analysed, c.sites, sum(1 for k in c.evs if k[0] != 'v')
    except Unanalysable as e:
        obs = [("unanalysable", False, str(e), "")]
    kn = known()
    bad, seen = [], set()
    for key, good, text, where in obs:
        if good or key in seen:
            continue
        seen.add(key)
        if (pid, key) in kn:
            print("KNOWN-FINDING: property=%s %s" % (pid, kn[(pid, key)]))
        else:
            bad.append((key, text, where))
    os.makedirs(EVID, exist_ok=True)
    for i, (key, text, where) in enumerate(bad):
        rp = os.path.join(EVID, "%s.violation-%d.txt" % (pid, i + 1))
        with open(rp, "w") as f:
            f.write("property %s: %s\nrule instance: %s\nat: %s\n%s\n\nreplay: python3 check.py %s\n" % (pid, meta["title"], key, where, text, pid))
        print("%s\n  rule instance %s\n  %s" % (where or "-", key, text[:700]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    files = sorted(set(prog.fns[a]["file"] for a in analysed if a in prog.fns)) if analysed else []
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other", "wall_s": round(time.time() - t0, 2),
        "violations": len(bad),
        "coverage": {
            "explanation": "Static analysis of the type-checked MIR of the current tree: " + meta["technique"] +
                           ". Obligations are rule instances found in the program; nothing is executed.",
            "rule": meta["rule"],
            "obligations": len(obs),
            "discharged": sum(1 for o in obs if o[1]),
            "undecided": ["%s: %s [%s]" % n for n in notes],
            "distinct_rule_instances": len(set(o[0] for o in obs)),
            "entry_functions": evs,
            "functions_analysed": len(analysed),
            "call_sites": sites,
            "files": files,
            "samples": ["%s: %s [%s]" % (o[0], o[2][:200], o[3]) for o in obs[:: max(1, len(obs) // 8)]][:10],
            "checker_cmd": "python3 check.py " + pid,
            "trusted_base": ["rustc nightly 1.101 front end (types, MIR, callee resolution)", "driver/main.rs", "engine/ (abstract interpreter and library models)",
                             "stub/integeriser (API of the dependency that is not available offline)"],
        },
        "assumptions": meta.get("assumptions", []),
    }
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    for n in notes:
        print("UNDECIDED %s: %s %s" % (pid, n[0], n[1].strip().split("\n")[-1][:200]))
    print("%s: %d obligations, %d functions, %d call sites, %d violations" % (pid, len(obs), len(analysed), sites, len(bad)))
    sys.exit(1 if bad else 0)


main()
