"""Writes properties.jsonl and MANIFEST.json from rules/registry.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "rules")]
sys.dont_write_bytecode = True
from registry import PROPS, NOT_APPLICABLE


def where(p, m):
    return ", ".join(p["files"])


with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for pid in sorted(list(PROPS) + list(NOT_APPLICABLE)):
        p = PROPS.get(pid) or NOT_APPLICABLE[pid]
        f.write(json.dumps({
            "id": pid, "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": [{"name": a, "meaning": b} for a, b in p["state"]],
                        "mechanism": [{"name": m, "where": where(p, m)} for m in p["mechanism"]],
                        "observe_at": p["observe"] or p["mechanism"], "hook_needed": None},
        }, ensure_ascii=False) + "\n")
man = {
    "version": 1,
    "setup_cmd": "python3 setup.py",
    "checks": [{
        "property": pid, "quick_cmd": "python3 check.py " + pid, "thorough_cmd": "python3 check.py %s thorough" % pid,
        "technique": "static analysis: " + p["technique"], "level": "other",
        "level_note": ("Sound for the clause the rule states on every path of the analysed functions, up to the library models. " + p["note"]).strip(),
    } for pid, p in sorted(PROPS.items())],
    "not_applicable": [{"property": pid, "reason": p["reason"]} for pid, p in sorted(NOT_APPLICABLE.items())],
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
