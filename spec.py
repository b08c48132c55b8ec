#!/usr/bin/env python3
"""Single source of truth: properties, checks, levels.

`python3 spec.py` rewrites properties.jsonl and MANIFEST.json (both committed)
from the tables below, so that they can never drift apart."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))

P = []      # property records
CHECKS = {} # id -> dict(harness=, note=)
NOT_APPLICABLE = {}

def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

def check(id, harness, note):
    CHECKS[id] = {"harness": harness, "note": note}

exec(open(os.path.join(HERE, "spec_props.py")).read())

# What the harnesses shared by many properties add to each of them.
SHARED = {
 "repeat": "Repetition: every such call 66000 times (thorough: a minute), after 1-1025 calls of each other one, and in every rotation of all of them.",
 "scale": "Scale: up to a thousand transactions (or paths) live together and tens of thousands in a row, each judged as if alone.",
 "node_isolation": "The bindings in several environments: every nesting and every pair of threads, ThreadSanitizer included.",
}
EXTRA = {
 "S01": "Datagrams up to 65535 bytes at every length around powers of two.", "S02": "Datagrams up to 65535 bytes at every length around powers of two, attribute counts to 16000.",
 "S03": "Messages up to the 65535-byte limit.", "K01": "The library's own calls failing at every place.",
 "C01": "Lock step: every script again with a full model of timers, delays and path history.",
 "C02": "Timers from half an hour to decades.", "C03": "Timers from half an hour to decades; the advice followed literally to the end.", "C04": "All 4096 methods x 3 kinds of response x signature.",
 "C06": "Lock step with an error-bounded model of SRTT and RTTVAR; timers to decades.", "C07": "Timers from half an hour to decades.", "V01": "Up to 300 users of six name shapes.",
 "U11": "One more operation after states of up to 8192 (65536) elements must cost no more than on small ones.",
}

def full_note(i):
    c = CHECKS[i]; h = c["harness"] if isinstance(c["harness"], list) else [c["harness"]]
    return " ".join([c["note"]] + ([EXTRA[i]] if i in EXTRA else []) + [SHARED[x] for x in h if x in SHARED])

TECH = "bounded-exhaustive explicit-state exploration of the real code against a reference model (model checking)"

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    ids = [p["id"] for p in P]
    assert len(set(ids)) == len(ids)
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
    m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": []}
    for i in ids:
        if i in CHECKS:
            c = CHECKS[i]
            m["checks"].append({
                "property": i,
                "quick_cmd": f"python3 run.py {i} quick",
                "thorough_cmd": f"python3 run.py {i} thorough",
                "technique": c.get("technique", TECH),
                "level": "model_checking",
                "level_note": full_note(i)})
    m["not_applicable"] = [
        {"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")}
        for i in ids if i not in CHECKS]
    m["notes"] = ("No hooks in /repo are needed: the harnesses drive public interfaces. "
                  "craftpp/craftnapi (not available offline) are replaced by the stand-in in shim/. See DESIGN.md.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")

if __name__ == "__main__":
    main()
