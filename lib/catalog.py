#!/usr/bin/env python3
"""The list of properties; regenerates properties.jsonl and MANIFEST.json."""
import json, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, note=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
               "why_tests_cant": why, "anchors": a}, note))


def na(id, reason):
    NA.append({"property": id, "reason": reason})


RT = "runtime/"
sys.path.insert(0, os.path.join(HERE, "lib"))
import catalog_props  # noqa

NOTE = ("Seeded search over schedules and faults of the real code, re-instrumented from the working tree on every run; every failing run is "
        "minimised and replayed exactly. A clean batch is evidence over the seeds explored, not a proof; trusts the source rewriter and the simulated scheduler, channels, locks, clock and context.")


def main():
    ids = [p["id"] for p, _ in P]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, _ in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    claimed = [p["id"] for p, _ in P if p["id"] not in {x["property"] for x in NA}]
    m = {"version": 1, "setup_cmd": "python3 run.py setup",
         "hooks": {"guard": "none: no hook is added to /repo; the checks build instrumented copies of its sources through go build -overlay",
                   "enable": "run.py rewrites the current sources with instr/ and builds the harness with the resulting overlay", "source_commits": []},
         "checks": [{"property": i, "quick_cmd": "python3 run.py check %s quick" % i, "thorough_cmd": "python3 run.py check %s thorough" % i,
                     "evidence_file": "evidence/%s.json" % i,
                     "technique": "deterministic simulation with fault injection (seeded scheduler, simulated clock%s)" % "",
                     "level": "exploration", "level_note": (n + " " if n else "") + NOTE} for (p, n), i in ((x, x[0]["id"]) for x in P) if i in claimed],
         "not_applicable": NA,
         "notes": "See DESIGN.md. known-findings.json lists defects that were recorded and those that were repaired."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
