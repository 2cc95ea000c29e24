#!/usr/bin/env python3
"""Entry point of every check:  run.py check <ID> [quick|thorough]  |  run.py setup  |  run.py replay FILE  |  run.py build <ID>"""
import json, os, re, subprocess, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import build, props


def binary(pid):
    return props.PROPS[pid](pid)


def check(pid, tier):
    t0 = time.time()
    b = binary(pid)
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if seed < 0:
        seed = -seed
    cmd = [b, "-tier", tier, "-seed", str(seed), "-evidence", os.path.join(build.VERIF, "evidence", pid + ".json"),
           "-replays", os.path.join(build.VERIF, "evidence", "replays"), "-known", os.path.join(build.VERIF, "known-findings.json")]
    if os.environ.get("VERIF_BUDGET"):
        cmd += ["-budget", os.environ["VERIF_BUDGET"]]
    print("%s: built in %.1fs" % (pid, time.time() - t0), flush=True)
    rc = subprocess.run(cmd, cwd=build.VERIF, env=build.env()).returncode
    if rc == 0 and pid in props.AFTER:
        known = [f for f in json.load(open(os.path.join(build.VERIF, "known-findings.json")))["findings"] if f["property"] == pid and f["class"] == "generate"]
        for e in props.AFTER[pid]():
            for k in known:
                if re.search(k["match"], str(e), re.S):
                    print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
                    break
            else:
                return generated(pid, e)
    return rc


def generated(pid, e):
    """Reports that the compiler fails, or that the code it generates does not build."""
    path = os.path.join(build.VERIF, "evidence", "replays", "%s-generate.json" % pid)
    build.write(path, json.dumps({"property": pid, "scenario": "generate", "class": "generate", "message": str(e)}, indent=1))
    ev = os.path.join(build.VERIF, "evidence", pid + ".json")
    build.write(ev, json.dumps({"property": pid, "level": "exploration", "tier": os.environ.get("VERIF_TIER", "quick"), "seed": 1, "wall_s": 0, "violations": 1,
                                "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the generated code has to build before anything runs", "samples": [str(e)[:300]]}, "assumptions": None}))
    print("%s: %s" % (pid, e))
    print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
    return 1


def main(a):
    try:
        if a[0] == "check":
            tier = a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick")
            try:
                rc = check(a[1], tier)
            except build.GeneratedError as e:
                rc = generated(a[1], e)
            return rc if rc in (0, 1) else 2
        if a[0] == "build":
            print(binary(a[1]))
            return 0
        if a[0] == "setup":
            build.tool()
            for p in sorted(props.PROPS) if len(a) > 1 else []:
                binary(p)
            return 0
        if a[0] == "replay":
            r = json.load(open(a[1]))
            if r["scenario"] == "generate":
                try:
                    check(r["property"], "quick")
                except build.GeneratedError as e:
                    return generated(r["property"], e)
                return 0
            return subprocess.run([binary(r["property"]), "-replay", os.path.abspath(a[1])], env=build.env()).returncode
    except build.BuildError as e:
        print("BUILD ERROR: %s" % e, file=sys.stderr)
        return 2
    print(__doc__, file=sys.stderr)
    return 2


sys.exit(main(sys.argv[1:]))
