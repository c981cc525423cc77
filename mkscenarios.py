#!/usr/bin/env python3
"""Rebuild spec/scenarios.jsonl: behaviours of the algorithm model that go wrong when the algorithm is
changed in one way or another (SyncImpl's Bug), a few different ones for each.

    mkscenarios.py [name ...]      (the others are kept)
"""
import json, os, subprocess, sys, tempfile

ROOT = os.path.dirname(os.path.abspath(__file__))
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
OUT = os.path.join(ROOT, "spec", "scenarios.jsonl")
ALL = "load,put,take,drop,hold"
# name: (deviations, budget, held, parts, part, operations, how many to keep)
TABLE = {
    "noTagCheck": ("noTagCheck", 2, 1, 8, 1, "put,take,drop", 8),
    "dropNoGen": ("dropNoGen", 2, 1, 8, 1, "put,take,drop", 8),
    "noOwnGen": ("noOwnGen", 2, 1, 8, 1, "put,take,drop", 8),
    "noRootGen": ("noRootGen", 2, 1, 8, 1, "put,take,drop", 8),
    "dropLateGen": ("dropLateGen", 2, 1, 8, 1, "put,take,drop", 8),
    "cloneNothing": ("cloneNoGen,cloneTag0", 2, 1, 10, 3, "load,put,take,drop", 8),
    "cloneTarget": ("cloneTag0,noTargetGen", 2, 1, 10, 3, "load,put,take,drop", 6),
    "tagTarget": ("noTagCheck,noTargetGen", 2, 1, 10, 3, "load,put,take,drop", 6),
    "dupDirty": ("dupDirty", 2, 1, 60, 3, ALL, 4),
    "lateTag": ("lateTag", 2, 1, 60, 3, ALL, 8),
    "oneLess": ("oneLess", 2, 1, 60, 3, ALL, 6),
    "noKids": ("noKids", 2, 1, 60, 3, ALL, 6),
    "keepWeak": ("keepWeak", 2, 1, 60, 3, ALL, 4),
    "noLastSweep": ("noLastSweep", 2, 1, 60, 3, ALL, 6),
    "dropNoWeak": ("dropNoWeak", 1, 2, 20, 1, "put,take,drop", 6),
    "noWeakRoot": ("noWeakRoot", 2, 1, 20, 1, "put,take,drop,load", 6),
    "noTagStep": ("noTagStep", 2, 1, 20, 1, "put,take,drop", 6),
}


def config(bugs, budget, held, parts, part, ops, threads=2, n=3, gone=0):
    return {"n": n, "k": 2, "fixed": 1, "p": 8, "threads": threads, "budget": budget, "ops": ops.split(","),
            "colls": 1, "bug": bugs.split(",") if bugs else [], "spare": 0, "held": held, "log": 1, "gone": gone, "old": 1,
            "parts": parts, "part": part}


def scenarios(lines):
    out = {l.strip().strip('"').replace('\\"', '"')[9:] for l in lines if l.startswith('"SCENARIO ')}
    return [json.loads(s) for s in sorted(out)]


def shape(sc):
    """What makes scenarios different from each other."""
    return json.dumps([[o[0] for o in v] for v in sc["log"].values()]), len(sc["dirty"]), \
        sum(p > 0 for row in sc["slot"] for p in row)


def choose(scs, n):
    """n scenarios, of as many shapes as possible, short ones first."""
    groups = {}
    for s in scs:
        groups.setdefault(shape(s), []).append(s)
    order = sorted(groups, key=lambda g: (len(g[0]), g[2], g))
    out = []
    while len(out) < n and any(groups.values()):
        for g in order:
            if groups[g] and len(out) < n:
                out.append(groups[g].pop(len(groups[g]) // 2))
    return out


def run(name, workers=6):
    bugs, budget, held, parts, part, ops, n = TABLE[name]
    with tempfile.TemporaryDirectory() as d:
        cfg = os.path.join(d, "c.json")
        json.dump(config(bugs, budget, held, parts, part, ops), open(cfg, "w"))
        r = subprocess.run(["java", "-XX:+UseParallelGC", "-Xmx8g", "-Xss64m", "-cp", JAR, "tlc2.TLC", "-workers",
                            str(workers), "-metadir", os.path.join(d, "m"), "-noGenerateSpecTE", "-config",
                            "SyncRep.cfg", "SyncMC.tla"], cwd=os.path.join(ROOT, "spec"),
                           env=dict(os.environ, SYNCCFG=cfg), capture_output=True, text=True)
    scs = scenarios(r.stdout.splitlines())
    print(name, len(scs), flush=True)
    return choose(scs, n)


def main():
    old = {}
    if os.path.exists(OUT):
        for l in open(OUT):
            d = json.loads(l)
            old.setdefault(d["name"], []).append(d)
    for name in sys.argv[1:] or TABLE:
        old[name] = [dict(s, name=name) for s in run(name)]
        with open(OUT, "w") as f:
            for n in sorted(old):
                for s in old[n]:
                    f.write(json.dumps(s, separators=(",", ":")) + "\n")


if __name__ == "__main__":
    main()
