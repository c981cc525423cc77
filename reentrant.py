#!/usr/bin/env python3
"""Behaviours of the thread-local algorithm with destructors (UnsyncMC) as programs.

A scenario is a heap, the pointers the program holds and has stashed, what is suspected to be garbage,
what the destructors do, and what the program does.

    reentrant.py [name ...]      rebuild spec/reentrant.jsonl: scenarios that go wrong when the
                                 algorithm is changed (UnsyncImpl's Bug)
"""
import json, os, subprocess, sys, tempfile

ROOT = os.path.dirname(os.path.abspath(__file__))
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
OUT = os.path.join(ROOT, "spec", "reentrant.jsonl")
# UnsyncMC's Scripts
SCRIPTS = ["", "d0", "e0", "c00", "m10", "g", "d0.e0", "e1.d0", "o00", "e0.g", "m00.c11", "d0.d1", "c11.e1", "m01.o11",
           "S01", "S10.d1"]
SMALL = dict(n=2, graphs=1, parts=60, every=5)
LARGE = dict(n=3, graphs=400, parts=20, every=200)
WIDE = dict(n=3, graphs=40, parts=20, every=500)
# name: (size, how many to keep)
TABLE = {
    "oneLess": (SMALL, 8), "noSuspectRoot": (SMALL, 6), "shallow": (LARGE, 8), "shallowSuspect": (SMALL, 8),
    "noClean": (SMALL, 8), "cleanLate": (SMALL, 8), "cleanSkip": (WIDE, 10), "dirtySkip": (SMALL, 10),
    "nested": (SMALL, 8), "nestedAsked": (SMALL, 8), "lateClear": (SMALL, 10), "notDead": (SMALL, 8),
    "countDead": (SMALL, 6), "dropIgnored": (SMALL, 10), "nullAll": (SMALL, 8), "takeCount": (SMALL, 8),
}


def config(size, part, bugs=(), budget=2, always=0):
    return dict(size, k=2, x=2, budget=budget, always=always, bug=list(bugs), part=part)


def scenarios(lines):
    out = {l.strip().strip('"').replace('\\"', '"')[9:] for l in lines if l.startswith('"SCENARIO ')}
    return [json.loads(s) for s in sorted(out)]


def choose(scs, n):
    """n scenarios with as many combinations of destructors and operations as possible, small ones first."""
    def shape(s):
        return json.dumps([sorted(s["sc"]), [o[0] for o in s["log"]]])

    def size(s):
        return sum(x > 1 for x in s["sc"]), sum(p > 0 for row in s["g"] for p in row)
    groups = {}
    for s in sorted(scs, key=lambda s: (size(s), json.dumps(s))):
        groups.setdefault(shape(s), []).append(s)
    out, order = [], sorted(groups, key=lambda g: (size(groups[g][0]), g))
    step = max(1, len(order) // n)
    for g in order[::step] + order:
        if len(out) < n and groups[g]:
            out.append(groups[g].pop(0))
    return out


def program(sc, dom, kind, always=0):
    """-> (number of objects, text), or None"""
    n = len(sc["g"])
    objs = range(1, n + 1)
    held, sus = set(sc["r"]), set(sc["sus"])
    slots = {(o, k): p for o, row in enumerate(sc["g"], 1) for k, p in enumerate(row) if p}
    stash = {x: p for x, p in enumerate(sc["x"]) if p}
    # how the register an object was created in ends up: kept, dropped, in the stash or in a slot
    way, depth = {}, {}
    for o in objs:
        if o in held:
            way[o] = ("keep",)
        elif o in sus:
            way[o] = ("drop",)
    for x, p in sorted(stash.items()):
        way.setdefault(p, ("stash", x))
    frontier = sorted(way)
    depth = {o: 0 for o in way}
    while frontier:
        nxt = []
        for o in frontier:
            for (a, k), p in sorted(slots.items()):
                if a == o and p not in way:
                    way[p] = ("slot", a, k)
                    depth[p] = depth[o] + 1
                    nxt.append(p)
        frontier = nxt
    if len(way) < n:
        return None
    t = []
    for o in objs:
        script = SCRIPTS[sc["sc"][o - 1] - 1].replace("g", "g%d" % dom)
        t.append("n:%d:%d:%s:%s" % (o, o, kind, script or "-"))
    for (a, k), p in sorted(slots.items()):
        if way[p] != ("slot", a, k):
            t += ["c:%d:14" % p, "s:%d:%d:14" % (a, k)]
    for x, p in sorted(stash.items()):
        if way[p] != ("stash", x):
            t += ["c:%d:14" % p, "M:14:%d" % x]
    for o in sorted(objs, key=lambda o: -depth[o]):
        if way[o][0] == "slot":
            t.append("s:%d:%d:%d" % (way[o][1], way[o][2], o))
    for o in objs:
        if way[o][0] == "stash":
            t.append("M:%d:%d" % (o, way[o][1]))
        elif way[o][0] == "keep" and o in sus:
            t += ["c:%d:14" % o, "d:14"]
    for o in objs:
        if way[o][0] == "drop":
            t.append("d:%d" % o)
    if always:
        t.append("o:%d:a" % dom)
    for op in sc["log"]:
        if op[0] == "collect":
            t.append("k:%d" % dom)
        elif op[0] == "drop":
            t.append("d:%d" % op[1])
        elif op[0] == "dstash":
            t += ["m:%d:14" % (op[1] - 1), "d:14"]
        elif op[0] == "cut":
            t += ["t:%d:%d:14" % (op[1], op[2] - 1), "d:14"]
        elif op[0] == "put":
            t += ["m:%d:14" % (op[3] - 1), "s:%d:%d:14" % (op[1], op[2] - 1)]
    t += ["T:%d" % o for o in sorted(held)]
    t.append("k:%d" % dom)
    t += ["T:%d" % o for o in sorted(held)]
    # and everything away
    t += ["d:%d" % o for o in sorted(held)]
    for x in range(len(sc["x"])):
        t += ["m:%d:14" % x, "d:14"]
    t.append("k:%d" % dom)
    return n, "; " + " ".join(t)


def run(name, workers=6):
    size, n = TABLE[name]
    with tempfile.TemporaryDirectory() as d:
        cfg = os.path.join(d, "c.json")
        json.dump(config(size, 3, name.split("+")), open(cfg, "w"))
        r = subprocess.run(["java", "-XX:+UseParallelGC", "-Xmx8g", "-Xss64m", "-cp", JAR, "tlc2.TLC", "-workers",
                            str(workers), "-metadir", os.path.join(d, "m"), "-noGenerateSpecTE", "-config",
                            "UnsyncRep.cfg", "UnsyncMC.tla"], cwd=os.path.join(ROOT, "spec"),
                           env=dict(os.environ, UNSYNCCFG=cfg), capture_output=True, text=True)
    scs = scenarios(r.stdout.splitlines())
    print(name, len(scs), flush=True)
    return choose(scs, n)


def main():
    old = {}
    if os.path.exists(OUT):
        for l in open(OUT):
            d = json.loads(l)
            old.setdefault(d["name"], []).append(d)
    for name in sys.argv[1:] or TABLE:
        old[name] = [dict(s, name=name) for s in run(name)]
        with open(OUT, "w") as f:
            for n in sorted(old):
                for s in old[n]:
                    f.write(json.dumps(s, separators=(",", ":")) + "\n")


if __name__ == "__main__":
    main()
