#!/usr/bin/env python3
"""How tightly the recorded executions are bound to the contract: take accepted traces, change one event in
one way, and count how many of the changed traces are rejected.

    selftest.py [programs per family]

Not a registered check; DESIGN.md quotes its output."""
import copy, json, os, random, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check as K
import campaigns
campaigns.K = K
K.PROP, K.SEED, K.THOROUGH = "selftest", 1, False

rnd = random.Random(5)


def idx(ev, name, f=lambda e: True):
    return [i for i, e in enumerate(ev) if e[0] == name and f(e)]


def without(ev, i):
    return ev[:i] + ev[i + 1:]


def changed(ev, i, k, f):
    ev = copy.deepcopy(ev)
    ev[i][k] = f(ev[i][k])
    return ev


def one(ev, name, f, cond=lambda e: True):
    q = idx(ev, name, cond)
    return f(ev, rnd.choice(q)) if q else None


def lost(ev):
    """a value that is never destroyed"""
    q = idx(ev, "vd")
    if not q:
        return None
    o = ev[rnd.choice(q)][2]
    return [e for e in ev if not (e[0] in ("vd", "ve", "fr") and e[2] == o)]


def early(ev):
    """a value that is destroyed a few events too soon"""
    q = [i for i in idx(ev, "vd") if i > 6]
    if not q:
        return None
    i = rnd.choice(q)
    o = ev[i][2]
    mine = [e for e in ev if e[0] in ("vd", "ve", "fr") and e[2] == o]
    rest = [(k, e) for k, e in enumerate(ev) if e not in mine]
    at = next(n for n, (k, e) in enumerate(rest + [(len(ev), None)]) if k > i) - 4
    rest = [e for _, e in rest]
    if at < 1 or not any(e[0] == "new" and e[2] == o for e in rest[:at]):
        return None
    return rest[:at] + mine + rest[at:]


MUTATIONS = {
    "a destructor call is missing": lambda ev: one(ev, "vd", without),
    "a destructor is called twice": lambda ev: one(ev, "vd", lambda e, i: e[:i] + [e[i]] + e[i:]),
    "a value stays for ever": lost,
    "a value goes too soon": early,
    "memory is not released": lambda ev: one(ev, "fr", without),
    "memory is released twice": lambda ev: one(ev, "fr", lambda e, i: e[:i] + [e[i]] + e[i:]),
    "memory is released with another layout": lambda ev: one(ev, "fr", lambda e, i: changed(e, i, 3, lambda v: 1 - v)),
    "a read finds nothing": lambda ev: one(ev, "rd", lambda e, i: changed(e, i, 4, lambda v: 0), lambda e: e[4] > 0),
    "a read finds another value": lambda ev: one(ev, "rd", lambda e, i: changed(e, i, 4, lambda v: v + 1), lambda e: e[4] > 0),
    "the condition sees one pointer more": lambda ev: one(ev, "cb", lambda e, i: changed(e, i, 4, lambda v: v + 1)),
    "the condition sees one drop less": lambda ev: one(ev, "cb", lambda e, i: changed(e, i, 3, lambda v: v - 1)),
    "the condition is not asked": lambda ev: one(ev, "cb", without),
    "a probe sees one pointer less": lambda ev: one(ev, "pr", lambda e, i: changed(e, i, 4, lambda v: v - 1)),
    "pointer equality inverted": lambda ev: one(ev, "pe", lambda e, i: changed(e, i, 4, lambda v: 1 - v)),
    "address equality inverted": lambda ev: one(ev, "ap", lambda e, i: changed(e, i, 4, lambda v: 1 - v)),
    "value equality inverted": lambda ev: one(ev, "eq", lambda e, i: changed(e, i, 4, lambda v: 1 - v)),
}


def record(tag, cfg, num, dom):
    ps = K.gen_random(dict(dict(campaigns.UN, **{}) if dom == 0 else campaigns.SYNC, **cfg), num, 77 + dom)
    lines = campaigns.lines(tag, ps, rnd, iso=dom, pre="o:%d:d" % dom, post=campaigns.DROPALL + " k:%d" % dom)
    return K.run_programs(K.build(False), lines, tag)


def main():
    num = int(sys.argv[1]) if len(sys.argv) > 1 else 300
    cfg = dict(ops=campaigns.BASIC + ["collect", "probe", "eq", "deref"], objs=5, regs=5, setup=26)
    good = []
    for dom in (0, 1):
        tf = record("b%d" % dom, cfg, num, dom)
        bad = {t["id"] for t, _ in K.judge(tf)}
        good += [d for d in map(json.loads, open(tf)) if d["id"] not in bad]
    print("%d accepted traces" % len(good))
    for name, f in MUTATIONS.items():
        out, kinds = [], {}
        for d in good:
            ev = f(d["ev"])
            if ev is not None:
                out.append(dict(d, ev=ev))
        if not out:
            print("%-42s no such event" % name)
            continue
        p = os.path.join(K.work(), "self.trace")
        with open(p, "w") as fh:
            fh.write("".join(json.dumps(d) + "\n" for d in out))
        bad = K.judge(p)
        for _, ks in bad:
            for k in {k for _, q in ks for k in q}:
                kinds[k] = kinds.get(k, 0) + 1
        print("%-42s %4d of %4d rejected  %s" % (name, len(bad), len(out),
                                                 " ".join("%s:%d" % kv for kv in sorted(kinds.items(), key=lambda x: -x[1])[:5])))


if __name__ == "__main__":
    main()
