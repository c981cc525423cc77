"""What each property is checked on.  A campaign is a family of programs and the kinds of contract
violations that count against the property."""
import json, os, random

import derives, mkscenarios, reentrant, scenarios, visits

K = None  # the check module

BASIC = ["new", "new", "clone", "link", "link", "link", "store", "drop", "drop", "drop", "load", "load2",
         "take", "cut", "swap", "tderef"]


def flags(n, **kw):
    return ",".join(["n=%d" % n] + ["%s=%s" % kv for kv in kw.items()])


def lines(tag, progs, rnd, iso=0, pre="", post="", reuse=0.0, sch=None):
    out = []
    for k, (n, text) in enumerate(progs):
        kw = {"hs": rnd.randrange(1, 1000)}
        if iso:
            kw["iso"] = 1
        if reuse and rnd.random() < reuse:
            kw["reuse"] = 1
        if sch:
            kw["sch"] = sch(rnd)
            kw["seed"] = rnd.randrange(1, 1 << 30)
        body = text.lstrip(";").strip()
        first, _, others = body.partition(";")
        first = (pre(rnd) if callable(pre) else pre) + " " + first.strip() + " " + post
        out.append("P %s%d %s ; %s%s" % (tag, k, flags(n + 0, **kw), first.strip(),
                                         (" ;" + others) if others else ""))
    return out


def scale(q, t):
    return t if K.THOROUGH else q


def policies(rnd):
    x = rnd.random()
    if x < 0.25:
        return "rand:%d" % rnd.choice([5, 10, 20])
    if x < 0.5:
        return "rand:%d" % rnd.choice([30, 50, 80])
    return "pct:%d:%d" % (rnd.choice([1, 2, 3, 4, 5]), rnd.choice([40, 80, 150, 300]))


class U:
    """Helpers around one check."""

    def __init__(self, prop, watch, nightly=False):
        self.rnd = random.Random("%s/%d" % (prop, K.SEED))
        self.c = K.Campaign(prop, watch, K.build(nightly))
        self.seed = K.SEED * 131 + int(prop[1:])
        self.full = {}

    def rand(self, tag, cfg, num, **kw):
        self.seed += 1
        if self.c.nviol:
            return
        ps = K.gen_random(cfg, num, self.seed)
        self.c.run(tag, lines(tag, ps, self.rnd, **kw))

    def sweep(self, tag, cfg, num, schedules, **kw):
        """Each program under many schedules with few, systematically placed switches."""
        self.seed += 1
        if self.c.nviol:
            return
        ps = [p for p in K.gen_random(cfg, num, self.seed) for _ in range(schedules)]
        nt = cfg["threads"]
        state = {"n": 0}

        def sch(rnd):
            k = state["n"] % schedules
            state["n"] += 1
            t = rnd.randrange(1, nt + 1)
            m = 1 + k * 100 // schedules
            x = rnd.random()
            if x < 0.5:      # everything happens after m steps of the main thread
                q = [(0, m), (t, 9999)]
            elif x < 0.75:   # ... after m steps of the main thread and some of the other
                q = [(t, rnd.randrange(1, 40)), (0, m), (t, 9999)]
            else:
                q = [(0, m), (t, rnd.randrange(1, 40)), (0, rnd.randrange(1, 40)), (t, 9999)]
            return "runs:" + ":".join("%d.%d" % z for z in q)
        self.c.run(tag, lines(tag, ps, self.rnd, sch=sch, **kw))

    def replay(self, tag, scs, points, extra=0):
        """Behaviours of the algorithm model: what the threads do happens at each of `points` points of
        a collection, then the collection goes on; `extra` further runs with two such places."""
        if self.c.nviol:
            return
        ps, schs = [], []
        for sc in scs:
            p = scenarios.program(sc)
            if not p:
                continue
            n, text, before, after = p
            pre = ":".join("%d.@%d" % (t + 1, b) for t, b in enumerate(before))
            nt = len(before)
            for m in points(self.rnd):
                order = list(range(1, nt + 1))
                self.rnd.shuffle(order)
                s = "runs:" + pre + ":0.%d:" % m + ":".join("%d.@%d" % (t, after[t - 1]) for t in order)
                ps.append((n, text))
                schs.append(s + ":0.99999:1.99999")
            for _ in range(extra):
                t = self.rnd.randrange(1, nt + 1)
                m = sorted(self.rnd.randrange(1, 120) for _ in range(2))
                k = self.rnd.randrange(1, 25)
                ps.append((n, text))
                schs.append("runs:%s:0.%d:%d.%d:0.%d:%d.@%d:0.99999:1.99999"
                            % (pre, m[0], t, k, m[1] - m[0] + 1, t, after[t - 1]))
        it = iter(schs)
        self.full[tag] = {"scenarios": len(scs), "runs": len(ps)}
        self.c.run(tag, lines(tag, ps, self.rnd, iso=1, pre="o:1:n", post=DROPALL + " k:1", sch=lambda r: next(it)))

    def algorithm(self, tag, budget, parts, ops):
        """Model check the algorithm itself on the part of all small heaps that the seed selects."""
        if self.c.nviol:
            return
        cfg = mkscenarios.config("", budget, 1, parts, self.rnd.randrange(parts), ops)
        cfg["log"] = 0
        ok, out, st = K.model("SyncMC", "SyncMC.cfg", env={"SYNCCFG": K.cfgfile(cfg)})
        if not ok:
            raise K.Broken("the algorithm model is not correct:\n" + K.tail(out))
        self.full[tag] = {"model": "SyncMC", "part": "%d of %d" % (cfg["part"], parts), "distinct_states": st}
        K.log("%s: %d states of the algorithm model" % (tag, st))

    def fresh(self, name):
        """Scenarios of a changed algorithm on another part of the heaps than the recorded ones."""
        bugs, budget, held, parts, part, ops, n = mkscenarios.TABLE[name]
        cfg = mkscenarios.config(bugs, budget, held, parts, self.rnd.randrange(parts), ops)
        ok, out, st = K.model("SyncMC", "SyncRep.cfg", env={"SYNCCFG": K.cfgfile(cfg)})
        return mkscenarios.choose(mkscenarios.scenarios(open(out)), 2 * n)

    def reenter(self, tag, scs, dom, always=0):
        """Behaviours of the algorithm with destructors."""
        if self.c.nviol:
            return
        ps = [reentrant.program(s, dom, "us"[dom], always) for s in scs]
        ps = [p for p in ps if p]
        self.full[tag] = {"scenarios": len(scs), "runs": len(ps)}
        self.c.run(tag, lines(tag, ps, self.rnd, iso=dom, pre="o:%d:n" % dom))

    def recorded(self):
        """What goes wrong with a changed algorithm."""
        scs = [json.loads(l) for l in open(os.path.join(K.SPEC, "reentrant.jsonl"))]
        for dom in (0, 1):
            self.reenter("e" + "us"[dom], scs, dom)

    def destructors(self, limit):
        """Model check the thread-local algorithm with destructors on the part of all small heaps that the
        seed selects, and run its behaviours, with each of the collectors."""
        self.recorded()
        if self.c.nviol:
            return
        size = dict(reentrant.LARGE, parts=scale(60, 10)) if self.rnd.random() < 0.5 else \
            dict(reentrant.SMALL, parts=scale(60, 10))
        parts = size["graphs"] * size["parts"] * size["every"]
        always = self.rnd.randrange(2)
        cfg = reentrant.config(size, self.rnd.randrange(parts), always=always)
        ok, out, st = K.model("UnsyncMC", "UnsyncGen.cfg", env={"UNSYNCCFG": K.cfgfile(cfg)})
        if not ok:
            raise K.Broken("the algorithm model is not correct:\n" + K.tail(out))
        scs = reentrant.scenarios(open(out))
        self.full["h"] = {"model": "UnsyncMC", "values": size["n"], "part": "one of %d" % parts, "distinct_states": st,
                          "behaviours": len(scs)}
        K.log("h: %d states of the algorithm model, %d behaviours" % (st, len(scs)))
        for dom in (0, 1):
            self.reenter("h" + "us"[dom], self.rnd.sample(scs, min(limit, len(scs))), dom, always)

    def graph(self, tag, cfg, limit, **kw):
        if self.c.nviol:
            return
        ps, full = K.gen_graph(cfg, limit, self.rnd)
        self.full[tag] = {"enumerated": full, "run": len(ps)}
        self.c.run(tag, lines(tag, ps, self.rnd, **kw))

    def big(self, limit, doms=(0, 1)):
        """Large heaps, many pointers, many collections."""
        for dom in doms:
            if self.c.nviol:
                return
            cfg = dict(dom=dom, kind="us"[dom], sizes=[12, 19, 36, 70], widths=[7, 11, 17, 32, 40], counts=[126, 127, 128, 254, 255, 256, 257],
                       runs=[0, 40, 80, 120, 160, 200, 240], conds=["n", "a"])
            ps, full = K.gen_graph(cfg, 0, self.rnd, "GcBig")
            fam = {}
            for n, p in ps:
                f, p = p.split(" ", 1)
                fam.setdefault(f, []).append((n, p))
            ps = [p for q in fam.values() for p in self.rnd.sample(q, min(len(q), limit // len(fam) if limit else full))]
            tag = "l" + "us"[dom]
            self.full[tag] = {"enumerated": full, "run": len(ps)}
            self.c.run(tag, lines(tag, ps, self.rnd, iso=dom))


def conds(dom):
    def f(rnd):
        return "o:%d:%s" % (dom, rnd.choice("nna3dD"))
    return f


SK = ["s"] * 6 + ["sh", "sh", "sl", "snw", "sv", "sb", "sa", "sz"]
UK = ["u"] * 6 + ["uh", "uh", "ul", "unm", "uv", "ub", "ua", "uz", "unw"]
SYNC = dict(dom=[1], kinds=SK)
UN = dict(dom=[0], kinds=UK)
DROPALL = " ".join("d:%d" % r for r in range(8))


def both(u, tag, cfg, nu, ns, conds_=True, **kw):
    """The same campaign for both collectors."""
    c = dict(cfg)
    c.update({k: v for k, v in UN.items() if k not in cfg})
    u.rand(tag + "u", c, nu, pre=conds(0) if conds_ else "o:0:n", post=DROPALL + " k:0", **kw)
    c = dict(cfg)
    c.update(SYNC)
    if "skinds" in cfg:
        c["kinds"] = cfg["skinds"]
    if "sscripts" in cfg:
        c["scripts"] = cfg["sscripts"]
    u.rand(tag + "s", c, ns, iso=1, pre=conds(1) if conds_ else "o:1:n", post=DROPALL + " k:1", **kw)


def giveup(u, tag, nu, ns):
    """Destructors let go of what the program left for them, and of their own."""
    sc = ["", "", "d0", "d0", "d1", "d0.d1", "e0.d0"]
    both(u, tag, dict(ops=["new", "new", "link", "link", "link", "link", "store", "clone", "stash", "stash", "drop",
                           "drop", "drop", "drop", "collect", "tderef"], scripts=sc, sscripts=sc, stash=[0, 1], objs=3,
                      regs=5, setup=24), nu, ns, conds_=False)


def alone(u, n, m):
    """The thread-safe collector with a single thread: graphs and histories."""
    u.graph("gs", dict(n=3, kinds=["s"], dom=1, conds=["n", "a"]), n, iso=1)
    u.rand("rs", dict(SYNC, ops=BASIC + ["collect", "deref", "link"], init=1, objs=6, regs=6, setup=30), m, iso=1,
           pre=conds(1), post=DROPALL + " k:1")


def C01():
    u = U("C01", ["liveNone"])
    u.graph("g3", dict(n=3, kinds=["u"], dom=0, conds=["n", "a"]), scale(4000, 0))
    ops = BASIC + ["collect", "deref", "tclone"]
    u.rand("r1", dict(ops=ops, kinds=["u", "u", "uh", "ul", "uv", "unm"], init=1, objs=5, regs=5, setup=24),
           scale(1500, 12000), pre=conds(0))
    u.rand("r2", dict(ops=ops + ["link", "new", "new"], kinds=["u", "u", "uh", "ul"], objs=9, regs=7, setup=45),
           scale(600, 6000), pre=conds(0), reuse=0.5)
    u.destructors(scale(800, 6000))
    u.big(scale(160, 0), [0])
    return u


def C02():
    u = U("C02", ["leakU", "notFreed", "prompt"])
    u.graph("g3", dict(n=3, kinds=["u"], dom=0, conds=["n", "3"]), scale(4000, 0))
    u.graph("g2", dict(n=2, kinds=["u", "uv", "ul", "ub", "unm"], dom=0), scale(1000, 0))
    u.rand("r1", dict(ops=BASIC + ["collect", "link", "link"], kinds=["u", "u", "uh", "ul", "uv"], init=1,
                      objs=6, regs=5, setup=26), scale(1200, 10000), pre=conds(0), post=DROPALL + " k:0")
    u.rand("r2", dict(ops=BASIC + ["collect", "link", "link", "new"], kinds=["u", "u", "uh"], objs=10, regs=6, setup=48),
           scale(500, 5000), pre="o:0:n", post=DROPALL + " k:0")
    u.recorded()
    u.big(scale(160, 0), [0])
    return u


def C03():
    u = U("C03", ["prompt", "promptS", "notFreed"])
    ops = ["new", "new", "clone", "link", "store", "store", "store", "drop", "drop", "load", "take", "cut",
           "tderef", "collect"]
    both(u, "r", dict(ops=ops, init=1, objs=6, regs=4, setup=26), scale(1500, 10000), scale(1200, 8000), reuse=0.3)
    u.graph("gu", dict(n=3, kinds=["u"], dom=0), scale(1500, 0))
    u.graph("gs", dict(n=3, kinds=["s"], dom=1), scale(1200, 0), iso=1)
    # values without pointers inside, shared between threads
    conc(u, "t", scale(500, 4000), dict(kinds=["s", "s", "sl", "sl", "sa", "sz"], setup=8, body=6))
    u.big(scale(80, 0))
    return u


def C04():
    u = U("C04", ["layout", "notFreed"])
    uk = ["u", "uh", "ul", "ua", "uz", "ub", "uv", "unm", "ubm", "uvm", "unw"]
    sk = ["s", "sh", "sl", "sa", "sz", "sb", "sv", "snw"]
    both(u, "r", dict(ops=BASIC + ["collect", "tls"], kinds=uk, skinds=sk, init=1, objs=7, regs=5, setup=28,
                      scripts=["", "", "t0.t1"], sscripts=["", "", "t0.t1"]),
         scale(1200, 10000), scale(1000, 8000), reuse=0.5)
    giveup(u, "v", scale(600, 5000), scale(400, 3000))
    sc = ["", "", "p", "e0.p"]
    both(u, "p", dict(ops=BASIC + ["collect"], kinds=uk, skinds=sk, scripts=sc, sscripts=sc, objs=6, regs=5, setup=26),
         scale(500, 4000), scale(400, 3000))
    u.graph("gu", dict(n=2, kinds=uk, dom=0, conds=["n"]), scale(1500, 0))
    u.graph("gs", dict(n=2, kinds=sk, dom=1, conds=["n"]), scale(1200, 0), iso=1)
    u.recorded()
    u.big(scale(80, 0))
    return u


C05S = ["", "t0.t1", "D0.D1", "K0.K1", "c00.c11", "m00.m11", "c02", "m12", "t0.c01.t1.m12", "m00.t1"]


def C05():
    u = U("C05", ["deadSome", "liveNone", "leakU", "leakS"])
    u.graph("gu", dict(n=2, kinds=["u"], scripts=C05S, dom=0, conds=["n", "a"], stash=[0, 1, 2]), scale(2500, 0))
    u.graph("gs", dict(n=2, kinds=["s"], scripts=C05S, dom=1, conds=["n"], stash=[0, 1, 2]), scale(1500, 0), iso=1)
    both(u, "r", dict(ops=BASIC + ["collect", "unstash", "unstash", "link"], scripts=C05S, sscripts=C05S,
                      stash=[0, 1, 2], objs=6, regs=5, setup=28), scale(1200, 10000), scale(1000, 8000))
    u.destructors(scale(1000, 8000))
    conc(u, "t", scale(600, 5000), dict(objs=3, scripts=C05S, stash=[0, 1, 2], tops=CONC["tops"] + ["unstash"]))
    return u


CONC = dict(threads=2, gifts=2, setup=9, body=5, mainbody=3, tail=2, objs=4, regs=4, release=60,
            ops=["new", "new", "link", "link", "link", "store", "clone"],
            tops=["clone", "drop", "drop", "load", "load", "load2", "store", "link", "take", "cut", "swap",
                  "collect", "collect", "deref", "linkl", "storel"],
            fops=["drop", "collect"], dom=[1], kinds=SK, init=1)


def conc(u, tag, n, cfg=None, **kw):
    c = dict(CONC)
    c.update(cfg or {})
    u.rand(tag, c, n, iso=1, pre=conds(1), post=DROPALL + " k:1", sch=policies, **kw)


MUT = ["take", "take", "cut", "drop", "drop", "drop", "load", "load2", "store", "link", "swap", "clone", "deref"]


def sweep(u, tag, n, k, cfg=None, **kw):
    """One thread collects, the other changes the graph."""
    c = dict(CONC, threads=1, gifts=2, setup=8, body=3, mainbody=2, objs=3, release=85, tops=MUT,
             mops=["collect"])
    c.update(cfg or {})
    u.sweep(tag, c, n, k, iso=1, pre="o:1:n", post=DROPALL + " k:1", **kw)


def recorded():
    return [json.loads(l) for l in open(os.path.join(K.SPEC, "scenarios.jsonl"))]


def concurrent(u, share=3):
    """share: one out of so many of the recorded scenarios is replayed"""
    scs = recorded()
    if share > 1 and not K.THOROUGH:
        scs = u.rnd.sample(scs, len(scs) // share)
    if K.THOROUGH:
        u.replay("m", scs, lambda r: range(1, 110), extra=100)
        for name in u.rnd.sample(sorted(mkscenarios.TABLE), 4):
            u.replay("m" + name, u.fresh(name), lambda r: range(1, 110))
    else:
        u.replay("m", scs, lambda r: range(r.choice([1, 2]), 80, 2), extra=4)
    u.algorithm("k", 2, scale(900, 60), mkscenarios.ALL)
    conc(u, "a", scale(1500, 12000))
    # two values, short programs, everything gone: the classic races
    conc(u, "b", scale(1500, 12000), dict(objs=2, setup=5, body=3, mainbody=1, gifts=1, release=100))
    conc(u, "c", scale(700, 6000), dict(objs=5, threads=3, setup=12, body=4))
    sweep(u, "s", scale(80, 600), scale(30, 60))
    sweep(u, "q", scale(40, 400), scale(20, 60), dict(gifts=1, objs=3, body=4))
    conc(u, "d", scale(500, 4000), dict(objs=3, scripts=["", "t0.t1", "e0", "c00", "m01", "d0", "n1"],
                                        stash=[0, 1], tops=CONC["tops"] + ["unstash"]))


def C06():
    u = U("C06", ["liveNone"])
    concurrent(u, 1)
    alone(u, scale(1000, 0), scale(1000, 8000))
    u.big(scale(160, 0), [1])
    return u


def C07():
    u = U("C07", ["leakS"])
    concurrent(u)
    alone(u, scale(1000, 0), scale(1000, 8000))
    u.big(scale(160, 0), [1])
    return u


def C08():
    u = U("C08", [])
    concurrent(u)
    conc(u, "e", scale(600, 5000), dict(objs=3, scripts=["", "g1", "n1", "Y1", "e0.g1", "d0"], stash=[0]))
    # ending threads whose last drops make collections
    conc(u, "x", scale(1000, 8000), dict(objs=5, ops=CONC["ops"] + ["tls", "tls"], scripts=["", "", "g1", "e0.g1"],
                                         tops=BASIC + ["tls", "tls", "link", "link"], body=9, setup=4, mainbody=1))
    u.rand("y", dict(CONC, threads=1, objs=5, setup=4, gifts=1, body=12, mainbody=1, ops=CONC["ops"] + ["tls"],
                     tops=BASIC + ["tls", "link", "link", "store"]), scale(400, 3000), iso=1, pre="o:1:n",
           post=DROPALL + " k:1", sch=policies)
    return u


def C09():
    u = U("C09", ["layout", "notFreed"])
    concurrent(u)
    u.big(scale(80, 0), [1])
    return u


def C10():
    u = U("C10", ["cntN", "cntD"])
    u.graph("gu", dict(n=2, kinds=["u"], dom=0, conds=["n", "a", "d"], probe=1), scale(0, 0))
    u.graph("gs", dict(n=2, kinds=["s"], dom=1, conds=["n", "d"], probe=1), scale(0, 0), iso=1)
    both(u, "r", dict(ops=BASIC + ["collect", "probe", "probe", "cond"], conds=["n", "a", "d", "3", "D"], init=1,
                      objs=6, regs=5, setup=28), scale(1200, 10000), scale(1000, 8000))
    both(u, "s", dict(ops=BASIC + ["collect", "probe", "probe", "unstash"], stash=[0, 1],
                      scripts=["", "t0", "c00", "m01", "d0", "n0", "e0"],
                      sscripts=["", "t0", "c00", "m01", "d0", "n1", "e0"], objs=6, regs=5, setup=28),
         scale(800, 6000), scale(700, 5000))
    u.recorded()
    u.big(scale(80, 0))
    return u


def C11():
    u = U("C11", ["condWrong", "condDefault", "condCount", "condTrue", "condFalse", "cntD"])
    both(u, "r", dict(ops=BASIC + ["cond", "cond", "collect"], conds=["n", "a", "d", "3", "D"], init=1,
                      objs=6, regs=5, setup=28), scale(1500, 10000), scale(1200, 8000))
    u.rand("z", dict(ops=["new", "clone", "link", "drop", "collect", "many", "probe"], kinds=["s"], dom=[1], objs=3,
                     regs=3, setup=8), scale(40, 200), iso=1, pre=conds(1), post=DROPALL + " k:1")
    u.rand("d", dict(ops=BASIC + ["link", "probe"], kinds=["u", "u", "ul"], objs=6, regs=5, setup=28),
           scale(800, 6000), pre="o:0:D")
    c = dict(CONC, kinds=["u", "u", "s", "s", "ul"], dom=[0, 1], threads=2, body=12, setup=8,
             ops=CONC["ops"] + ["cond"], tops=BASIC + ["cond", "collect"], conds=["n", "a", "d", "3", "D"])
    u.rand("t", c, scale(600, 5000), iso=1, post=DROPALL + " k:1", sch=policies)
    # threads end and leave garbage while the drops of others make them collect
    c = dict(CONC, kinds=["s"], threads=3, body=6, setup=3, mainbody=6, gifts=0, objs=8,
             ops=["new"], tops=["new", "link", "link", "drop", "drop", "clone"])
    u.rand("h", c, scale(1000, 8000), iso=1, pre="o:1:a", post=DROPALL + " k:1", sch=policies)
    return u


def C12():
    u = U("C12", ["leakExit", "leakS", "leakHanded", "prompt"])
    c = dict(CONC, kinds=["u", "u", "s", "s", "ul", "sl"], dom=[0, 1], threads=2, body=12, setup=6, mainbody=1,
             ops=CONC["ops"] + ["tls"], tops=BASIC + ["tls", "tls", "link"], objs=7)
    u.rand("t", c, scale(1200, 10000), iso=1, pre=conds(1), post=DROPALL + " k:1", sch=policies)
    u.rand("x", dict(ops=BASIC + ["tls", "tls", "link"], kinds=["u", "u", "ul"], objs=6, regs=5, setup=22),
           scale(1000, 8000), pre=conds(0))
    u.rand("y", dict(ops=BASIC + ["tls", "tls", "link"], kinds=["s", "s", "sl", "u"], objs=6, regs=5, setup=22),
           scale(700, 6000), iso=1, pre=conds(1))
    # a thread ends, and drops what it kept, while another one collects
    sweep(u, "w", scale(60, 500), scale(25, 60), dict(ops=CONC["ops"], tops=["tls", "tls", "link", "store", "drop", "clone"],
                                                      body=4, gifts=1, objs=2, setup=5, release=100))
    # destructors that leave garbage just before a thread ends
    both(u, "v", dict(ops=BASIC + ["collect", "collect", "stash", "stash", "link"], scripts=["", "d0", "d1", "m00"],
                      sscripts=["", "d0", "d1", "m00"], stash=[0, 1], objs=5, regs=4, setup=22),
         scale(1000, 8000), scale(500, 4000), conds_=False)
    c = dict(CONC, kinds=["s"], threads=1, body=9, setup=1, mainbody=6, gifts=0, objs=5,
             ops=["new"], tops=["new", "link", "link", "drop", "drop", "many", "collect"])
    u.rand("z", c, scale(80, 400), iso=1, pre="o:1:n", post=DROPALL + " k:1", sch=policies)
    u.big(scale(80, 0))
    return u


def C13():
    u = U("C13", ["leakU", "leakS", "prompt", "promptS", "liveNone"])
    ops = BASIC + ["hold", "hold", "release", "collect", "link", "linkl", "storel"]
    both(u, "r", dict(ops=ops, kinds=["u", "unm", "unw", "uv", "uvm", "ub", "uhm"], skinds=["s", "snw", "sv", "s", "shw"], init=1,
                      objs=5, regs=6, setup=28), scale(1500, 10000), scale(1200, 8000))
    # guards that are never released
    both(u, "f", dict(ops=BASIC + ["forget", "collect", "link", "link", "drop"],
                      kinds=["u", "unm", "unw", "uv", "uvm", "uh"], skinds=["s", "snw", "sv", "sh"], init=1, objs=5,
                      regs=6, setup=28), scale(800, 6000), scale(600, 5000))
    conc(u, "c", scale(500, 4000), dict(tops=CONC["tops"] + ["linkl", "storel", "linkl"]))
    return u


def C16():
    u = U("C16", ["ptrEq", "asPtr", "valEq", "liveNone"])
    both(u, "r", dict(ops=BASIC + ["eq", "eq", "eq", "deref", "collect", "tclone"], init=1,
                      kinds=["u", "ul", "ua", "uz", "ub", "uv", "unm"], skinds=["s", "sl", "sa", "sz", "sb", "sv"],
                      objs=6, regs=5, setup=28), scale(1500, 10000), scale(1000, 8000), reuse=0.5)
    return u


def C17():
    u = U("C17", ["leakU", "leakS", "leakExit", "prompt", "promptS", "notFreed", "liveNone"])
    m = dict(kinds=["u", "u", "s", "s", "ul", "sl", "unm"], dom=[0, 1])
    u.rand("r", dict(m, ops=BASIC + ["collect", "link", "tls"], init=1, objs=7, regs=6, setup=30), scale(1500, 10000),
           iso=1, pre=lambda r: conds(0)(r) + " " + conds(1)(r), post=DROPALL + " k:0 k:1")
    c = dict(CONC, **m)
    c.update(threads=2, body=8, setup=8, objs=7, tops=BASIC + ["collect", "link"])
    u.rand("t", c, scale(600, 5000), iso=1, pre=conds(1), post=DROPALL + " k:0 k:1", sch=policies)
    u.rand("x", dict(m, ops=BASIC + ["collect", "link", "unstash"], stash=[0, 1],
                     scripts=["", "t0", "c00", "e0", "m01", "n1", "g1", "g0"], objs=7, regs=6, setup=30),
           scale(800, 6000), iso=1, pre=lambda r: conds(0)(r) + " " + conds(1)(r), post=DROPALL + " k:0 k:1")
    return u


def C18():
    u = U("C18", ["leakU", "leakS", "prompt", "liveNone", "deadSome", "condFalse", "notFreed"])
    sc = ["", "", "p", "t0.p", "e0.p", "c00.p"]
    u.graph("gu", dict(n=2, kinds=["u"], scripts=["", "p", "c00.p"], dom=0, conds=["n", "a"], stash=[0]), scale(1500, 0))
    u.graph("gs", dict(n=2, kinds=["s"], scripts=["", "p", "c00.p"], dom=1, conds=["n"], stash=[0]), scale(1000, 0), iso=1)
    both(u, "r", dict(ops=BASIC + ["collect", "poison", "unstash"], scripts=sc, sscripts=sc, stash=[0],
                      kinds=["u", "unm", "unw"], skinds=["s", "snw"], objs=6, regs=5, setup=28),
         scale(1200, 8000), scale(1000, 6000))
    both(u, "q", dict(ops=BASIC + ["collect", "poison", "poison", "link"], kinds=["u", "unm", "unw"],
                      skinds=["s", "snw"], objs=5, regs=5, setup=26), scale(600, 5000), scale(600, 5000))
    return u


def C19():
    u = U("C19", ["leakU", "leakS", "prompt", "promptS", "liveNone", "deadSome", "notFreed"])
    us = ["", "g0", "n0", "N01", "Y0", "d0", "N02.d2", "e0", "e0.e1", "g0.t0.e0", "n0.g0", "c00.d0", "m00.S10", "K0.g0"]
    ss = [x.replace("g0", "g1").replace("n0", "n1").replace("N0", "N1").replace("Y0", "Y1") for x in us]
    u.graph("gu", dict(n=2, kinds=["u"], scripts=us[:9], dom=0, conds=["n", "a"], stash=[0, 1, 2]), scale(2000, 0))
    u.graph("gs", dict(n=2, kinds=["s"], scripts=ss[:9], dom=1, conds=["n"], stash=[0, 1, 2]), scale(1500, 0), iso=1)
    both(u, "r", dict(ops=BASIC + ["collect", "unstash", "stash", "link"], scripts=us, sscripts=ss, stash=[0, 1, 2],
                      objs=6, regs=5, setup=28), scale(1500, 10000), scale(1200, 8000))
    giveup(u, "v", scale(800, 6000), scale(500, 4000))
    u.destructors(scale(1200, 10000))
    return u


def C20():
    u = U("C20", ["leakU", "leakS", "prompt", "promptS", "liveNone", "deadSome", "notFreed", "layout", "ptrEq",
                  "asPtr", "valEq", "cntN"], nightly=True)
    both(u, "r", dict(ops=BASIC + ["collect", "coerce", "coerce", "eq", "deref", "probe"], init=1,
                      kinds=["u", "ub", "uv", "uvm"], skinds=["s", "sb", "sv"],
                      scripts=["", "", "t0.t1", "c00", "m01"], sscripts=["", "", "t0.t1", "c00", "m01"],
                      objs=6, regs=5, setup=30), scale(1500, 10000), scale(1200, 8000), reuse=0.3)
    return u


VISITS = {"C14": visits.C14, "C15": derives.C15}
TABLE = {k: v for k, v in globals().items() if len(k) == 3 and k[0] == "C" and k[1:].isdigit()}


def run(prop, k):
    global K
    K = k
    if prop in VISITS:
        return VISITS[prop](k)
    u = TABLE[prop]()
    return u.c, {"enumerations": u.full}
