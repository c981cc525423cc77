#!/usr/bin/env python3
"""Decide one property:  check.py C01

Programs come out of TLC (spec/GcProg.tla, spec/GcGraph.tla, spec/SyncImpl.tla), run on the real
collectors in the harness, and the recorded executions go back into TLC (spec/GcTrace.tla) to be
judged against the contract (spec/GcHeap.tla).  See DESIGN.md.
"""
import fcntl, hashlib, json, os, random, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, "build")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
T0 = time.time()
sys.path.insert(0, ROOT)


class Broken(Exception):
    """The check itself cannot work (exit 2)."""


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)


# ---------------------------------------------------------------- building

def cargo(features, toolchain, target, pkg="harness"):
    env = dict(os.environ)
    env["RUSTFLAGS"] = "--cfg dumpster_verif"
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, target)
    env["CARGO_NET_OFFLINE"] = "true"
    cmd = ["cargo"] + toolchain + ["build", "--offline", "--locked"] + features
    r = subprocess.run(cmd, cwd=os.path.join(ROOT, pkg), env=env, capture_output=True, text=True)
    return r


def build(nightly=False):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if nightly:
            r = cargo(["--features", "unsized"], ["+nightly"], "nightly")
        else:
            r = cargo([], [], "stable")
        if r.returncode != 0:
            sys.stdout.write(r.stderr[-6000:])
            raise Broken("harness does not build")
        src = os.path.join(BUILD, "nightly" if nightly else "stable", "debug", "gcharness")
        # a private copy: another check may rebuild
        dst = os.path.join(work(), "gcharness-" + ("n" if nightly else "s"))
        shutil.copy2(src, dst)
        return dst


_work = None


def work():
    global _work
    if _work is None:
        base = os.path.join(BUILD, "work")
        os.makedirs(base, exist_ok=True)
        _work = os.path.join(base, "%s-%d" % (PROP, os.getpid()))
        shutil.rmtree(_work, ignore_errors=True)
        os.makedirs(_work)
    return _work


# ---------------------------------------------------------------- TLC

TOTAL = {"states": 0, "transitions": 0, "traces": 0, "events": 0, "programs": 0, "schedule_points": 0,
         "switches": 0}
_n = 0


def tlc(module, env=None, args=(), workers=8, heap="6g", timeout=800, cfg=None):
    global _n
    _n += 1
    meta = os.path.join(work(), "tlc%d" % _n)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JAR, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", (cfg or module + ".cfg")] + list(args) + [module + ".tla"]
    out = os.path.join(work(), "tlc%d.out" % _n)
    with open(out, "w") as f:
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Broken("TLC timeout on " + module)
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, out


def tlc_counts(out):
    st = tr = 0
    for l in open(out, errors="replace"):
        m = re.match(r"(\d+) states generated, (\d+) distinct states found", l)
        if m:
            tr, st = int(m.group(1)), int(m.group(2))
        m = re.match(r"The number of states generated: (\d+)", l)
        if m:
            tr = st = int(m.group(1))
    return st, tr


def tail(out, n=40):
    return "".join(open(out, errors="replace").readlines()[-n:])


def model(module, cfg, env=None, timeout=700, workers=8):
    """Model check; returns True if no error was found."""
    rc, out = tlc(module, env=env, cfg=cfg, timeout=timeout, workers=workers)
    st, tr = tlc_counts(out)
    TOTAL["states"] += st
    TOTAL["transitions"] += tr
    if rc not in (0, 10, 11, 12, 13):
        sys.stdout.write(tail(out))
        raise Broken("TLC failed on %s (%d)" % (cfg, rc))
    return rc == 0, out, st


# ---------------------------------------------------------------- generating programs

ALLU = ["u", "uh", "uhm", "unm", "unw", "ul", "ua", "uz", "ub", "uv", "ubm", "uvm"]


def cfgfile(d):
    global _n
    _n += 1
    f = os.path.join(work(), "gen%d.json" % _n)
    json.dump(d, open(f, "w"))
    return f


def parse_progs(out):
    ps = []
    for l in open(out):
        if l.startswith('"PROG '):
            n, rest = l.strip().strip('"')[5:].split(" ", 1)
            ps.append((int(n), rest))
    return ps


def gen_random(cfg, num, seed):
    """Sample programs with GcProg; several simulators side by side."""
    base = dict(exhaustive=0, setup=20, body=0, mainbody=0, tail=4, threads=0, gifts=0, release=50,
                objs=5, regs=4, ops=["new"], tops=["drop"], fops=["drop", "collect"], mops=[], kinds=["u"],
                ukinds=ALLU, scripts=[""], init=0, dom=[0], conds=["n"], stash=[0])
    base.update(cfg)
    f = cfgfile(base)
    depth = base["setup"] + base["threads"] * (base["body"] + 1) + base["mainbody"] + base["tail"] + 8
    lanes = 4 if num > 200 else 1
    procs = []
    global _n
    for k in range(lanes):
        _n += 1
        meta = os.path.join(work(), "tlc%d" % _n)
        out = os.path.join(work(), "tlc%d.out" % _n)
        e = dict(os.environ, GENCFG=f)
        cmd = ["java", "-XX:+UseSerialGC", "-Xmx1g", "-Xss16m", "-cp", JAR, "tlc2.TLC", "-workers", "1",
               "-metadir", meta, "-noGenerateSpecTE", "-simulate", "num=%d" % ((num + lanes - 1) // lanes),
               "-depth", str(depth), "-seed", str(seed * 1000 + k * 17 + 3), "-config", "GcProg.cfg",
               "GcProg.tla"]
        procs.append((subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=open(out, "w"),
                                       stderr=subprocess.STDOUT), out, meta))
    ps = []
    for p, out, meta in procs:
        try:
            p.wait(timeout=600)
        except subprocess.TimeoutExpired:
            p.kill()
            raise Broken("program generation timed out")
        got = parse_progs(out)
        if not got:
            sys.stdout.write(tail(out))
            raise Broken("no programs generated")
        ps += got
        shutil.rmtree(meta, ignore_errors=True)
    return ps


def gen_graph(cfg, limit, rnd, module="GcGraph"):
    base = dict(n=3, kinds=["u"], scripts=[""], dom=0, conds=["n"], stash=[], probe=0)
    base.update(cfg)
    rc, out = tlc(module, env={"GENCFG": cfgfile(base)}, workers=1)
    ps = parse_progs(out)
    if not ps:
        sys.stdout.write(tail(out))
        raise Broken("no programs generated")
    ps.sort()
    full = len(ps)
    if limit and full > limit:
        ps = rnd.sample(ps, limit)
    return ps, full


# ---------------------------------------------------------------- running and judging

HARD = {"reachU", "reachS", "readBad", "uaf", "crash", "panic", "dropTwice", "dropBad", "freeBad",
        "foreign", "deadlock", "hang"}


def run_programs(binary, lines, tag, jobs=8):
    pf = os.path.join(work(), tag + ".prog")
    of = os.path.join(work(), tag + ".out")
    with open(pf, "w") as f:
        f.write("\n".join(lines) + "\n")
    try:
        r = subprocess.run([binary, "run", pf, of, str(jobs)], capture_output=True, text=True, timeout=800)
    except subprocess.TimeoutExpired:
        raise Broken("harness timed out")
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-2000:] + r.stderr[-2000:])
        raise Broken("harness failed")
    res = os.path.join(work(), tag + ".trace")
    n = hangs = 0
    with open(res, "w") as f:
        for j in range(jobs):
            for l in open("%s.%d" % (of, j)):
                f.write(l)
                n += 1
                hangs += '["hang",0]' in l
            os.unlink("%s.%d" % (of, j))
    if n != len(lines) and hangs < 5:   # the harness gives up after several hangs
        raise Broken("%d programs but %d traces" % (len(lines), n))
    return res


def judge(tracefile):
    """Validate recorded traces; returns [(trace json, [(event index, kinds)])] of the rejected ones."""
    rc, out = tlc("GcTrace", env={"TRACES": tracefile}, timeout=800)
    traces = open(tracefile).readlines()
    st, tr = tlc_counts(out)
    seen = {}
    for l in open(out):
        m = re.match(r'"TRACE (\d+) (\d+) (.*)"$', l.strip())
        if m:
            seen[int(m.group(1))] = m.group(3)
    if rc != 0 or len(seen) != len(traces):
        sys.stdout.write(tail(out))
        raise Broken("trace validation failed (%d of %d traces judged)" % (len(seen), len(traces)))
    TOTAL["states"] += st
    TOTAL["transitions"] += tr - len(traces)   # initial states are generated, but not by a step
    TOTAL["traces"] += len(traces)
    bad = []
    for i, first in seen.items():
        if first != "<<>>":
            ks = []
            for m in re.finditer(r"<<(\d+), \{([^}]*)\}>>", first):
                ks.append((int(m.group(1)), re.findall(r'\\?"(\w+)\\?"', m.group(2))))
            bad.append((json.loads(traces[i - 1]), ks))
    return bad


class Campaign:
    def __init__(self, prop, watch, binary):
        self.prop, self.binary = prop, binary
        self.watch = set(watch) | HARD
        self.samples = []
        self.nviol = 0
        self.unconfirmed = 0
        self.other = {}
        self.known = []
        self.rules = []

    def run(self, tag, lines):
        """lines: complete program lines with unique ids."""
        if not lines:
            return
        byid = {l.split()[1]: l for l in lines}
        tf = run_programs(self.binary, lines, tag)
        self.account(tf)
        bad = judge(tf)
        TOTAL["programs"] += len(lines)
        hits = []
        for tr, ks in bad:
            kinds = {k for _, q in ks for k in q}
            if kinds & self.watch:
                hits.append((tr["id"], kinds & self.watch))
            else:
                for k in kinds:
                    self.other[k] = self.other.get(k, 0) + 1
        log("%s: %d programs, %d rejected for %s%s" % (
            tag, len(lines), len(hits), self.prop,
            "" if not hits else " " + str(sorted({k for _, q in hits for k in q}))))
        if hits:
            self.confirm(tag, hits, byid, lines)

    def account(self, tf):
        for k, l in enumerate(open(tf)):
            d = json.loads(l)
            TOTAL["events"] += len(d["ev"])
            TOTAL["schedule_points"] += d["pts"]
            TOTAL["switches"] += d["sw"]
            if len(self.samples) < 3 and k % 7 == 3:
                self.samples.append({"program": d["id"], "flags": d["fl"], "events": d["ev"][:60]})

    def confirm(self, tag, hits, byid, batch):
        """Run the rejected programs again, each in a process of its own; if that does not show the
        violation again, run the whole batch again."""
        hits = hits[:12]
        lines = []
        for pid, _ in hits:
            l = byid[pid]
            head = l.split(" ; ", 1)
            p = head[0].split()
            fl = p[2] if len(p) > 2 else "n=20"
            if "iso=1" not in fl:
                fl += ",iso=1"
            lines.append("%s %s %s ; %s" % (p[0], p[1], fl, head[1]))
        before = dict(TOTAL)
        want = {pid for pid, _ in hits}
        for attempt in range(4):
            last = attempt == 3
            tf = run_programs(self.binary, batch if last else lines, "%s-confirm%d" % (tag, attempt),
                              jobs=8 if last else 2)
            again = judge(tf)
            ok = False
            for tr, ks in again:
                kinds = {k for _, q in ks for k in q} & self.watch
                if kinds and tr["id"] in want:
                    ok = True
                    self.violation(tr, ks, byid[tr["id"]], kinds)
            TOTAL.update(before)
            if ok:
                return
        self.unconfirmed += len(hits)
        log("not reproducible, ignored:", hits[:3])

    def violation(self, tr, ks, line, kinds):
        self.nviol += 1
        if self.nviol > 20:
            return
        d = os.path.join(ROOT, "replays")
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, "%s-%d.json" % (self.prop, self.nviol))
        json.dump({"property": self.prop, "kinds": sorted(kinds), "program": line, "first": ks,
                   "replay": "%s run <file with the program line> <out> 1" % "gcharness",
                   "trace": tr["ev"]}, open(f, "w"))
        print("VIOLATION property=%s replay=%s" % (self.prop, os.path.relpath(f, ROOT)))
        idx = ks[0][0]
        print("   %s at event %d %s of: %s" % (",".join(sorted(kinds)), idx,
                                               json.dumps(tr["ev"][idx - 1]), line[:400]), flush=True)

    def custom_violation(self, what, detail):
        self.nviol += 1
        d = os.path.join(ROOT, "replays")
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, "%s-%d.json" % (self.prop, self.nviol))
        json.dump({"property": self.prop, "what": what, "detail": detail}, open(f, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (self.prop, os.path.relpath(f, ROOT)))
        print("   " + what, flush=True)


def evidence(c, level, extra):
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    cov = {"states": TOTAL["states"], "transitions": TOTAL["transitions"],
           "traces_validated_against_impl": TOTAL["traces"],
           "events_validated": TOTAL["events"],
           "schedule_points": TOTAL["schedule_points"],
           "thread_switches": TOTAL["switches"],
           "samples": c.samples,
           "kinds_watched": sorted(c.watch),
           "rejections_belonging_to_other_properties": c.other,
           "not_reproducible": c.unconfirmed}
    cov.update(extra)
    if not TOTAL["schedule_points"]:
        del cov["schedule_points"], cov["thread_switches"]
    json.dump({"property": c.prop, "tier": TIER, "seed": SEED, "level": level, "coverage": cov,
               "assumptions": ASSUMPTIONS, "wall_s": round(time.time() - T0, 2), "violations": c.nviol},
              open(os.path.join(ROOT, "evidence", c.prop + ".json"), "w"), indent=1)


ASSUMPTIONS = [
    "sequentially consistent interleavings of the instrumented atomic and lock operations",
    "the harness payload types are representative of user types",
    "object graphs, programs and schedules up to the bounds in DESIGN.md",
]


def known_findings():
    out = []
    f = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            if l.startswith("known:"):
                out.append(l.strip())
    return out


def main():
    global PROP
    if len(sys.argv) < 2:
        print("usage: check.py PROPERTY")
        return 2
    PROP = sys.argv[1]
    try:
        import campaigns
        c, extra = campaigns.run(PROP, sys.modules[__name__])
        evidence(c, "model_checking", extra)
        rc = 1 if c.nviol else 0
        log("%s: %s; %s" % (PROP, "VIOLATED" if rc else "held", TOTAL))
        return rc
    except Broken as e:
        log("check error:", e)
        return 2
    except Exception as e:  # noqa
        import traceback
        traceback.print_exc()
        return 2
    finally:
        if _work and not os.environ.get("KEEP_WORK"):
            shutil.rmtree(_work, ignore_errors=True)


if __name__ == "__main__":
    sys.modules["check"] = sys.modules[__name__]
    sys.exit(main())
