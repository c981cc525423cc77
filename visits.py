"""C14: what the standard types report when visited.  Types and values come from spec/VisitGen.tla, the
recorded visits are judged by spec/VisitTrace.tla.  Also what C14 and C15 (derives.py) share."""
import fcntl, json, os, random, re, shutil, subprocess

K = None

PLAIN = [
    ("()", "()"), ("bool", "true"), ("char", "'x'"), ("f32", "1.0"), ("f64", "1.0"),
] + [(t, "1") for t in "u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize".split()] + [
    ("std::sync::atomic::Atomic" + t, "std::sync::atomic::Atomic%s::new(1)" % t)
    for t in "U8 U16 U32 U64 Usize I8 I16 I32 I64 Isize".split()
] + [
    ("std::num::NonZero" + t, "std::num::NonZero%s::new(1).unwrap()" % t)
    for t in "U8 U16 U32 U64 U128 Usize I8 I16 I32 I64 I128 Isize".split()
] + [
    ("String", "\"abc\".to_string()"), ("Box<str>", "\"abc\".into()"), ("&'static str", "\"abc\""),
    ("std::path::PathBuf", "\"a\".into()"), ("Box<std::path::Path>", "std::path::PathBuf::from(\"a\").into_boxed_path()"),
    ("std::ffi::OsString", "\"a\".into()"), ("Box<std::ffi::OsStr>", "std::ffi::OsString::from(\"a\").into_boxed_os_str()"),
    ("std::collections::hash_map::DefaultHasher", "Default::default()"),
    ("std::collections::hash_map::RandomState", "Default::default()"),
    ("std::rc::Rc<str>", "\"abc\".into()"), ("std::hash::SipHasher", "std::hash::SipHasher::new()"),
    ("std::any::TypeId", "std::any::TypeId::of::<u8>()"),
    ("std::marker::PhantomData<U>", "std::marker::PhantomData"),
    ("std::marker::PhantomData<str>", "std::marker::PhantomData"),
    ("std::hash::BuildHasherDefault<std::collections::hash_map::DefaultHasher>", "Default::default()"),
    ("&'static U", "Box::leak(Box::new(U::new(Tok::from(1))))"),
    ("&'static [U]", "Box::leak(Box::new([U::new(Tok::from(1))]))"),
    ("std::sync::MutexGuard<'static, U>",
     "Box::leak(Box::new(std::sync::Mutex::new(U::new(Tok::from(1))))).lock().unwrap()"),
    ("std::sync::RwLockReadGuard<'static, S>",
     "Box::leak(Box::new(std::sync::RwLock::new(S::new(Tok::from(1))))).read().unwrap()"),
    ("std::cell::Cell<u32>", "std::cell::Cell::new(1)"),
    ("std::cell::Cell<Option<char>>", "std::cell::Cell::new(Some('x'))"),
    ("std::cell::Cell<&'static U>", "std::cell::Cell::new(Box::leak(Box::new(U::new(Tok::from(1)))))"),
    ("fn() -> u8", "|| 1"), ("fn(u8) -> u8", "|x| x"), ("fn(U) -> u8", "|_| 1"), ("fn(u8, U) -> U", "|_, u| u"),
    ("unsafe fn(u8) -> u8", "{ unsafe fn f(x: u8) -> u8 { x } f }"),
    ("extern \"C\" fn(u8) -> u8", "{ extern \"C\" fn f(x: u8) -> u8 { x } f }"),
    ("unsafe extern \"C\" fn() -> u8", "{ unsafe extern \"C\" fn f() -> u8 { 1 } f }"),
] + [("fn(%s) -> u8" % ", ".join(["u8"] * n), "|%s| 1" % ", ".join(["_"] * n)) for n in range(3, 11)]

ONE = dict(box="Box<%s>", vec="Vec<%s>", deque="VecDeque<%s>", list="LinkedList<%s>", arr0="[%s; 0]",
           arr1="[%s; 1]", arr3="[%s; 3]", arr70="[%s; 70]", bslice="Box<[%s]>", opt="Option<%s>", refcell="RefCell<%s>",
           once="OnceCell<%s>", mutex="Mutex<%s>", rwlock="RwLock<%s>", set="HashSet<Key<%s>>",
           bset="BTreeSet<Key<%s>>", heap="BinaryHeap<Key<%s>>", cow="Cow<'static, %s>", tup1="(%s,)",
           ref="&'static %s")
TWO = dict(res="Result<%s, %s>", map="HashMap<Key<%s>, %s>", maph="HashMap<Key<%s>, %s, Own>",
           bmap="BTreeMap<Key<%s>, %s>", tup2="(%s, %s)")


def rust(t):
    k, a = t[0], t[1:]
    if k in ("u", "s", "p"):
        return k.upper()
    if k[0] == "q" and not a:
        return PLAIN[int(k[1:])][0]
    if k in ONE:
        return ONE[k] % rust(a[0])
    if k in TWO:
        return TWO[k] % (rust(a[0]), rust(a[1]))
    return "(%s)" % ", ".join(rust(x) for x in a)


def tokens(v):
    k = v[0]
    if k in ("u", "s"):
        return [k, str(v[1])]
    if k == "p":
        return ["p"]
    if k in ("n", "m"):
        return [k, str(len(v[1]))] + [t for x in v[1] for t in tokens(x)]
    if k == "l":
        return ["l", v[1]] + tokens(v[2])
    return [k] + tokens(v[1])


def size(t):
    return 1 + sum(size(x) for x in t[1:])


def gen(deep, values, sizes, inner, maxtup=10, huge=300):
    cfg = K.cfgfile(dict(plain=len(PLAIN), deep=deep, sizes=sizes, inner=inner, values=values, huge=huge, array=70,
                         seed=K.SEED * 10, maxtup=maxtup))
    rc, out = K.tlc("VisitGen", env={"GENCFG": cfg})
    ts = []
    for l in open(out):
        if l.startswith('"TYPE '):
            d = json.loads(json.loads(l.strip())[5:])
            ts.append((json.dumps(d["t"]), d))
    if rc != 0 or not ts:
        print(K.tail(out))
        raise K.Broken("no types generated")
    ts.sort(key=lambda x: x[0])
    return [d for _, d in ts]


def codegen(types, chunk=100):
    parts, arms = [], []
    for c in range(0, len(types), chunk):
        body = []
        for n in range(c, min(c + chunk, len(types))):
            t = types[n]["t"]
            if t[0][0] == "q":
                body.append("        %d => go_val::<%s>(%s, s)," % (n, rust(t), PLAIN[int(t[0][1:])][1]))
            else:
                body.append("        %d => go::<%s>(s)," % (n, rust(t)))
        m = "part%d" % (c // chunk)
        parts.append("mod %s {\n    use super::*;\n    pub fn run(n: usize, s: &mut Src) -> String {\n        match n {\n%s\n"
                     "        _ => unreachable!(),\n        }\n    }\n}\n" % (m, "\n".join(body)))
        arms.append("        %d => %s::run(n, s)," % (c // chunk, m))
    return ("use crate::build::*;\nuse crate::{go, go_val};\nuse std::borrow::Cow;\nuse std::cell::{OnceCell, RefCell};\n"
            "use std::collections::*;\nuse std::sync::{Mutex, RwLock};\n\n"
            "pub fn run(n: usize, s: &mut Src) -> String {\n    match n / %d {\n%s\n        _ => unreachable!(),\n    }\n}\n\n%s"
            % (chunk, "\n".join(arms), "\n".join(parts)))


# ---------------------------------------------------------------- building, running, judging

def build(crate, files):
    """Build crate with the generated files; returns (binary or None, error lines)."""
    src = os.path.join(K.BUILD, "gen-" + crate)
    os.makedirs(K.BUILD, exist_ok=True)
    with open(os.path.join(K.BUILD, ".lock-" + crate), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        shutil.rmtree(src, ignore_errors=True)
        shutil.copytree(os.path.join(K.ROOT, crate), src, ignore=shutil.ignore_patterns("target"))
        for f, text in files.items():
            f = os.path.join(src, "src", f)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, "w") as o:
                o.write(text)
        r = K.cargo(["--message-format=short"], [], "visits", pkg=src)
        if r.returncode != 0:
            errs = [l for l in r.stderr.split("\n") if re.search(r"\berror(\[\w+\])?: ", l)]
            errs = [l for l in errs if not re.match(r"error: (could not compile|aborting due)", l)]
            return None, errs
        dst = os.path.join(K.work(), crate)
        shutil.copy2(os.path.join(K.BUILD, "visits", "debug", crate + "harness"), dst)
        return dst, []


def judge(recs, tag):
    """recs: [(name, value, ordered, events)]; returns the rejected ones [(name, reason, position, record)]."""
    f = os.path.join(K.work(), tag + ".ndjson")
    with open(f, "w") as o:
        for name, v, o_, ev in recs:
            o.write(json.dumps({"v": v, "o": o_, "ev": ev}) + "\n")
            K.TOTAL["events"] += len(ev)
    rc, out = K.tlc("VisitTrace", env={"TRACES": f})
    seen = {}
    for l in open(out):
        m = re.match(r'"TRACE (\d+) (\d+) (\w*)"$', l.strip())
        if m:
            seen[int(m.group(1))] = (m.group(3), int(m.group(2)))
    if rc != 0 or len(seen) != len(recs):
        print(K.tail(out))
        raise K.Broken("trace validation failed (%d of %d records judged)" % (len(seen), len(recs)))
    st, tr = K.tlc_counts(out)
    K.TOTAL["states"] += st
    K.TOTAL["transitions"] += tr - len(recs)
    K.TOTAL["traces"] += len(recs)
    return [(recs[i - 1][0], why, at, recs[i - 1]) for i, (why, at) in sorted(seen.items()) if why]


def check_model(module, cfg, gen, extra):
    """The visiting machine on the generated values, all orders."""
    rc, out = K.tlc(module, cfg=cfg, env={"GENCFG": gen})
    if rc != 0:
        print(K.tail(out))
        raise K.Broken("%s does not satisfy its own properties" % module)
    st, tr = K.tlc_counts(out)
    init = 0
    for l in open(out):
        m = re.match(r"Finished computing initial states: (\d+)", l)
        if m:
            init = int(m.group(1))
    K.TOTAL["states"] += st
    K.TOTAL["transitions"] += tr - init
    extra["model_states"] = st


class Visits:
    """Stands in for a campaign where the evidence is written."""

    def __init__(self, prop, watch):
        self.c = K.Campaign(prop, [], None)
        self.c.watch = set(watch)
        self.extra = {}

    def report(self, bad, describe):
        for name, why, at, rec in bad[:20]:
            self.c.custom_violation("%s: %s after %d events" % (describe(name), why, at),
                                    {"value": rec[1], "ordered": rec[2], "events": rec[3], "case": name})

    def sample(self, recs, describe):
        for r in recs[5::max(1, len(recs) // 3)][:3]:
            self.c.samples.append({"type": describe(r[0]), "value": r[1], "events": r[3]})


KINDS = ["order", "twice", "alien", "missed", "unreported", "failed", "panic", "crash", "does not compile"]


def C14(k):
    global K
    K = k
    u = Visits("C14", KINDS)
    mc = dict(plain=len(PLAIN), deep=1 if K.THOROUGH else 0, sizes=[0, 1, 2], inner=[0, 1, 2],
              huge=3, array=3, values=3, seed=K.SEED * 10, maxtup=6 if K.THOROUGH else 5)
    check_model("VisitMC", "VisitMC.cfg", K.cfgfile(mc), u.extra)
    types = gen(1, 12 if K.THOROUGH else 8, [0, 1, 2, 3, 5, 17, 33], [0, 1, 2, 3])
    rnd = random.Random("C14/%d" % K.SEED)
    full = len(types)
    if not K.THOROUGH:
        small = [d for d in types if size(d["t"]) <= 3 or len(d["t"]) > 3]
        large = [d for d in types if not (size(d["t"]) <= 3 or len(d["t"]) > 3)]
        types = small + rnd.sample(large, 900)
    K.log("%d of %d types" % (len(types), full))
    binary, errs = build("visit", {"types.rs": codegen(types)})
    if errs or not binary:
        mine = [e for e in errs if e.startswith("src/types.rs") and "Collectable" in e]
        if not mine or len(mine) < len(errs):
            print("\n".join(errs[:20]))
            raise K.Broken("the harness does not build")
        text = codegen(types).split("\n")
        for e in mine[:20]:
            u.c.custom_violation("cannot be visited at all: " + text[int(e.split(":")[1]) - 1].strip(), {"error": e})
        return u.c, u.extra
    cases = [(n, v) for n, d in enumerate(types) for v in d["v"]]
    recs, todo = [], list(range(len(cases)))
    describe = lambda c: rust(types[cases[c][0]]["t"])
    while todo:
        text = "".join("%d %d %s\n" % (c, cases[c][0], " ".join(tokens(cases[c][1]))) for c in todo)
        try:
            r = subprocess.run([binary], input=text, capture_output=True, text=True, timeout=300)
        except subprocess.TimeoutExpired:
            raise K.Broken("harness timed out")
        lines = r.stdout.split("\n")[:-1]
        for l in lines:
            c, ev = l.split(" ", 1)
            recs.append((int(c), cases[int(c)][1], 0, json.loads(ev)))
        todo = todo[len(lines):]
        if todo:     # it did not survive this one
            c = todo.pop(0)
            u.c.custom_violation("%s: crash: %s" % (describe(c), r.stderr[-300:]), {"value": cases[c][1], "exit": r.returncode})
            if u.c.nviol > 10:
                break
    K.TOTAL["programs"] += len(recs)
    bad = judge(recs, "c14")
    K.log("%d values visited, %d rejected" % (len(recs), len(bad)))
    u.report(bad, describe)
    u.sample(recs, describe)
    u.extra.update(types=len(types), types_in_full=full, values=len(cases))
    return u.c, u.extra
