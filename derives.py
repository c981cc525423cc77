"""C15: what derived implementations report.  Shapes and values come from spec/DeriveGen.tla, the recorded
visits are judged by spec/VisitTrace.tla."""
import json, random, re, subprocess

import visits

RAW = ["r#type", "r#fn", "r#match", "r#mod", "r#use", "r#loop", "r#where", "r#in", "r#let", "r#if", "r#for", "r#box",
       "r#move", "r#ref"]
TRICKY = ["field1", "field0", "visitor", "field3", "result", "self_", "dumpster", "std", "name", "field2", "accept",
          "__V", "v", "x"]
UNDER = ["_a", "b", "_c", "__d", "_e_", "f_", "_G", "_h", "_1", "_2x", "_k", "l", "_m", "_n"]
VARS = ["A", "B", "C", "D", "E", "F", "G"]
TVARS = ["Ok", "Err", "None", "Some", "Result", "Visitor", "Self_"]
TY = dict(u="Pu", s="Ps", p="Pp", w="Pw", v="Pv", i="Inner", a="[Pu; 2]",
          t="(Ps, Pw)", o="Option<Pu>", b="Box<Inner>", r="&'static Pu", f="fn(u8) -> Pu")


def field_type(k, par):
    return par if k == "g" else "Vec<%s>" % par if k == "h" else TY[k]


def expr(k, v, inst):
    if k == "g":
        return expr(inst, v, inst)
    if k == "h":
        return "vec![%s]" % ", ".join(expr(inst, x, inst) for x in v[1])
    if k in "us":
        return "%s(%d)" % (k, v[1])
    if k == "p":
        return "7"
    if k == "a":
        return "[%s]" % ", ".join(expr("u", x, inst) for x in v[1])
    if k == "t":
        return "(%s, %s)" % (expr("s", v[1][0], inst), expr("w", v[1][1], inst))
    if k == "o":
        return "Option::Some(%s)" % expr("u", v[1][0], inst) if v[1] else "Option::None"
    if k == "r":
        return "Box::leak(Box::new(%s))" % expr("u", v[1], inst)
    if k == "f":
        return "|x| u(x.into())"
    if k == "b":
        return "Box::new(%s)" % expr("i", v, inst)
    if k in "wv":
        return "%s(%d, \"%s\")" % (k, v[2][1], v[1])
    return "i(%s, %s)" % (expr("u", v[1][0], inst), expr("w", v[1][1], inst))


def fname(shape, n):
    return (RAW if shape["names"] == "raw" else TRICKY if shape["names"] == "tricky"
            else UNDER if shape["names"] == "under" else "abcdefghijklmn")[n]


def module(num, d):
    """The Rust text of one shape and its values."""
    sh = d["s"]
    inst = TY[sh["inst"]]
    enum = sh["what"] == "enum"
    gen, par = sh["gen"], "V" if sh["gen"] == "V" else "T"
    unit = not enum and sh["variants"][0]["style"] == "unit"
    if unit and gen not in ("none", "const"):
        gen = "none"
    if enum and not sh["variants"]:
        gen = "none"
    if gen == "unsized" and enum:
        gen = "T"
    # parameters, where clause, arguments, fields that use up the parameters
    P = {"none": ("", "", "", []),
         "T": ("<T>", "", "<%s>" % inst, ["PhantomData<T>"]),
         "TW": ("<T, W>", "", "<%s, Pu>" % inst, ["PhantomData<T>", "PhantomData<W>"]),
         "V": ("<V>", "", "<%s>" % inst, ["PhantomData<V>"]),
         "bound": ("<T: Bound>", "", "<%s>" % inst, ["PhantomData<T>"]),
         "where": ("<T>", " where T: Bound", "<%s>" % inst, ["PhantomData<T>"]),
         "const": ("<const N: usize>", "", "<2>", ["[Pp; N]"]),
         "life": ("<'a>", "", "", ["PhantomData<&'a ()>"]),
         "default": ("<T = u32>", "", "<%s>" % inst, ["PhantomData<T>"]),
         "unsized": ("<T: ?Sized>", "", "<%s>" % inst, []),
         "mix": ("<'a, T: Bound, const N: usize>", "", "<'_, %s, 2>" % inst, ["PhantomData<&'a T>", "[Pp; N]"])}
    par_text, where, args, extra = P[gen]
    if unit and gen == "const":
        extra = []
    fill = {"[Pp; N]": "[7; 2]"}
    name = "Result" if sh["names"] == "tricky" and sh["num"] % 2 else "Node"
    vis = "pub " if sh["names"] == "pub" else ""
    kinds = [list(v["fields"]) for v in sh["variants"]]

    def body(q, style, add, vis):
        fs = [field_type(k, par) for k in kinds[q]] + add
        if style == "unit":
            return ""
        if style == "named":
            return " { %s }" % ", ".join("%s%s%s: %s" % ("/// doc\n    #[allow(unused)] " if sh["num"] % 3 == 0 else "",
                                                         vis, fname(sh, n), t) for n, t in enumerate(fs))
        return "(%s)" % ", ".join(vis + t for t in fs)

    def value(q, style, add, vals):
        fs = [expr(k, x, sh["inst"]) for k, x in zip(kinds[q], vals)]
        fs += [fill.get(x, "PhantomData") for x in add]
        if style == "unit":
            return ""
        if style == "named":
            return " { %s }" % ", ".join("%s: %s" % (fname(sh, n), t) for n, t in enumerate(fs))
        return "(%s)" % ", ".join(fs)

    out = ["use crate::rt::*;", "#[derive(Collectable)]"]
    turbo = "::" + args if args else ""
    shows, judged = [], []
    if not enum:
        st = sh["variants"][0]["style"]
        vals = []
        for n, v in enumerate(d["v"][0]):
            vals.append(v[1])
            judged.append((0, n, v))
        b = body(0, st, extra, vis)
        if st == "named":
            out.append("%sstruct %s%s%s%s" % (vis, name, par_text, where, b))
        else:
            out.append("%sstruct %s%s%s%s;" % (vis, name, par_text, b, where))
        for n, fv in enumerate(vals):
            shows.append("show(%d, 0, %d, %s%s%s);" % (num, n, name, turbo, value(0, st, extra, fv)))
    else:
        vn = TVARS if sh["names"] == "tricky" else VARS
        vs = ["    %s%s," % (vn[q], body(q, x["style"], [], "")) for q, x in enumerate(sh["variants"])]
        if extra:
            vs.append("    Zz(%s)," % ", ".join(extra))
        out.append("%senum %s%s%s {\n%s\n}" % (vis, name, par_text, where, "\n".join(vs)))
        for q, x in enumerate(sh["variants"]):
            for n, v in enumerate(d["v"][q]):
                judged.append((q, n, v))
                shows.append("show(%d, %d, %d, %s%s::%s%s);" % (num, q, n, name, turbo, vn[q],
                                                              value(q, x["style"], [], v[1])))
    out.append("pub fn cases() {\n    %s\n}" % "\n    ".join(shows))
    return "\n".join(out) + "\n", judged


def gen(K, cfg):
    rc, out = K.tlc("DeriveGen", env={"GENCFG": cfg})
    shapes = [json.loads(json.loads(l.strip())[6:]) for l in open(out) if l.startswith('"SHAPE ')]
    if rc != 0 or not shapes:
        print(K.tail(out))
        raise K.Broken("no shapes generated")
    shapes.sort(key=lambda d: json.dumps(d["s"]))
    return shapes


def C15(K):
    visits.K = K
    u = visits.Visits("C15", visits.KINDS)
    cfg = K.cfgfile(dict(fields=12 if K.THOROUGH else 8, big=1500 if K.THOROUGH else 300,
                         values=10 if K.THOROUGH else 5, seed=K.SEED))
    visits.check_model("DeriveGen", "DeriveMC.cfg", cfg, u.extra)
    shapes = gen(K, cfg)
    full = len(shapes)
    if not K.THOROUGH:
        rnd = random.Random("C15/%d" % K.SEED)
        forms = [d for d in shapes if 77 < d["s"]["num"] < 100]
        shapes = [d for d in shapes if not 77 < d["s"]["num"] < 100] + rnd.sample(forms, 350)
    K.log("%d of %d shapes" % (len(shapes), full))
    texts, want = {}, {}
    for n, d in enumerate(shapes):
        texts[n], judged = module(n, d)
        for q, x, v in judged:
            want[n, q, x] = v
    describe = lambda c: re.sub(r"\s+", " ", texts[c[0]].split("#[derive(Collectable)]\n")[1].split("pub fn cases")[0])[:300]
    skip = set()
    for attempt in range(3):
        files = {"shapes/s%d.rs" % n: t for n, t in texts.items() if n not in skip}
        keep = [n for n in texts if n not in skip]
        files["shapes/mod.rs"] = "".join("mod s%d;\n" % n for n in keep) + \
            "pub fn run() {\n%s}\n" % "".join("    s%d::cases();\n" % n for n in keep)
        binary, errs = visits.build("derive", files)
        if binary:
            break
        found = {}
        for e in errs:
            m = re.match(r"src/shapes/s(\d+)\.rs:", e)
            if not m:
                print("\n".join(errs[:20]))
                raise K.Broken("the harness does not build")
            found.setdefault(int(m.group(1)), e)
        if not found:
            raise K.Broken("the harness does not build")
        for n, e in sorted(found.items()):
            if u.c.nviol < 20:
                u.c.custom_violation("%s: does not compile: %s" % (describe((n,)), e), {"source": texts[n], "error": e})
        skip |= set(found)
    if not binary:
        return u.c, u.extra
    try:
        r = subprocess.run([binary], capture_output=True, text=True, timeout=300)
    except subprocess.TimeoutExpired:
        raise K.Broken("harness timed out")
    recs = []
    for l in r.stdout.split("\n"):
        p = l.split(" ", 3)
        if len(p) == 4 and p[3].endswith("]"):
            c = tuple(int(x) for x in p[:3])
            recs.append((c, want[c], 1, json.loads(p[3])))
    if r.returncode != 0:
        done = {c[0] for c, _, _, _ in recs}
        last = max(done) if done else -1
        u.c.custom_violation("crash at or after %s: %s" % (describe((max(last, 0),)), r.stderr[-300:]),
                             {"exit": r.returncode, "source": texts.get(last, "")})
    elif len(recs) != len([c for c in want if c[0] not in skip]):
        raise K.Broken("%d values but %d visits" % (len(want), len(recs)))
    K.TOTAL["programs"] += len(recs)
    bad = visits.judge(recs, "c15")
    K.log("%d values visited, %d rejected" % (len(recs), len(bad)))
    u.report(bad, describe)
    u.sample(recs, describe)
    u.extra.update(shapes=len(shapes), shapes_in_full=full, values=len(want))
    return u.c, u.extra
