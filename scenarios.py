"""Behaviours of the algorithm model (SyncMC) as programs for the implementation.

A scenario is a heap, what the other threads hold, what is suspected to be garbage, and what the
threads do; it is run with the threads' steps placed at every point of a collection."""


def model(sc):
    """Normalise a scenario: edges, held pointers, suspects, operations."""
    to = {i + 1: t for i, t in enumerate(sc["to"])}
    slots = {}
    for o, row in enumerate(sc["slot"], 1):
        for k, p in enumerate(row, 1):
            if p:
                slots[(o, k)] = p
    held = {int(t): list(v) for t, v in sc["held"].items()} if isinstance(sc["held"], dict) else sc["held"]
    log = {int(t): v for t, v in sc["log"].items()}
    return to, slots, held, set(sc["dirty"]), log


def place(k, kk, fixed):
    """The slot of the implementation's values that stands for slot k of kk."""
    return 2 if fixed and k == kk else k - 1


def program(sc, fixed=1):
    """-> (number of objects, text, operations before the collection per thread, operations after)"""
    to, slots, held, dirty, log = model(sc)
    kk = len(sc["slot"][0])
    objs = sorted({t for t in to.values() if t > 0})
    threads = sorted(held)
    fix = {o: to[slots[(o, kk)]] for o in objs if fixed and (o, kk) in slots}
    # how the creating thread's own pointer to each object goes away: dropped, handed over or moved
    # into a slot (so that no pointer is dropped)
    way, depth, level = {}, {}, []
    for t in threads:
        for p in held[t]:
            if to[p] not in way and to[p] not in dirty:
                way[to[p]] = ("held", t, p)
    for o in objs:
        if o in dirty:
            way[o] = ("drop",)
    for o in way:
        depth[o] = 0
    frontier = sorted(way)
    while frontier:
        nxt = []
        for o in frontier:
            for (x, k), p in sorted(slots.items()):
                if x == o and to[p] not in way:
                    way[to[p]] = ("slot", x, k)
                    depth[to[p]] = depth[o] + 1
                    nxt.append(to[p])
        frontier = nxt
    if any(o not in way for o in objs):
        return None
    main = []
    # creation, targets of unchanging slots first
    order, todo = [], list(objs)
    while todo:
        for o in todo:
            if o not in fix or fix[o] in order:
                order.append(o)
                todo.remove(o)
                break
        else:
            return None
    gone = {}     # object whose register was moved into the unchanging slot of another
    for o in order:
        init = ""
        if o in fix:
            x = fix[o]
            if way[x] == ("slot", o, kk):
                init = ":-:%d" % x
                gone[x] = o
            else:
                main.append(clone(x, gone, 14))
                init = ":-:14"
        main.append("n:%d:%d:s%s" % (o, o, init))
    for o in reversed(order):
        main.append("e:%d:2:%d" % (gone[o], o) if o in gone else "f:%d:%d" % (o, o))
    for (o, k), p in sorted(slots.items()):
        if not (fixed and k == kk) and way[to[p]] != ("slot", o, k):
            main.append(clone(to[p], gone, 14))
            main.append("H:%d:%d:14" % (o, place(k, kk, fixed)))
    reg = {}
    for t in threads:
        for i, p in enumerate(held[t]):
            reg[(t, p)] = i
            if way[to[p]] != ("held", t, p):
                main.append(clone(to[p], gone, 14))
                main.append("g:14:%d:%d" % (t - 1, i))
    for o in sorted(objs, key=lambda o: -depth[o]):
        w = way[o]
        if w[0] == "slot" and o not in gone:
            main.append("H:%d:%d:%d" % (w[1], place(w[2], kk, fixed), o))
    for o in objs:
        w = way[o]
        if w[0] == "held":
            main.append("g:%d:%d:%d" % (o, w[1] - 1, reg[(w[1], w[2])]))
    for o in objs:
        if way[o][0] == "drop":
            main.append("d:%d" % o)
    main.append("F")
    bodies, before, after = [], [], []
    for t in threads:
        b, n0, n1 = body(t, to, slots, held[t], log.get(t, []), reg, fix, kk, fixed)
        bodies.append(b or "y")
        before.append(n0)
        after.append(n1)
    return len(objs), "; " + " ".join(main) + " k:1 J ; " + " ; ".join(bodies), before, after


def clone(o, gone, dst):
    """Clone a pointer to o, wherever the creating thread has one."""
    return "i:%d:2:%d" % (gone[o], dst) if o in gone else "c:%d:%d" % (o, dst)


def body(t, to, slots, held, log, reg, fix, kk, fixed):
    to = dict(to)
    slots = dict(slots)
    where = {p: reg[(t, p)] for p in held}      # pointer -> register
    refs, out = {}, []                          # (root pointer, object) -> reference
    nref = [0]

    def getrefs(p, o):
        if (p, o) not in refs and nref[0] < 16:
            r = nref[0]
            nref[0] += 1
            refs[(p, o)] = r
            return r
        return None

    for p in held:
        o = to[p]
        r = getrefs(p, o)
        if r is None:
            continue
        out.append("f:%d:%d" % (where[p], r))
        while o in fix:
            x = fix[o]
            r2 = getrefs(p, x)
            if r2 is None:
                break
            out.append("e:%d:2:%d" % (refs[(p, o)], r2))
            o = x
    n0 = len(out)

    def ref(o, but=None):
        for (p, x), r in sorted(refs.items()):
            if x == o and p in where and p != but:
                return r
        return 15

    def fresh():
        return min(set(range(12)) - set(where.values()))

    locked = None
    for op, a, b, p in log:
        if op == "take":
            where[p] = fresh()
            slots.pop((a, b), None)
            out.append("h:%d:%d:%d" % (ref(a), place(b, kk, fixed), where[p]))
        elif op == "put":
            out.append("H:%d:%d:%d" % (ref(a, p), place(b, kk, fixed), where.pop(p)))
            slots[(a, b)] = p
        elif op == "drop":
            out.append("d:%d" % where.pop(p))
        elif op == "clone":
            src = where.get(p)
            dst = fresh()
            if src is not None:
                out.append("c:%d:%d" % (src, dst))
            else:
                own = [o for (o, k), q in slots.items() if q == p]
                out.append("i:%d:2:%d" % (ref(own[0]) if own else 15, dst))
            where[b] = dst
            to[b] = to[p]
        elif op == "load":
            q = slots.get((a, b))
            where[p] = fresh()
            to[p] = to.get(q, 0)
            out.append("i:%d:%d:%d" % (ref(a), place(b, kk, fixed), where[p]))
        elif op == "deref":
            src = where.get(p)
            if src is not None:
                r = getrefs(p, to[p])
                out.append("f:%d:%d" % (src, refs.get((p, to[p]), 15)))
            else:
                own = [o for (o, k), q in slots.items() if q == p]
                if own:
                    out.append("e:%d:2:14" % ref(own[0]))
        elif op == "hold":
            out.append("j:%d:%d" % (ref(a), place(b, kk, fixed)))
            locked = (a, b)
        elif op == "unlock":
            if locked:
                out.append("G")
            locked = None
        elif op == "new":
            where[p] = fresh()
            to[p] = a
            out.append("n:%d:%d:s" % (where[p], a))
        refs = {k: v for k, v in refs.items() if k[0] in where}
    n1 = len(out)
    if locked:
        out.append("G")
    for r in sorted(where.values()):
        out.append("D:%d" % r)
    for (p, o), r in sorted(refs.items()):
        for sl in sorted({place(k, kk, fixed) for k in range(1, kk + 1)}):
            out.append("i:%d:%d:13 D:13 d:13" % (r, sl))
    return " ".join(out), n0, n1
