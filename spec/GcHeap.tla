------------------------------- MODULE GcHeap -------------------------------
(***************************************************************************)
(* The contract of the collector, seen from outside.                       *)
(*                                                                         *)
(* A program holds pointers in locations.  A location is a number:         *)
(*     100000 + o*64 + k   slot k (0..39) of object o                      *)
(*     900 + k      a global stash used by destructors                     *)
(*     1000 + 20*t + r   register r of thread t (16..19: thread-local      *)
(*                  storage, 17/18 scratch)                                *)
(* An object is live ("L"), inside its destructor ("D"), destructed with   *)
(* its fields being released ("X") or released ("F").                      *)
(*                                                                         *)
(* A pointer in a location is strong, dead (its target was destroyed by    *)
(* the collection that destroyed the holder) or weak (the holder is being  *)
(* destroyed by a collection whose exact garbage set is not determined by  *)
(* the history; the first look at it resolves it).                         *)
(*                                                                         *)
(* Each operator Ev*(s, ...) gives the state after one observable event.   *)
(* What the contract forbids is added to s.bad as a named kind; the        *)
(* mapping from kinds to properties is in check.py.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Threads == 0..7
Doms    == 0..1          \* 0 thread-local (unsync), 1 thread-safe (sync)
Unlogged == 9            \* the built-in default condition: consultations are not observable

IsSlot(l) == l >= 100000
Owner(l)  == (l - 100000) \div 64
Tls(t)    == 1000 + 20 * t + 19

NoHeap == [ptr |-> <<>>, dead |-> {}, weak |-> {}, limbo |-> {},
           st |-> <<>>, dom |-> <<>>, own |-> <<>>, node |-> <<>>, by |-> <<>>]

NoOp == [cbs |-> [d \in Doms |-> 0], due |-> [d \in Doms |-> 0],
         fuzzy |-> FALSE,    \* the number of consultations due is not determined
         trueAt |-> [d \in Doms |-> FALSE],   \* some consultation answered true
         hand |-> {},        \* garbage handed over before that
         pan |-> FALSE,      \* a destructor panicked as scripted
         vds |-> 0, drs |-> 0]

InitState ==
  [ heap  |-> NoHeap,
    stk   |-> [t \in Threads |-> <<>>],           \* destructors running on t
    col   |-> [t \in Threads |-> [d \in Doms |-> 0]],  \* 0 none, 1 explicit, 2 by condition, 3 implicit
    lvl   |-> [t \in Threads |-> [d \in Doms |-> 0]],  \* nesting of collect() calls
    gs    |-> [t \in Threads |-> [d \in Doms |-> {}]], \* garbage when t's collection started
    cond  |-> [t \in Threads |-> Unlogged],
    scond |-> Unlogged,
    dc    |-> [t \in Threads |-> 0],              \* drops since last collection, -1 unknown (unsync)
    sdc   |-> 0,                                  \* the same, sync
    op    |-> [t \in Threads |-> NoOp],
    multi |-> FALSE,
    scm   |-> FALSE,                              \* sync condition changed while threads ran
    cand  |-> {},                                 \* objects to which some pointer was dropped earlier
    cby   |-> <<>>,                               \* object -> threads that dropped pointers to it
    lock  |-> {},                                 \* slots held exclusively
    pan   |-> FALSE,                              \* some destructor panicked
    pex   |-> {},                                 \* objects left over by a panic
    bycol |-> {},                                 \* objects destroyed by a collection itself, not by counting
    nofr  |-> {},                                 \* objects whose release a panic may have prevented
    exiting |-> {},
    late  |-> [t \in Threads |-> {}],
    handed |-> {}, hs |-> [t \in Threads |-> {}],
    bad   |-> {} ]

Flag(s, cond, k) == IF cond /\ k \notin s.bad THEN [s EXCEPT !.bad = @ \cup {k}] ELSE s

-----------------------------------------------------------------------------
(* The graph. *)

Strong(h) == DOMAIN h.ptr \ (h.dead \cup h.weak)
Remove(f, S) == [x \in DOMAIN f \ S |-> f[x]]

RECURSIVE Grow(_, _, _)
Grow(h, slots, S) ==
  LET N == S \cup {h.ptr[l] : l \in {m \in slots : Owner(m) \in S}}
  IN IF N = S THEN S ELSE Grow(h, slots, N)

(* Locations that hold a pointer the program can still use on its own account.  With lim, slots   *)
(* that are about to be released still count.                                                     *)
Roots(h, lim) ==
  {l \in Strong(h) : /\ (~IsSlot(l) \/ h.st[Owner(l)] # "L")
                     /\ (lim \/ l \notin h.limbo)}

Reach(h, d, lim) ==
  LET S == Strong(h)
      R == Roots(h, lim) \cup
           (IF d = 1 THEN {l \in S : IsSlot(l) /\ h.st[Owner(l)] = "L" /\ h.dom[Owner(l)] = 0} ELSE {})
      slots == {l \in S : IsSlot(l) /\ h.st[Owner(l)] = "L"}
  IN Grow(h, slots, {h.ptr[l] : l \in R})

Live(h) == {o \in DOMAIN h.st : h.st[o] = "L"}
Garbage(h, d, lim) == {o \in Live(h) : h.dom[o] = d} \ Reach(h, d, lim)
GarbageOf(h, t, d, lim) == {o \in Garbage(h, d, lim) : d = 1 \/ h.own[o] = t}

Count(h, o, lim) == Cardinality({l \in Strong(h) : h.ptr[l] = o /\ (lim \/ l \notin h.limbo)})

(* Garbage with a slot that is held exclusively (the guard was leaked), and what it points to: a    *)
(* collection has to leave it alone.                                                                *)
Involved(s, G) ==
  LET h == s.heap
      slots == {l \in Strong(h) : IsSlot(l) /\ h.st[Owner(l)] = "L"}
      held == {Owner(l) : l \in s.lock}
  IN IF s.lock = {} THEN {} ELSE G \cap Grow(h, slots, G \cap held)

Pointers(h, t, d) ==
  Cardinality({l \in Strong(h) : h.dom[h.ptr[l]] = d /\ (d = 1 \/ h.own[h.ptr[l]] = t)})

(* Nothing is being destroyed anywhere. *)
Calm(s) == /\ s.heap.limbo = {} /\ s.heap.weak = {}
           /\ \A t \in Threads : s.stk[t] = <<>>
           /\ \A o \in DOMAIN s.heap.st : s.heap.st[o] \in {"L", "F"}

CondOf(s, t, d) == IF d = 0 THEN s.cond[t] ELSE s.scond
Dc(s, t, d) == IF d = 0 THEN s.dc[t] ELSE s.sdc
SetDc(s, t, d, v) == IF d = 0 THEN [s EXCEPT !.dc[t] = v] ELSE [s EXCEPT !.sdc = v]
Exact(s, d) == ~s.pan /\ (d = 0 \/ ~s.multi)

-----------------------------------------------------------------------------
(* Pointers. *)

EvNew(s, t, o, l, node, d) ==
  LET h == s.heap IN
  [s EXCEPT !.heap = [h EXCEPT !.ptr = (l :> o) @@ @, !.st = (o :> "L") @@ @,
                               !.dom = (o :> d) @@ @, !.own = (o :> t) @@ @,
                               !.node = (o :> node) @@ @, !.by = (o :> t) @@ @],
            !.cby = (o :> {}) @@ @]

Resolve(h, l, alive) == [h EXCEPT !.weak = @ \ {l}, !.dead = IF alive THEN @ ELSE @ \cup {l}]

(* A clone succeeded. *)
EvClone(s, t, src, dst) ==
  LET h == s.heap
      s1 == Flag(s, src \in h.dead, "deadSome")
      h1 == Resolve(h, src, TRUE)
  IN [s1 EXCEPT !.heap = [h1 EXCEPT !.ptr = (dst :> h.ptr[src]) @@ @,
                                    !.dead = IF src \in h.dead THEN @ \cup {dst} ELSE @ \ {dst}]]

(* Cloning was refused. *)
EvNoClone(s, t, src) ==
  LET s1 == Flag(s, src \in Strong(s.heap), "liveNone")
  IN IF src \in s.heap.weak THEN [s1 EXCEPT !.heap = Resolve(@, src, FALSE)] ELSE s1

EvTryClone(s, t, src, dst, r) == IF r = 1 THEN EvClone(s, t, src, dst) ELSE EvNoClone(s, t, src)

EvMove(s, t, src, dst) ==
  LET h == s.heap
      In(S) == IF src \in S THEN (S \ {src}) \cup {dst} ELSE S
  IN [s EXCEPT !.heap = [h EXCEPT !.ptr = (dst :> h.ptr[src]) @@ Remove(h.ptr, {src}),
                                  !.dead = In(@), !.weak = In(@), !.limbo = @ \ {src}]]

EvSwap(s, t, a, b) ==
  LET h == s.heap
      X(l) == IF l = a THEN b ELSE IF l = b THEN a ELSE l
      In(S) == {X(l) : l \in S}
  IN [s EXCEPT !.heap = [h EXCEPT !.ptr = [l \in In(DOMAIN h.ptr) |-> h.ptr[X(l)]],
                                  !.dead = In(@), !.weak = In(@)]]

Dropped(s, t, o) ==
  [s EXCEPT !.cand = IF Count(s.heap, o, TRUE) > 0 THEN @ \cup {o} ELSE @,
            !.cby[o] = @ \cup {t}]

EvDrop(s, t, l) ==
  LET h == s.heap
      o == h.ptr[l]
      d == h.dom[o]
      s1 == [s EXCEPT !.heap = [h EXCEPT !.ptr = Remove(@, {l}), !.dead = @ \ {l}, !.weak = @ \ {l}]]
  IN IF l \in h.dead THEN s1
     ELSE LET s2 == Dropped(s1, t, o)
          IN [s2 EXCEPT !.op[t].due[d] = IF s.col[t][d] = 0 THEN @ + 1 ELSE @,
                        !.op[t].drs = @ + 1,
                        !.op[t].fuzzy = @ \/ l \in h.weak]

(* Looking through a pointer; res is the object found, 0 for none, negative for nonsense. *)
EvRead(s, t, l, res) ==
  LET h == s.heap IN
  IF l \in h.dead THEN Flag(s, res # 0, "deadSome")
  ELSE IF l \in h.weak
  THEN LET s1 == Flag(s, res # 0 /\ (res # h.ptr[l] \/ h.st[h.ptr[l]] # "L"), "readBad")
       IN [s1 EXCEPT !.heap = Resolve(@, l, res # 0)]
  ELSE Flag(Flag(s, res = 0, "liveNone"), res # 0 /\ res # h.ptr[l], "readBad")

Usable(s, l) == l \in Strong(s.heap)

EvPtrEq(s, t, a, b, r) ==
  Flag(s, Usable(s, a) /\ Usable(s, b) /\ (r = 1) # (s.heap.ptr[a] = s.heap.ptr[b]), "ptrEq")
EvAddrEq(s, t, a, b, r) ==
  Flag(s, Usable(s, a) /\ Usable(s, b) /\ (r = 1) # (s.heap.ptr[a] = s.heap.ptr[b]), "asPtr")
(* The equality of the values: neither reflexive (like that of floats) nor identity. *)
ValEq(i, j) == i % 2 = j % 2 /\ i % 4 # 3 /\ j % 4 # 3
EvValEq(s, t, a, b, r) ==
  Flag(s, Usable(s, a) /\ Usable(s, b) /\ (r = 1) # ValEq(s.heap.ptr[a], s.heap.ptr[b]), "valEq")

-----------------------------------------------------------------------------
(* Collections. *)

(* From here on the garbage G is doomed: pointers among it are dead. *)
Doom(s, G) ==
  [s EXCEPT !.heap.dead = @ \cup {l \in Strong(s.heap) : /\ IsSlot(l) /\ Owner(l) \in G
                                                         /\ s.heap.ptr[l] \in G}]

(* Is the garbage set of a collection started now by t determined by the history? *)
Determined(s, t, d, kind) ==
  /\ Calm(s) /\ s.lock = {} /\ ~s.pan
  /\ (d = 0 \/ (~s.multi /\ kind = 1))

StartCollect(s, t, d, kind) ==
  LET s1 == IF Determined(s, t, d, kind) THEN Doom(s, GarbageOf(s.heap, t, d, TRUE)) ELSE s
  IN SetDc([s1 EXCEPT !.col[t][d] = kind, !.gs[t][d] = GarbageOf(s.heap, t, d, TRUE)], t, d, 0)

EvCollectStart(s, t, d) ==
  LET s1 == [s EXCEPT !.lvl[t][d] = @ + 1, !.hs[t] = IF d = 1 THEN s.handed ELSE @]
  IN IF s.col[t][d] = 0 THEN StartCollect(s1, t, d, 1) ELSE s1

(* collect() returned *)
EvCollectEnd(s, t, d) ==
  LET outer == s.lvl[t][d] = 1 /\ s.col[t][d] = 1
      top == outer /\ s.stk[t] = <<>> /\ ~s.op[t].pan
      G == GarbageOf(s.heap, t, d, TRUE) \cap s.gs[t][d]
      s1 == Flag(s, top /\ d = 0 /\ G \ Involved(s, G) # {}, "leakU")
      s2 == Flag(s1, top /\ d = 1 /\ ~s.multi /\ G \ Involved(s, G) # {}, "leakS")
      s3 == Flag(s2, top /\ d = 1 /\ (s.hs[t] \cap Live(s.heap)) \ Involved(s, Garbage(s.heap, 1, TRUE)) # {}, "leakHanded")
  IN [s3 EXCEPT !.lvl[t][d] = @ - 1, !.col[t][d] = IF outer THEN 0 ELSE @]

EvSetCond(s, t, d, c) ==
  IF d = 0 THEN [s EXCEPT !.cond[t] = c]
  ELSE [s EXCEPT !.scond = c, !.scm = @ \/ s.multi]

(* The condition was consulted, with statistics dd (drops) and n (existing), and answered r. *)
EvConsult(s, t, d, dd, n, r, c) ==
  LET calm == Calm(s)
      s1 == Flag(s, c # CondOf(s, t, d) /\ ~(d = 1 /\ s.scm), "condWrong")
      s2 == Flag(s1, Exact(s, d) /\ Dc(s, t, d) >= 0 /\ dd # Dc(s, t, d) + 1, "cntD")
      s3 == Flag(s2, Exact(s, d) /\ calm /\ n # Pointers(s.heap, t, d), "cntN")
      s4 == Flag(s3, Exact(s, d) /\ c = 2 /\ (r = 1) # (dd > n), "condDefault")
      s5 == SetDc([s4 EXCEPT !.op[t].cbs[d] = @ + 1], t, d,
                  IF Dc(s, t, d) >= 0 THEN Dc(s, t, d) + 1 ELSE -1)
  IN IF r = 0 THEN [s5 EXCEPT !.col[t][d] = IF @ \in {2, 3} THEN 0 ELSE @]
     ELSE LET s6 == [s5 EXCEPT !.op[t].trueAt[d] = TRUE, !.op[t].hand = IF d = 1 THEN @ \cup s.handed ELSE @,
                               !.op[t].fuzzy = @ \/ s.stk[t] # <<>> \/ s.heap.limbo # {}]
          IN IF s.col[t][d] = 1 THEN s6 ELSE StartCollect(s6, t, d, 2)

EvProbe(s, t, d, dd, n) ==
  LET s1 == Flag(s, Exact(s, d) /\ Dc(s, t, d) >= 0 /\ dd # Dc(s, t, d) + 1, "cntD")
      s2 == Flag(s1, Exact(s, d) /\ Calm(s) /\ n # Pointers(s.heap, t, d), "cntN")
  IN SetDc(s2, t, d, dd)

(* Many pointers were dropped in a row, with q consultations of a condition that refuses; enough to *)
(* make the thread hand over what it knows.                                                         *)
EvManyDrops(s, t, d, k, q) ==
  LET s1 == SetDc(Flag(s, q # k, "condCount"), t, d, IF Dc(s, t, d) >= 0 THEN Dc(s, t, d) + k ELSE -1)
      G == Garbage(s.heap, 1, TRUE)
  IN IF d = 1 /\ k > 100000
     THEN [s1 EXCEPT !.handed = @ \cup (IF \A o \in G : s.heap.own[o] = t /\ s.cby[o] \subseteq {t}
                                        THEN G ELSE {})]
     ELSE s1

-----------------------------------------------------------------------------
(* Destruction. *)

SlotsOf(h, o) == {l \in (100000 + o*64)..(100039 + o*64) : l \in DOMAIN h.ptr}

EvDestroy(s, t, o, ok) ==
  LET h == s.heap
      d == h.dom[o]
      cyc == Count(h, o, FALSE) > 0
      may == \/ s.col[t][d] # 0 \/ CondOf(s, t, d) = Unlogged \/ t \in s.exiting
      s1 == Flag(s, ok = 0, "dropBad")
      s2 == Flag(s1, h.st[o] # "L", "dropTwice")
      s3 == Flag(s2, h.st[o] = "L" /\ o \in Reach(h, d, FALSE), IF d = 0 THEN "reachU" ELSE "reachS")
      s4 == Flag(s3, cyc /\ ~may, "condFalse")
      s4b == Flag(s4, d = 0 /\ h.own[o] # t, "foreign")
      (* a collection nobody announced *)
      s5 == IF cyc /\ s.col[t][d] = 0 THEN StartCollect(s4b, t, d, 3) ELSE s4b
      h1 == [s5.heap EXCEPT !.st[o] = "D", !.by[o] = t]
      mine == SlotsOf(h1, o) \cap Strong(h1)
      gone == {l \in mine : h1.st[h1.ptr[l]] # "L"}
      hx == [h1 EXCEPT !.weak = @ \cup mine]
      unsure == IF s5.col[t][d] # 0
                THEN {l \in mine \ gone : /\ h1.dom[h1.ptr[l]] = d
                                          /\ h1.ptr[l] \notin Reach(hx, d, TRUE)}
                ELSE {}
      h2 == [h1 EXCEPT !.dead = @ \cup gone, !.weak = @ \cup unsure]
  IN IF h.st[o] # "L" THEN s2
     ELSE [s5 EXCEPT !.heap = h2, !.stk[t] = Append(@, o), !.op[t].vds = @ + 1, !.bycol = IF cyc THEN @ \cup {o} ELSE @]

(* The destructor body is over; the fields are released next. *)
Unstack(s, t, S) ==
  LET h == s.heap
      sl == UNION {SlotsOf(h, o) : o \in S}
      due(d) == Cardinality({l \in sl \cap Strong(h) : h.dom[h.ptr[l]] = d})
  IN [s EXCEPT !.heap = [h EXCEPT !.st = [x \in DOMAIN @ |-> IF x \in S THEN "X" ELSE @[x]],
                                  !.limbo = @ \cup sl],
               !.stk[t] = SelectSeq(@, LAMBDA x : x \notin S),
               !.op[t].due = [d \in Doms |-> IF s.col[t][d] = 0 THEN @[d] + due(d) ELSE @[d]],
               !.op[t].fuzzy = @ \/ sl \cap h.weak # {}]

EvDestroyed(s, t, o) == IF s.heap.st[o] = "D" THEN Unstack(s, t, {o}) ELSE s

(* The destructor body panics: everything it interrupted is unwound. *)
EvPanicIn(s, t, o) ==
  LET S == {s.stk[t][k] : k \in DOMAIN s.stk[t]} \cup (IF s.heap.st[o] = "D" THEN {o} ELSE {})
      s1 == Unstack(s, t, S)
  IN [s1 EXCEPT !.pan = TRUE, !.op[t].pan = TRUE, !.op[t].fuzzy = TRUE,
                !.nofr = @ \cup ((S \cup {x \in DOMAIN s.heap.st : s.heap.st[x] = "X"}) \ s.bycol)]

(* Forget the pointers in the slots of released values; their targets lost a pointer. *)
RECURSIVE DropAll(_, _, _)
DropAll(s, t, os) ==
  IF os = {} THEN s
  ELSE LET o == CHOOSE x \in os : TRUE IN DropAll(Dropped(s, t, o), t, os \ {o})

Forget(s, t, sl) ==
  LET h == s.heap
      os == {h.ptr[l] : l \in sl \cap Strong(h)}
      s1 == [s EXCEPT !.heap = [h EXCEPT !.ptr = Remove(@, sl), !.dead = @ \ sl, !.weak = @ \ sl,
                                         !.limbo = @ \ sl],
                      !.lock = @ \ sl]
  IN DropAll(s1, t, os)

EvFree(s, t, o, ok) ==
  LET h == s.heap
      s1 == Flag(s, ok = 0, "layout")
      s2 == Flag(s1, h.st[o] # "X", "freeBad")
  IN Forget([s2 EXCEPT !.heap.st[o] = "F"], t, SlotsOf(h, o))

-----------------------------------------------------------------------------
(* The end of an operation of thread t, at which the program observes the outcome. *)

EvEnd(s, t) ==
  LET h == s.heap
      o == s.op[t]
      zero == {x \in Live(h) : Count(h, x, TRUE) = 0} \ s.pex
      s1 == Flag(s, \E x \in zero : h.dom[x] = 0 /\ h.own[x] = t, "prompt")
      s2 == Flag(s1, /\ ~s.multi
                     /\ \E x \in zero : h.dom[x] = 1 /\ (h.node[x] = 0 \/ x \notin s.cand), "promptS")
      s3 == Flag(s2, \E x \in DOMAIN h.st : h.st[x] = "X" /\ h.by[x] = t /\ x \notin s.nofr, "notFreed")
      s4 == Flag(s3, /\ ~o.fuzzy /\ ~o.pan
                     /\ \E d \in Doms : /\ CondOf(s, t, d) # Unlogged /\ ~(d = 1 /\ s.scm)
                                        /\ ~o.trueAt[d] /\ o.cbs[d] # o.due[d], "condCount")
      s5 == Flag(s4, o.trueAt[0] /\ ~o.pan /\ GarbageOf(h, t, 0, TRUE) \cap s.gs[t][0] # {} /\ s.lock = {}, "condTrue")
      s6 == Flag(s5, ~o.pan /\ (o.hand \cap Live(h)) \ Involved(s, Garbage(h, 1, TRUE)) # {}, "condTrue")
      (* the built-in default condition, where what it must have answered is determined *)
      simple == /\ s.cond[t] = Unlogged /\ Exact(s, 0) /\ s.dc[t] >= 0 /\ s.col[t][0] \in {0, 3}
      n == Pointers(h, t, 0)
      one == simple /\ o.due[0] = 1 /\ o.drs = 1
      fire == s.dc[t] + 1 > n + (IF o.vds > 0 THEN 1000 ELSE 0)
      s7 == Flag(s6, one /\ o.vds = 0 /\ fire /\ GarbageOf(h, t, 0, TRUE) # {} /\ s.lock = {}, "condDefault")
      s8 == IF s.cond[t] # Unlogged THEN s7
            ELSE IF o.due[0] = 0 /\ o.vds = 0 THEN s7
            ELSE IF one /\ o.vds = 0 THEN SetDc(s7, t, 0, IF fire THEN 0 ELSE s.dc[t] + 1)
            ELSE SetDc(s7, t, 0, -1)
      s9 == IF s.scond # Unlogged \/ (o.due[1] = 0 /\ o.vds = 0) THEN s8
            ELSE SetDc(s8, t, 1, -1)
      gone == {l \in h.limbo : h.by[Owner(l)] = t}
      s10 == Forget(s9, t, gone)
  IN [s10 EXCEPT !.op[t] = NoOp,
                 !.stk[t] = <<>>,
                 !.lvl[t] = [d \in Doms |-> 0],
                 !.col[t] = [d \in Doms |-> 0]]

(* The operation ended in a panic. *)
EvPanic(s, t, scripted) ==
  LET s1 == Flag(s, scripted = 0 \/ ~s.op[t].pan, "panic")
  IN [s1 EXCEPT !.pan = TRUE, !.op[t].pan = TRUE, !.op[t].fuzzy = TRUE,
                !.pex = @ \cup Garbage(s.heap, 0, FALSE) \cup Garbage(s.heap, 1, FALSE),
                !.nofr = @ \cup ({x \in DOMAIN s.heap.st : s.heap.st[x] \in {"D", "X"}} \ s.bycol)]

-----------------------------------------------------------------------------
(* Threads. *)

EvExitBegin(s, t) ==
  LET h == s.heap
      slots == {l \in Strong(h) : IsSlot(l)}
      e == {l \in Strong(h) : l \in 900..999}   \* dropped later, at best by destructors
  IN [s EXCEPT !.exiting = @ \cup {t}, !.late[t] = Grow(h, slots, {h.ptr[l] : l \in e})]

EvExit(s, t) ==
  LET s1 == EvEnd(s, t)
      h == s1.heap
      G == {o \in Garbage(h, 0, TRUE) : h.own[o] = t} \ s1.late[t]
      S == Garbage(h, 1, TRUE)
      s2 == Flag(s1, G \ Involved(s1, Garbage(h, 0, TRUE)) # {}, "leakExit")
  IN [s2 EXCEPT !.exiting = @ \ {t},
                !.handed = @ \cup (IF \A o \in S : s1.cby[o] \subseteq {t} THEN S ELSE {})]

EvFork(s, t) == [s EXCEPT !.multi = TRUE]
EvJoin(s, t) == [s EXCEPT !.multi = FALSE, !.scm = FALSE, !.sdc = -1]

EvLock(s, t, l)   == [s EXCEPT !.lock = @ \cup {l}]
EvUnlock(s, t, l) == [s EXCEPT !.lock = @ \ {l}]
=============================================================================
