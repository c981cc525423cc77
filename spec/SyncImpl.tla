------------------------------ MODULE SyncImpl ------------------------------
(***************************************************************************)
(* The concurrent collector, one step per access to shared memory.         *)
(*                                                                         *)
(* Thread 1 collects, the other threads work with pointers.  What must     *)
(* hold is what the contract (GcHeap) says about the thread-safe module:   *)
(* nothing reachable is destroyed, nothing is touched after it was freed,  *)
(* and what is unreachable when everything is quiet is gone after the next *)
(* collection.                                                             *)
(*                                                                         *)
(* Bug names a deviation from the algorithm (DESIGN.md lists them).  The   *)
(* counterexamples to the deviations are schedules that the implementation *)
(* is then run under.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS N,        \* allocations
          K,        \* pointers an allocation can hold
          Fixed,    \* of which so many never change; the others are guarded by a lock each
          P,        \* pointers altogether
          Threads,  \* number of threads, the first one collects
          Budget,   \* operations of each other thread
          Ops,      \* what the other threads do
          Colls,    \* collections while the other threads run
          Gone,     \* whether the other threads are ending and have lost their lists of suspects
          Log,      \* whether to keep a record of what the threads do
          Bug

Obj == 1..N
Ptr == 1..P
Slots == 1..K
Open == 1..(K - Fixed)           \* slots guarded by locks
Still == (K - Fixed + 1)..K      \* slots set for good
Thr == 1..Threads
Mut == 2..Threads

VARIABLES h,     \* memory shared by all threads
          l,     \* what each thread is doing
          c,     \* the collection
          err    \* what went wrong
vars == <<h, l, c, err>>

NoNode == [in |-> FALSE, r |-> FALSE, una |-> 0, kids |-> {}]

-----------------------------------------------------------------------------
(* Helpers *)

Rng(q) == {q[i] : i \in DOMAIN q}
Used(hh) == {p \in Ptr : hh.to[p] # -1}
Fresh(hh) == CHOOSE p \in Ptr : hh.to[p] = -1 /\ \A q \in Ptr : hh.to[q] = -1 => p <= q
HasFresh(hh) == \E p \in Ptr : hh.to[p] = -1
In(hh, o) == {hh.slot[o][k] : k \in Slots} \ {0}

(* what the threads can get at *)
Roots(hh, ll) == UNION {{hh.to[p] : p \in ll[t].stk} : t \in Thr} \ {0, -1}
Succ(hh, S) == S \cup (UNION {{hh.to[p] : p \in In(hh, o)} : o \in {x \in S : hh.st[x] = "ok"}} \ {0, -1})
RECURSIVE Close(_, _)
Close(hh, S) == LET T == Succ(hh, S) IN IF T = S THEN S ELSE Close(hh, T)
Live(hh, ll) == Close(hh, Roots(hh, ll))

RECURSIVE Marked(_, _)
Marked(g, S) ==   \* mark S and what is known below reachable
  LET new == {o \in S : g[o].in /\ ~g[o].r} IN
  IF new = {} THEN g
  ELSE Marked([o \in Obj |-> IF o \in new THEN [g[o] EXCEPT !.r = TRUE, !.kids = {}] ELSE g[o]],
              IF "noKids" \in Bug THEN {} ELSE UNION {g[o].kids : o \in new})

Touch(o) == IF h.st[o] # "ok" THEN "freed memory used" ELSE ""

-----------------------------------------------------------------------------
(* Dropping pointers: the head of work is being dropped.  Also run by the  *)
(* collector for what it destroys.                                         *)

DropPcs == {"d1", "d2", "d3", "d4", "dclean", "d6", "dhas", "dirty", "dput", "dback", "d8"}
Done(lt) == [lt EXCEPT !.work = Tail(@), !.x = 0, !.pc = IF Len(lt.work) = 1 THEN lt.ret ELSE "d1"]

(* release the memory of o: its pointers are dropped, then it is gone *)
Release(hh, lt, o) ==
  LET ps == SelectSeq([k \in Slots |-> hh.slot[o][k]], LAMBDA p : p # 0)
      live == SelectSeq(ps, LAMBDA p : hh.to[p] > 0)
  IN <<[hh EXCEPT !.st[o] = "free", !.slot[o] = [k \in Slots |-> 0],
                  !.to = [p \in Ptr |-> IF p \in Rng(ps) /\ hh.to[p] = 0 THEN -1 ELSE hh.to[p]]],
       [lt EXCEPT !.work = live \o Tail(@), !.x = 0,
                  !.pc = IF live \o Tail(lt.work) = <<>> THEN lt.ret ELSE "d1"]>>

DropStep(t) ==
  LET lt == l[t] p == Head(lt.work) o == h.to[p]
      upd(hh, ltt) == h' = hh /\ l' = [l EXCEPT ![t] = ltt]
      gone(hh) == [hh EXCEPT !.to[p] = -1]
  IN
  /\ UNCHANGED c
  /\ CASE lt.pc = "d1" -> /\ err' = Touch(o)
                          /\ upd(IF "dropNoWeak" \in Bug THEN h ELSE [h EXCEPT !.weak[o] = @ + 1], [lt EXCEPT !.pc = "d2"])
       [] lt.pc = "d2" -> /\ upd(h, [lt EXCEPT !.x = h.tag, !.pc = "d3"]) /\ UNCHANGED err
       [] lt.pc = "d3" -> /\ err' = Touch(o)
                          /\ upd(IF Bug \cap {"dropNoGen", "dropLateGen"} # {} THEN h ELSE [h EXCEPT !.gen[o] = lt.x], [lt EXCEPT !.pc = "d4"])
       [] lt.pc = "d4" -> /\ err' = IF h.strong[o] = 0 THEN "strong underflow" ELSE Touch(o)
                          /\ upd([h EXCEPT !.strong[o] = @ - 1],
                                 [lt EXCEPT !.pc = IF h.strong[o] = 1 THEN "dclean" ELSE "dhas"])
       [] lt.pc = "dclean" -> /\ err' = Touch(o)
                              /\ IF o \in lt.dump /\ "noClean" \notin Bug
                                 THEN upd([h EXCEPT !.weak[o] = @ - 1], [lt EXCEPT !.dump = @ \ {o}, !.pc = "d6"])
                                 ELSE upd(h, [lt EXCEPT !.pc = "d6"])
       [] lt.pc = "d6" ->
            LET w == h.weak[o] - (IF "dropNoWeak" \in Bug THEN 1 ELSE 2)
                h2 == gone([h EXCEPT !.weak[o] = w, !.gen[o] = IF "dropLateGen" \in Bug THEN lt.x ELSE @]) IN
            /\ err' = IF w < 0 THEN "weak underflow" ELSE Touch(o)
            /\ IF w = 0 THEN LET r == Release(h2, lt, o) IN upd(r[1], r[2])
               ELSE upd(h2, Done(lt))
       [] lt.pc = "dhas" ->   \* does it contain pointers?
            /\ err' = Touch(o)
            /\ upd(h, [lt EXCEPT !.pc = IF "noDirty" \notin Bug /\ (In(h, o) # {} \/ ("busyClean" \notin Bug /\ \E k \in Open : h.lk[o][k] # 0))
                                       THEN "dirty" ELSE "d8"])
       [] lt.pc = "dirty" /\ Gone /\ t # 1 ->   \* hand over directly, together with the weak reference
            /\ err' = Touch(o)
            /\ IF "lateKeepWeak" \in Bug THEN upd([h EXCEPT !.weak[o] = @ + 1], [lt EXCEPT !.pc = "dput"])
               ELSE upd(gone(IF o \in h.truck THEN [h EXCEPT !.weak[o] = @ - 1] ELSE [h EXCEPT !.truck = @ \cup {o}]), Done(lt))
       [] lt.pc = "dput" ->
            /\ UNCHANGED err
            /\ upd([h EXCEPT !.truck = @ \cup {o}], [lt EXCEPT !.pc = IF o \in h.truck THEN "dback" ELSE "d8"])
       [] lt.pc = "dback" ->
            /\ err' = Touch(o)
            /\ upd([h EXCEPT !.weak[o] = @ - 1], [lt EXCEPT !.pc = "d8"])
       [] lt.pc = "dirty" -> /\ err' = Touch(o)
                             /\ IF o \in lt.dump /\ "dupDirty" \notin Bug THEN upd(h, [lt EXCEPT !.pc = "d8"])
                                ELSE upd([h EXCEPT !.weak[o] = @ + 1], [lt EXCEPT !.dump = @ \cup {o}, !.pc = "d8"])
       [] lt.pc = "d8" ->
            LET w == h.weak[o] - (IF "dropNoWeak" \in Bug THEN 0 ELSE 1)
                h2 == gone([h EXCEPT !.weak[o] = w, !.gen[o] = IF "dropLateGen" \in Bug THEN lt.x ELSE @]) IN
            /\ err' = IF w < 0 THEN "weak underflow" ELSE Touch(o)
            /\ IF w = 0 /\ "noLastWeak" \notin Bug THEN LET r == Release(h2, lt, o) IN upd(r[1], r[2])
               ELSE upd(h2, Done(lt))

-----------------------------------------------------------------------------
(* The other threads *)

(* A thread has references into allocations; each depends on a pointer it holds.  References can be   *)
(* older than the collection that runs.                                                               *)
Seen(lt) == {r.o : r \in lt.refs}
Without(lt, p) == [lt EXCEPT !.stk = @ \ {p}, !.refs = {r \in @ : r.p # p}]
(* pointers that can be read without a lock, with what the references through them depend on *)
Readable(lt) == {<<p, p>> : p \in lt.stk} \cup
                UNION {{<<h.slot[r.o][k], r.p>> : k \in {k \in Still : h.slot[r.o][k] # 0}} : r \in lt.refs}
Places(lt) == {<<o, k>> \in Seen(lt) \X Open : h.lk[o][k] = 0}

Begin(t) ==
  LET lt == l[t]
      set(hh, ltt) == h' = hh /\ l' = [l EXCEPT ![t] = ltt]
      less(op, a, b, p) == [lt EXCEPT !.left = @ - 1, !.log = IF Log THEN Append(@, <<op, a, b, p>>) ELSE @]
      can(op) == lt.left > 0 /\ op \in Ops
      free == lt.lock = <<>>
      dead(p) == h.to[p] = 0
  IN
  /\ lt.pc = "idle" /\ UNCHANGED c
  /\ \/ /\ can("deref")
        /\ \E q \in Readable(lt) :
             IF dead(q[1]) THEN err' = "dead pointer" /\ UNCHANGED <<h, l>>
             ELSE set(h, [less("deref", 0, 0, q[1]) EXCEPT !.pc = "b1", !.p = q[1], !.n = q[2]]) /\ UNCHANGED err
     \/ /\ can("clone") /\ HasFresh(h)
        /\ \E p \in {q[1] : q \in Readable(lt)} :
             IF dead(p) THEN err' = "dead pointer" /\ UNCHANGED <<h, l>>
             ELSE set([h EXCEPT !.to[Fresh(h)] = 0],   \* reserve
                      [less("clone", 0, Fresh(h), p) EXCEPT !.pc = "a1", !.p = p, !.n = Fresh(h)]) /\ UNCHANGED err
     \/ /\ can("load") /\ HasFresh(h) /\ free          \* clone out of a guarded slot
        /\ \E w \in Places(lt) :
             LET p == h.slot[w[1]][w[2]] IN
             /\ p # 0
             /\ IF dead(p) THEN err' = "dead pointer" /\ UNCHANGED <<h, l>>
                ELSE set([h EXCEPT !.to[Fresh(h)] = 0, !.lk[w[1]][w[2]] = t],
                         [less("load", w[1], w[2], Fresh(h)) EXCEPT !.pc = "a1", !.p = p, !.n = Fresh(h), !.lock = w]) /\ UNCHANGED err
     \/ /\ can("drop")
        /\ \E p \in {p \in lt.stk : lt.lock = <<>> \/ \E r \in lt.refs : r.o = lt.lock[1] /\ r.p # p} :
             IF dead(p) THEN err' = "dead pointer" /\ UNCHANGED <<h, l>>
             ELSE set(h, [Without(less("drop", 0, 0, p), p) EXCEPT !.pc = "d1", !.ret = "idle", !.work = <<p>>]) /\ UNCHANGED err
     \/ /\ can("new") /\ HasFresh(h)
        /\ \E o \in Obj : /\ h.st[o] = "un" /\ \A q \in Obj : h.st[q] = "un" => o <= q
                          /\ set([h EXCEPT !.st[o] = "ok", !.strong[o] = 1, !.weak[o] = 1, !.gen[o] = IF "newOld" \in Bug THEN 0 ELSE h.tag,
                                           !.to[Fresh(h)] = o, !.ptag[Fresh(h)] = 0],
                                 [less("new", o, 0, Fresh(h)) EXCEPT !.stk = @ \cup {Fresh(h)}])
        /\ UNCHANGED err
     \/ /\ can("take") /\ free /\ UNCHANGED err        \* lock, take out, unlock
        /\ \E w \in Places(lt) : /\ h.slot[w[1]][w[2]] # 0
                                 /\ set([h EXCEPT !.slot[w[1]][w[2]] = 0], [less("take", w[1], w[2], h.slot[w[1]][w[2]]) EXCEPT !.stk = @ \cup {h.slot[w[1]][w[2]]}])
     \/ /\ can("put") /\ free /\ UNCHANGED err
        /\ \E w \in Places(lt), p \in lt.stk :
             /\ h.slot[w[1]][w[2]] = 0
             /\ \E r \in lt.refs : r.o = w[1] /\ r.p # p
             /\ set([h EXCEPT !.slot[w[1]][w[2]] = p], Without(less("put", w[1], w[2], p), p))
     \/ /\ can("hold") /\ free /\ UNCHANGED err
        /\ \E w \in Places(lt) : set([h EXCEPT !.lk[w[1]][w[2]] = t], [less("hold", w[1], w[2], 0) EXCEPT !.lock = w])
     \/ /\ ~free /\ UNCHANGED err /\ set([h EXCEPT !.lk[lt.lock[1]][lt.lock[2]] = 0], [lt EXCEPT !.lock = <<>>, !.log = IF Log THEN Append(@, <<"unlock", 0, 0, 0>>) ELSE @])
     \/ /\ free /\ can("deliver") /\ lt.dump # {}
        /\ set(h, [less("deliver", 0, 0, 0) EXCEPT !.pc = "deliver"]) /\ UNCHANGED err

MutStep(t) ==
  LET lt == l[t] p == lt.p o == h.to[p]
      set(hh, ltt) == h' = hh /\ l' = [l EXCEPT ![t] = ltt]
      rest == [lt EXCEPT !.n = 0, !.p = 0, !.x = 0, !.pc = "idle"]
  IN
  /\ UNCHANGED c
  /\ CASE lt.pc = "a1" -> err' = Touch(o) /\ set(IF "cloneLateStrong" \in Bug THEN h ELSE [h EXCEPT !.strong[o] = @ + 1],
                                                 [lt EXCEPT !.pc = "a2"])
       [] lt.pc = "a2" -> UNCHANGED err /\ set(h, [lt EXCEPT !.x = h.tag, !.pc = "a3"])
       [] lt.pc = "a3" -> err' = Touch(o) /\ set(IF "cloneNoGen" \in Bug THEN h ELSE [h EXCEPT !.gen[o] = lt.x], [lt EXCEPT !.pc = "a4"])
       [] lt.pc = "a4" -> err' = Touch(o) /\ set([h EXCEPT !.to[lt.n] = o, !.ptag[lt.n] = IF "cloneTag0" \in Bug THEN 0 ELSE h.tag,
                                                           !.strong[o] = IF "cloneLateStrong" \in Bug THEN @ + 1 ELSE @],
                                                 [rest EXCEPT !.stk = @ \cup {lt.n}])
       [] lt.pc = "b1" -> UNCHANGED err /\ set(h, [lt EXCEPT !.x = h.tag, !.pc = "b2"])
       [] lt.pc = "b2" -> UNCHANGED err /\ set(IF "derefNoTag" \in Bug THEN h ELSE [h EXCEPT !.ptag[p] = lt.x], [lt EXCEPT !.pc = "b3"])
       [] lt.pc = "b3" -> err' = Touch(o) /\ set(IF "derefNoGen" \in Bug THEN h ELSE [h EXCEPT !.gen[o] = lt.x],
                                                 [rest EXCEPT !.refs = @ \cup {[p |-> lt.n, o |-> o]}])
       [] lt.pc = "deliver" ->   \* hand over what is suspected
            \E x \in lt.dump : /\ err' = Touch(x)
                                    /\ set(IF x \in h.truck THEN (IF "dupDeliver" \in Bug THEN h ELSE [h EXCEPT !.weak[x] = @ - 1])
                                           ELSE [h EXCEPT !.truck = @ \cup {x}],
                                           [lt EXCEPT !.dump = @ \ {x}, !.pc = IF lt.dump = {x} THEN "idle" ELSE "deliver"])

-----------------------------------------------------------------------------
(* The collector *)

Frame == c.fr[Len(c.fr)]
Q == h.slot[Frame.o][Frame.k]          \* the pointer being looked at
(* the slot through which we came here is done, too *)
Pop(cc) == [cc EXCEPT !.fr = SubSeq(@, 1, Len(@) - 1), !.pc = IF Len(cc.fr) = 1 THEN "pick" ELSE "unlock"]
Leave(cc) == [cc EXCEPT !.pc = "unlock"]       \* done with this slot
(* steps that no other thread can notice or influence are taken at once *)
Silent == \/ c.pc \in {"slot", "account", "mark"}
          \/ c.pc = "try" /\ Frame.k \notin Open
          \/ c.pc = "unlock" /\ Frame.k \in Still

Quiet == \A t \in Mut : l[t].pc = "idle" /\ l[t].lock = <<>>

CollStep ==
  LET G == c.g
      go(hh, cc) == h' = hh /\ c' = cc /\ UNCHANGED l
      ok == UNCHANGED err
  IN
  CASE c.pc = "idle" ->
         /\ c.n > 0 /\ go(h, [c EXCEPT !.pc = "deliver", !.n = @ - 1]) /\ ok
    [] c.pc = "deliver" ->
         IF l[1].dump = {}
         THEN /\ h' = [h EXCEPT !.truck = {}]
              /\ c' = [c EXCEPT !.todo = h.truck, !.pc = IF "lateTag" \in Bug THEN "pick" ELSE "tag"]
              /\ UNCHANGED l /\ ok
         ELSE \E x \in l[1].dump :
                /\ h' = IF x \in h.truck THEN (IF "dupDeliver" \in Bug THEN h ELSE [h EXCEPT !.weak[x] = @ - 1]) ELSE [h EXCEPT !.truck = @ \cup {x}]
                /\ l' = [l EXCEPT ![1].dump = @ \ {x}] /\ UNCHANGED c /\ err' = Touch(x)
    [] c.pc = "tag" -> /\ go(IF "noTagStep" \in Bug THEN h ELSE [h EXCEPT !.tag = @ + 1], [c EXCEPT !.pc = IF "lateTag" \in Bug THEN "roots" ELSE "pick"]) /\ ok
    [] c.pc = "pick" ->
         IF c.todo = {} THEN go(h, [c EXCEPT !.pc = IF "lateTag" \in Bug THEN "tag" ELSE "roots", !.todo = {o \in Obj : G[o].in}, !.roots = {}]) /\ ok
         ELSE \E o \in c.todo :
                LET c2 == [c EXCEPT !.todo = @ \ {o}] IN
                /\ err' = Touch(o)
                /\ IF G[o].in THEN go([h EXCEPT !.weak[o] = @ - 1], c2)
                   ELSE go(h, [c2 EXCEPT !.g[o] = [in |-> TRUE, r |-> FALSE, una |-> h.strong[o], kids |-> {}],
                                         !.fr = <<[o |-> o, k |-> 1]>>, !.pc = "try"])
    [] c.pc = "try" ->      \* enter a slot
         IF Frame.k > K THEN go(h, [c EXCEPT !.pc = "ogen"]) /\ ok
         ELSE IF Frame.k \in Still THEN go(h, [c EXCEPT !.pc = "slot"]) /\ ok
         ELSE /\ err' = Touch(Frame.o)
              /\ IF h.lk[Frame.o][Frame.k] # 0
                 THEN go(h, IF \/ "busyIsFine" \in Bug \/ ("busyRootFine" \in Bug /\ Len(c.fr) = 1)
                               \/ ("busyKidFine" \in Bug /\ Len(c.fr) > 1) THEN [c EXCEPT !.pc = "ogen"]
                            ELSE Pop([c EXCEPT !.g = Marked(@, {Frame.o})]))
                 ELSE go([h EXCEPT !.lk[Frame.o][Frame.k] = 1], [c EXCEPT !.pc = "slot"])
    [] c.pc = "slot" ->
         /\ ok
         /\ go(h, IF Q = 0 \/ h.to[Q] = 0 THEN Leave(c) ELSE [c EXCEPT !.pc = "swap"])
    [] c.pc = "swap" ->
         /\ ok
         /\ IF h.ptag[Q] >= h.tag /\ "noTagCheck" \notin Bug
            THEN go([h EXCEPT !.ptag[Q] = h.tag], Leave([c EXCEPT !.g = Marked(@, {Frame.o})]))
            ELSE go([h EXCEPT !.ptag[Q] = h.tag], [c EXCEPT !.pc = "tgen"])
    [] c.pc = "tgen" ->
         LET o == h.to[Q] IN
         /\ err' = Touch(o)
         /\ IF h.gen[o] >= h.tag /\ "noTargetGen" \notin Bug THEN go(h, Leave(c))
            ELSE go(h, [c EXCEPT !.pc = "account"])
    [] c.pc = "account" ->
         LET o == h.to[Q] f == Frame.o IN
         IF G[f].r THEN go(h, Leave(c)) /\ ok
         ELSE LET g2 == [G EXCEPT ![f].kids = @ \cup {o}] IN
              IF G[o].in
              THEN /\ go(h, Leave([c EXCEPT !.g = IF g2[o].r THEN g2
                                                 ELSE [g2 EXCEPT ![o].una = @ - 1]]))
                   /\ err' = IF ~g2[o].r /\ g2[o].una = 0 THEN "more pointers than counted" ELSE ""
              ELSE go(h, [c EXCEPT !.g = g2, !.pc = "str"]) /\ ok
    [] c.pc = "str" ->
         LET o == h.to[Q] IN
         /\ err' = IF h.strong[o] = 0 THEN "more pointers than counted" ELSE Touch(o)
         /\ go(h, [c EXCEPT !.x = h.strong[o], !.pc = "wk"])
    [] c.pc = "wk" ->
         LET o == h.to[Q] IN
         /\ err' = Touch(o)
         /\ go([h EXCEPT !.weak[o] = @ + 1],
               [c EXCEPT !.g[o] = [in |-> TRUE, r |-> FALSE, una |-> c.x - 1, kids |-> {}],
                         !.fr = Append(c.fr, [o |-> o, k |-> 1]), !.pc = "try"])
    [] c.pc = "unlock" ->
         LET c2 == [c EXCEPT !.fr[Len(c.fr)].k = @ + 1, !.pc = "try"] IN
         IF Frame.k \in Still THEN go(h, c2) /\ ok
         ELSE /\ err' = Touch(Frame.o)
              /\ go([h EXCEPT !.lk[Frame.o][Frame.k] = 0], c2)
    [] c.pc = "ogen" ->
         /\ err' = Touch(Frame.o)
         /\ IF /\ h.gen[Frame.o] >= h.tag /\ "noOwnGen" \notin Bug
               /\ ~("noRootGen" \in Bug /\ Len(c.fr) = 1) /\ ~("noKidGen" \in Bug /\ Len(c.fr) > 1) THEN go(h, Pop([c EXCEPT !.g = Marked(@, {Frame.o})]))
            ELSE go(h, Pop(c))
    [] c.pc = "roots" ->
         IF c.todo = {} THEN go(h, [c EXCEPT !.pc = "mark"]) /\ ok
         ELSE LET o == CHOOSE o \in c.todo : \A q \in c.todo : o <= q IN   \* loads of different allocations commute enough
              IF G[o].r \/ G[o].una > (IF "oneLess" \in Bug THEN 1 ELSE 0) THEN go(h, [c EXCEPT !.todo = @ \ {o}, !.roots = @ \cup {o}]) /\ ok
              ELSE /\ err' = Touch(o)
                   /\ go(h, [c EXCEPT !.x = h.strong[o], !.pc = "rweak"])
    [] c.pc = "rweak" ->
         LET o == CHOOSE o \in c.todo : \A q \in c.todo : o <= q
             more == h.weak[o] > IF c.x > 0 THEN 2 ELSE 1 IN
         /\ err' = Touch(o)
         /\ go(h, [c EXCEPT !.todo = @ \ {o}, !.roots = IF more /\ "noWeakRoot" \notin Bug THEN @ \cup {o} ELSE @, !.pc = "roots"])
    [] c.pc = "mark" -> go(h, [c EXCEPT !.g = Marked(@, c.roots), !.todo = {o \in Obj : G[o].in}, !.roots = {}, !.pc = "sweep"]) /\ ok
    [] c.pc = "sweep" ->
         IF c.todo = {} THEN go(h, [c EXCEPT !.pc = "last"]) /\ ok
         ELSE \E o \in c.todo :
                LET c2 == [c EXCEPT !.todo = @ \ {o}] IN
                IF G[o].r
                THEN /\ err' = Touch(o)
                     /\ go(IF "keepWeak" \in Bug THEN h ELSE [h EXCEPT !.weak[o] = @ - 1], IF h.weak[o] = 1 /\ "noLastSweep" \notin Bug THEN [c2 EXCEPT !.roots = @ \cup {o}] ELSE c2)
                ELSE LET dead == {p \in In(h, o) : h.to[p] > 0 /\ G[h.to[p]].in /\ ~G[h.to[p]].r}
                         h2 == [h EXCEPT !.to = [p \in Ptr |-> IF p \in dead THEN 0 ELSE h.to[p]]]
                         r == Release(h2, [l[1] EXCEPT !.work = <<0>>, !.ret = "coll"], o)
                     IN /\ err' = IF o \in Live(h, l) THEN "reachable destroyed"
                                  ELSE IF \E k \in Open : h.lk[o][k] # 0 THEN "garbage was locked" ELSE Touch(o)
                        /\ h' = r[1] /\ c' = c2 /\ l' = [l EXCEPT ![1] = r[2]]
    [] c.pc = "last" ->
         IF c.roots = {} THEN go(h, [c EXCEPT !.pc = "idle", !.g = [o \in Obj |-> NoNode]]) /\ ok
         ELSE \E o \in c.roots :
                LET r == Release(h, [l[1] EXCEPT !.work = <<0>>, !.ret = "coll"], o) IN
                /\ err' = IF h.weak[o] # 0 \/ h.strong[o] # 0 THEN "counts of destroyed" ELSE Touch(o)
                /\ h' = r[1] /\ c' = [c EXCEPT !.roots = @ \ {o}] /\ l' = [l EXCEPT ![1] = r[2]]

-----------------------------------------------------------------------------

Next ==
  /\ err = ""
  /\ IF l[1].pc = "coll" /\ Silent THEN CollStep
     ELSE \/ l[1].pc = "coll" /\ CollStep
          \/ \E t \in Thr : l[t].pc \in DropPcs /\ DropStep(t)
          \/ \E t \in Mut : Begin(t)
          \/ \E t \in Mut : l[t].pc \notin DropPcs \cup {"idle"} /\ MutStep(t)

-----------------------------------------------------------------------------
(* What must hold *)

NoError == err = ""

(* whatever a thread can get at is intact *)
Intact == \A o \in Live(h, l) : h.st[o] = "ok" /\ \A p \in In(h, o) : h.to[p] # 0

Counted(o) == Cardinality({p \in Ptr : h.to[p] = o})

(* When nothing is going on: counts are exact, and everything unreachable will be found by the next *)
(* collection, because something above it is suspected.                                             *)
Finished == Quiet /\ c.pc = "idle" /\ l[1].pc = "coll"
Suspected(o) == Cardinality({t \in Thr : o \in l[t].dump}) + (IF o \in h.truck THEN 1 ELSE 0)
Suspects == {o \in Obj : Suspected(o) > 0}
Settled == Finished => \A o \in Obj : h.st[o] = "ok" =>
             /\ h.strong[o] = Counted(o)
             /\ h.weak[o] = Suspected(o) + (IF h.strong[o] > 0 THEN 1 ELSE 0)
             /\ h.weak[o] > 0
             /\ \A k \in Open : h.lk[o][k] = 0
Known == Finished => \A o \in Obj : h.st[o] = "ok" => o \in Live(h, l) \/ o \in Close(h, Suspects)
(* a collection of a heap at rest takes everything that was handed over *)
Swept == Finished /\ Budget = 0 /\ c.n < Colls => \A o \in Obj : h.st[o] = "ok" => o \in Live(h, l)
=============================================================================
