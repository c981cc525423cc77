------------------------------- MODULE SyncMC -------------------------------
(***************************************************************************)
(* SyncImpl from every small heap: every graph, every set of pointers held *)
(* by the threads, every set of suspects already handed over.              *)
(***************************************************************************)
EXTENDS SyncImpl, Json, IOUtils

VARIABLE init    \* where this behaviour started

Cfg == JsonDeserialize(IOEnv.SYNCCFG)
CfgN == Cfg.n
CfgK == Cfg.k
CfgP == Cfg.p
CfgThreads == Cfg.threads
CfgBudget == Cfg.budget
CfgFixed == Cfg.fixed
CfgOps == {Cfg.ops[i] : i \in DOMAIN Cfg.ops}
CfgColls == Cfg.colls
CfgBug == {Cfg.bug[i] : i \in DOMAIN Cfg.bug}
CfgGone == Cfg.gone > 0
CfgLog == Cfg.log > 0

(* edges[o][k] is 0 or a target; held[t] is a non-decreasing sequence of targets *)
Graphs == [1..(N - Cfg.spare) -> [Slots -> 0..(N - Cfg.spare)]]
Held == UNION {{q \in [1..n -> 1..(N - Cfg.spare)] : \A i \in 1..(n - 1) : q[i] <= q[i + 1]} : n \in 0..Cfg.held}

RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))

Mk(e, hs, dirty) ==
  LET live == 1..(N - Cfg.spare)
      \* slots first, then what is held, as one list of <<owner kind, owner, index, target>>
      sl == Flat([o \in live |-> SelectSeq([k \in Slots |-> <<"slot", o, k, e[o][k]>>], LAMBDA x : x[4] # 0)])
      hd == Flat([t \in 1..(Threads - 1) |-> [i \in DOMAIN hs[t] |-> <<"held", t + 1, i, hs[t][i]>>]])
      all == sl \o hd
      ps == DOMAIN all
      indeg(o) == Cardinality({i \in ps : all[i][4] = o})
  IN [n |-> Len(all),
      ok |-> /\ Len(all) <= P
             /\ \A o \in live : indeg(o) > 0,
      h |-> [tag |-> 0,
             st |-> [o \in Obj |-> IF o \in live THEN "ok" ELSE "un"],
             strong |-> [o \in Obj |-> IF o \in live THEN indeg(o) ELSE 0],
             weak |-> [o \in Obj |-> IF o \in live THEN 1 + (IF o \in dirty THEN 1 ELSE 0) ELSE 0],
             gen |-> [o \in Obj |-> 0],
             lk |-> [o \in Obj |-> [k \in Open |-> 0]],
             to |-> [p \in Ptr |-> IF p \in ps THEN all[p][4] ELSE -1],
             ptag |-> [p \in Ptr |-> 0],
             slot |-> [o \in Obj |-> [k \in Slots |->
                        IF \E i \in ps : all[i][1] = "slot" /\ all[i][2] = o /\ all[i][3] = k
                        THEN CHOOSE i \in ps : all[i][1] = "slot" /\ all[i][2] = o /\ all[i][3] = k ELSE 0]],
             truck |-> dirty],
      l |-> [t \in Thr |-> [pc |-> IF t = 1 THEN "coll" ELSE "idle", ret |-> "idle", p |-> 0, n |-> 0, x |-> 0, work |-> <<>>,
                            refs |-> {}, lock |-> <<>>, log |-> <<>>, dump |-> {}, left |-> IF t = 1 THEN 0 ELSE Budget,
                            stk |-> {i \in ps : all[i][1] = "held" /\ all[i][2] = t}]]]

(* one of each class of heaps that differ only by the names of allocations *)
Perms == {f \in [1..(N - Cfg.spare) -> 1..(N - Cfg.spare)] : \A a, b \in DOMAIN f : f[a] = f[b] => a = b}
RECURSIVE Count(_, _)
Count(q, x) == IF q = <<>> THEN 0 ELSE (IF Head(q) = x THEN 1 ELSE 0) + Count(Tail(q), x)
(* a number for a heap renamed by f *)
Code(e, hs, dirty, f) ==
  LET m == N - Cfg.spare
      inv == [x \in 1..m |-> CHOOSE a \in 1..m : f[a] = x]
      row(x) == LET o == inv[x] IN
                [k \in Slots |-> IF e[o][k] = 0 THEN 0 ELSE f[e[o][k]]]
                \o [t \in 1..(Threads - 1) |-> Count(hs[t], o)] \o <<IF o \in dirty THEN 1 ELSE 0>>
  IN Flat([x \in 1..m |-> row(x)])
RECURSIVE Leq(_, _)
Leq(a, b) == IF a = <<>> THEN TRUE ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE Leq(Tail(a), Tail(b))
Canonical(e, hs, dirty) ==
  LET me == Code(e, hs, dirty, [a \in 1..(N - Cfg.spare) |-> a]) IN \A f \in Perms : Leq(me, Code(e, hs, dirty, f))

(* references obtained earlier *)
RECURSIVE Old(_, _)
Old(hh, S) == LET T == S \cup UNION {{[p |-> r.p, o |-> hh.to[hh.slot[r.o][k]]] : k \in {k \in Still : hh.slot[r.o][k] # 0}} : r \in S}
              IN IF T = S THEN S ELSE Old(hh, T)

(* what never changes was there when its holder was created *)
Acyclic(e) == LET F == [o \in DOMAIN e |-> {e[o][k] : k \in Still} \ {0}]
                  S[n \in 0..N] == IF n = 0 THEN F ELSE [o \in DOMAIN e |-> S[n-1][o] \cup UNION {S[n-1][x] : x \in S[n-1][o]}]
              IN \A o \in DOMAIN e : o \notin S[N][o]
RECURSIVE Hash(_)
Hash(q) == IF q = <<>> THEN 7 ELSE (Hash(Tail(q)) * 31 + Head(q) + 1) % 100003

Init == \E e \in {e \in Graphs : Acyclic(e)}, hs \in [1..(Threads - 1) -> Held], dirty \in SUBSET (1..(N - Cfg.spare)) :
          LET m == Mk(e, hs, dirty) IN
          /\ m.ok
          /\ Hash(Code(e, hs, dirty, [a \in 1..(N - Cfg.spare) |-> a])) % Cfg.parts = Cfg.part
          /\ Canonical(e, hs, dirty)
          \* what is unreachable already is known to the collector
          /\ LET lv == Live(m.h, m.l) IN (1..(N - Cfg.spare)) \subseteq lv \cup Close(m.h, dirty)
          /\ h = m.h /\ l = [t \in Thr |-> [m.l[t] EXCEPT !.refs = IF Cfg.old = 0 THEN {} ELSE Old(m.h, {[p |-> p, o |-> m.h.to[p]] : p \in m.l[t].stk})]]
          /\ c = [pc |-> "idle", n |-> Colls, todo |-> {}, fr |-> <<>>, x |-> 0, roots |-> {},
                  g |-> [o \in Obj |-> NoNode]]
          /\ init = IF Log THEN [slot |-> m.h.slot, to |-> m.h.to, held |-> [t \in Mut |-> m.l[t].stk], dirty |-> dirty] ELSE <<>>
          /\ err = ""
Spec == Init /\ [][Next /\ UNCHANGED init]_<<vars, init>>

(* Reports what led to an error: the heap, what the threads held, what was suspected, what they did. *)
Scenario == ToJson([slot |-> init.slot, to |-> init.to, held |-> init.held, dirty |-> init.dirty,
                    log |-> [t \in Mut |-> l[t].log], at |-> l[1].pc])
Report == err # "" \/ ~Intact \/ ~Settled \/ ~Known => PrintT("SCENARIO " \o Scenario)
=============================================================================
