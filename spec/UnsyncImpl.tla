----------------------------- MODULE UnsyncImpl -----------------------------
(***************************************************************************)
(* The thread-local collector with destructors that use it.                *)
(*                                                                         *)
(* A value has slots, and a destructor that is a sequence of actions:      *)
(*   <<"d", x>>     let go of stash x        <<"e", k>>   ... of slot k    *)
(*   <<"c", k, x>>  clone slot k into stash x                              *)
(*   <<"m", k, x>>  move slot k into stash x                               *)
(*   <<"o", x, k>>  move stash x into slot k                               *)
(*   <<"S", x, y>>  move stash y into a slot of the value stash x leads to *)
(*   <<"g">>        collect                                                *)
(* The program drops registers and stashed pointers, moves pointers, and   *)
(* collects.  The control stack is explicit: destructors run in the middle *)
(* of drops and of collections.                                            *)
(*                                                                         *)
(* What must hold is what the contract (GcHeap) says about the thread-     *)
(* local module.  Bug names deviations from the algorithm.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS N, K, X,     \* values, slots of each, stash locations
          Budget,      \* operations of the program
          Always,      \* the condition answers true
          Bug

Obj == 1..N
Slots == 1..K
Stash == 1..X

VARIABLES h,      \* the heap and the collector's bookkeeping
          stk,    \* what is to be done, innermost first
          left, log, err
vars == <<h, stk, left, log, err>>

Rng(q) == {q[i] : i \in DOMAIN q}
Pos(S) == S \ {0, -1}

-----------------------------------------------------------------------------
(* The graph.  0 is no pointer, -1 a dead one. *)

Own(hh, o) == Pos({hh.slot[o][k] : k \in Slots})
RECURSIVE Grow(_, _)
Grow(hh, S) == LET T == S \cup UNION {Own(hh, o) : o \in {x \in S : hh.st[x] = "ok"}} IN IF T = S THEN S ELSE Grow(hh, T)

Pending == {stk[i][2] : i \in {j \in DOMAIN stk : stk[j][1] = "drop"}}
Reach(hh, pend) == Grow(hh, Pos(Rng(hh.reg) \cup Rng(hh.stash) \cup pend)
                            \cup UNION {Own(hh, o) : o \in {x \in Obj : hh.st[x] = "dying"}})
Garbage(hh, pend) == {o \in Obj : hh.st[o] = "ok"} \ Reach(hh, pend)

NPtr(f, o) == Cardinality({i \in DOMAIN f : f[i] = o})
RECURSIVE Sum(_, _)
Sum(F(_), S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN F(x) + Sum(F, S \ {x})
Pointers(hh, o) == NPtr(hh.reg, o) + NPtr(hh.stash, o) + LET f(p) == NPtr(hh.slot[p], o) IN Sum(f, Obj)

-----------------------------------------------------------------------------
(* What a collection finds.  User code does not run here. *)

Found(hh) ==
  LET vis == Grow(hh, hh.sus)
      acc(o) == LET f(p) == NPtr(hh.slot[p], o) IN Sum(f, vis)
      graph == {o \in vis : acc(o) > 0}
      roots == {o \in graph : (IF "oneLess" \in Bug THEN hh.cnt[o] - 1 ELSE hh.cnt[o]) # acc(o)}
               \cup (IF "noSuspectRoot" \in Bug THEN {} ELSE hh.sus \ graph)
      marked == IF "shallow" \in Bug THEN roots \cup UNION {Own(hh, o) : o \in roots}
                ELSE IF "shallowSuspect" \in Bug THEN Grow(hh, roots \cap graph) \cup roots
                ELSE Grow(hh, roots)
  IN [vis |-> vis, reach |-> marked, under |-> \E o \in graph : acc(o) > hh.cnt[o]]

-----------------------------------------------------------------------------

Top == stk[1]
Rest == Tail(stk)
(* the end of a value: destructor, fields, memory *)
Ending(o) == <<<<"script", o, 1>>, <<"fields", o, 1>>, <<"free", o>>>>
Gone(o) == IF h.st[o] = "free" THEN "freed memory used" ELSE ""

Drop ==
  LET o == Top[2] IN
  IF o = -1 THEN UNCHANGED <<h, err>> /\ stk' = Rest
  ELSE IF h.cnt[o] = 1
  THEN /\ err' = IF h.st[o] # "ok" THEN "destroyed twice" ELSE IF o \in Reach(h, Pos({Rest[i][2] : i \in {j \in DOMAIN Rest : Rest[j][1] = "drop"}})) THEN "reachable destroyed" ELSE ""
       /\ h' = [h EXCEPT !.cnt[o] = 0, !.st[o] = "dying",
                         !.sus = IF {"noClean", "cleanLate"} \cap Bug # {} \/ ("cleanSkip" \in Bug /\ h.col) THEN @ ELSE @ \ {o}]
       /\ stk' = Ending(o) \o <<<<"notify">>>> \o Rest
  ELSE /\ err' = Gone(o)
       /\ h' = [h EXCEPT !.cnt[o] = @ - 1,
                         !.sus = IF \/ {h.slot[o][k] : k \in Slots} \subseteq {0}
                                    \/ ("dirtySkip" \in Bug /\ h.col)
                                 THEN @ ELSE @ \cup {o}]
       /\ stk' = <<<<"notify">>>> \o Rest

Notify ==
  /\ UNCHANGED err
  /\ h' = [h EXCEPT !.n = @ - 1]
  /\ stk' = IF Always /\ (~h.col \/ "nested" \in Bug) THEN <<<<"collect">>>> \o Rest ELSE Rest

Collect ==
  IF h.col /\ {"nested", "nestedAsked"} \cap Bug = {} THEN UNCHANGED <<h, err>> /\ stk' = Rest
  ELSE LET f == Found(h) IN
       /\ err' = IF \E o \in h.sus : h.st[o] = "free" THEN "freed memory used" ELSE IF f.under THEN "more pointers than counted" ELSE ""
       /\ h' = [h EXCEPT !.col = TRUE, !.sus = IF "lateClear" \in Bug THEN @ ELSE {}, !.dv = {}, !.reach = f.reach,
                         !.g0 = Garbage(h, Pending)]
       /\ stk' = <<<<"sweep", h.sus \ f.reach>>>> \o Rest

Sweep ==
  IF Top[2] = {}
  THEN /\ h' = [h EXCEPT !.col = FALSE, !.g0 = {}, !.dv = {}, !.reach = {}, !.sus = IF "lateClear" \in Bug THEN {} ELSE @]
       /\ err' = IF \E o \in h.g0 : h.st[o] # "free" THEN "garbage left" ELSE ""
       /\ stk' = Rest
  ELSE \E o \in Top[2] :
         IF o \in h.dv THEN stk' = <<<<"sweep", Top[2] \ {o}>>>> \o Rest /\ UNCHANGED <<h, err>>
         ELSE /\ h' = [h EXCEPT !.dv = @ \cup {o}]
              /\ stk' = <<<<"visit", o, 1>>, <<"destroy", o>>, <<"sweep", Top[2] \ {o}>>>> \o Rest
              /\ err' = Gone(o)

(* pointers to garbage are made dead, their targets destroyed first *)
Visit ==
  LET o == Top[2] k == Top[3] next == <<"visit", o, k + 1>> IN
  IF k > K THEN UNCHANGED <<h, err>> /\ stk' = Rest
  ELSE LET p == h.slot[o][k] IN
       IF p > 0 /\ p \in h.reach /\ {"nullAll", "takeCount"} \cap Bug # {}
       THEN /\ err' = "live pointer made dead" /\ stk' = <<next>> \o Rest
            /\ h' = [h EXCEPT !.slot[o][k] = -1, !.n = @ - 1, !.cnt[p] = IF "takeCount" \in Bug THEN @ - 1 ELSE @]
       ELSE IF p <= 0 \/ p \in h.reach THEN UNCHANGED <<h, err>> /\ stk' = <<next>> \o Rest
       ELSE /\ err' = IF p \in Reach(h, Pending) THEN "live pointer made dead" ELSE IF p \in h.dv THEN "" ELSE Gone(p)
            /\ h' = [h EXCEPT !.slot[o][k] = IF "notDead" \in Bug THEN @ ELSE -1, !.n = IF "countDead" \in Bug THEN @ ELSE @ - 1,
                              !.dv = @ \cup {p}]
            /\ stk' = (IF p \in h.dv THEN <<>> ELSE <<<<"visit", p, 1>>, <<"destroy", p>>>>) \o <<next>> \o Rest

Destroy ==
  LET o == Top[2] IN
  /\ err' = IF h.st[o] # "ok" THEN "destroyed twice" ELSE IF o \in Reach(h, Pending) THEN "reachable destroyed" ELSE ""
  /\ h' = [h EXCEPT !.st[o] = "dying", !.cnt[o] = 0]
  /\ stk' = Ending(o) \o Rest

Script ==
  LET o == Top[2] i == Top[3] next == <<"script", o, i + 1>> q == h.script[o] IN
  IF i > Len(q) THEN UNCHANGED <<h, err>> /\ stk' = Rest
  ELSE LET a == q[i] IN
       CASE a[1] = "d" -> /\ UNCHANGED err
                          /\ h' = [h EXCEPT !.stash[a[2]] = 0]
                          /\ stk' = (IF h.stash[a[2]] = 0 THEN <<>> ELSE <<<<"drop", h.stash[a[2]]>>>>) \o <<next>> \o Rest
         [] a[1] = "e" -> /\ UNCHANGED err
                          /\ h' = [h EXCEPT !.slot[o][a[2]] = 0]
                          /\ stk' = (IF h.slot[o][a[2]] = 0 THEN <<>> ELSE <<<<"drop", h.slot[o][a[2]]>>>>) \o <<next>> \o Rest
         [] a[1] = "c" -> LET p == h.slot[o][a[2]] IN
                          /\ stk' = <<next>> \o Rest
                          /\ IF p > 0 /\ h.stash[a[3]] = 0
                             THEN /\ err' = IF h.st[p] # "ok" THEN "cloned a destroyed value" ELSE ""
                                  /\ h' = [h EXCEPT !.stash[a[3]] = p, !.cnt[p] = @ + 1, !.n = @ + 1]
                             ELSE UNCHANGED <<h, err>>
         [] a[1] = "m" -> LET p == h.slot[o][a[2]] IN
                          /\ UNCHANGED err /\ stk' = <<next>> \o Rest
                          /\ h' = IF h.stash[a[3]] = 0 THEN [h EXCEPT !.stash[a[3]] = p, !.slot[o][a[2]] = 0] ELSE h
         [] a[1] = "o" -> /\ UNCHANGED err /\ stk' = <<next>> \o Rest
                          /\ h' = IF h.slot[o][a[3]] = 0 THEN [h EXCEPT !.slot[o][a[3]] = h.stash[a[2]], !.stash[a[2]] = 0] ELSE h
         [] a[1] = "S" -> LET p == h.stash[a[2]] IN
                          /\ UNCHANGED err
                          /\ IF p > 0 /\ h.stash[a[3]] # 0 /\ a[2] # a[3]
                             THEN /\ h' = [h EXCEPT !.slot[p][1] = h.stash[a[3]], !.stash[a[3]] = 0]
                                  /\ stk' = (IF h.slot[p][1] = 0 THEN <<>> ELSE <<<<"drop", h.slot[p][1]>>>>) \o <<next>> \o Rest
                             ELSE UNCHANGED h /\ stk' = <<next>> \o Rest
         [] a[1] = "g" -> UNCHANGED <<h, err>> /\ stk' = <<<<"collect">>, next>> \o Rest

Fields ==
  LET o == Top[2] k == Top[3] IN
  /\ UNCHANGED err
  /\ IF k > K THEN stk' = Rest /\ UNCHANGED h
     ELSE LET p == h.slot[o][k]
              ignored == p > 0 /\ h.col /\ "dropIgnored" \in Bug IN
          /\ h' = [h EXCEPT !.slot[o][k] = 0]
          /\ stk' = (IF p = 0 \/ ignored THEN <<>> ELSE <<<<"drop", p>>>>) \o <<<<"fields", o, k + 1>>>> \o Rest

Free ==
  /\ err' = IF h.st[Top[2]] # "dying" THEN "freed twice" ELSE ""
  /\ h' = [h EXCEPT !.st[Top[2]] = "free", !.sus = IF "cleanLate" \in Bug THEN @ \ {Top[2]} ELSE @]
  /\ stk' = Rest

-----------------------------------------------------------------------------
(* The program *)

Held(o) == \E i \in DOMAIN h.reg : h.reg[i] = o
Note(e) == log' = Append(log, e)

Op ==
  /\ left > 0 /\ left' = left - 1 /\ UNCHANGED err
  /\ \/ /\ stk' = <<<<"collect">>>> /\ UNCHANGED h /\ Note(<<"collect">>)
     \/ \E i \in DOMAIN h.reg : /\ h.reg[i] # 0
                                /\ stk' = <<<<"drop", h.reg[i]>>>> /\ h' = [h EXCEPT !.reg[i] = 0] /\ Note(<<"drop", i>>)
     \/ \E x \in Stash : /\ h.stash[x] # 0
                         /\ stk' = <<<<"drop", h.stash[x]>>>> /\ h' = [h EXCEPT !.stash[x] = 0] /\ Note(<<"dstash", x>>)
     \/ \E i \in DOMAIN h.reg, k \in Slots :
          LET o == h.reg[i] IN
          /\ o > 0 /\ h.slot[o][k] # 0
          /\ stk' = <<<<"drop", h.slot[o][k]>>>> /\ h' = [h EXCEPT !.slot[o][k] = 0] /\ Note(<<"cut", i, k>>)
     \/ \E i \in DOMAIN h.reg, x \in Stash, k \in Slots :
          LET o == h.reg[i] IN
          /\ o > 0 /\ h.slot[o][k] = 0 /\ h.stash[x] # 0
          /\ stk' = <<>> /\ h' = [h EXCEPT !.slot[o][k] = h.stash[x], !.stash[x] = 0] /\ Note(<<"put", i, k, x>>)

Step == CASE Top[1] = "drop" -> Drop [] Top[1] = "notify" -> Notify [] Top[1] = "collect" -> Collect
          [] Top[1] = "sweep" -> Sweep [] Top[1] = "visit" -> Visit [] Top[1] = "destroy" -> Destroy
          [] Top[1] = "script" -> Script [] Top[1] = "fields" -> Fields [] Top[1] = "free" -> Free

Next == /\ err = ""
        /\ IF stk # <<>> THEN Step /\ UNCHANGED <<left, log>> ELSE Op

-----------------------------------------------------------------------------
(* What must hold *)

NoError == err = ""
Quiet == stk = <<>>
(* counts are exact, nothing without pointers exists, no pointer to what is gone, what is unreachable *)
(* is known, and the collector is not running                                                        *)
Settled == Quiet => /\ ~h.col
                    /\ \A o \in Obj : IF h.st[o] = "ok" THEN h.cnt[o] = Pointers(h, o) /\ h.cnt[o] > 0
                                      ELSE h.st[o] = "free" /\ Pointers(h, o) = 0 /\ o \notin h.sus
                    /\ LET f(o) == Pointers(h, o) IN h.n = Sum(f, Obj)
Known == Quiet => Garbage(h, {}) \subseteq Grow(h, h.sus)
(* pointers that are not dead lead to something *)
Intact == \A o \in Reach(h, Pending) : h.st[o] = "ok" \/ (h.st[o] = "dying" /\ stk # <<>>)
=============================================================================
