------------------------------ MODULE UnsyncMC ------------------------------
(***************************************************************************)
(* UnsyncImpl from every small heap: graphs, held and stashed pointers,    *)
(* suspects, destructors.                                                  *)
(***************************************************************************)
EXTENDS UnsyncImpl, Json, IOUtils

VARIABLE init

Cfg == JsonDeserialize(IOEnv.UNSYNCCFG)
CfgN == Cfg.n
CfgK == Cfg.k
CfgX == Cfg.x
CfgBudget == Cfg.budget
CfgAlways == Cfg.always > 0
CfgBug == {Cfg.bug[i] : i \in DOMAIN Cfg.bug}

d(x) == <<"d", x>>
e(k) == <<"e", k>>
c(k, x) == <<"c", k, x>>
m(k, x) == <<"m", k, x>>
o(x, k) == <<"o", x, k>>
g == <<"g">>
Scripts == << <<>>, <<d(1)>>, <<e(1)>>, <<c(1, 1)>>, <<m(2, 1)>>, <<g>>, <<d(1), e(1)>>, <<e(2), d(1)>>, <<o(1, 1)>>, <<e(1), g>>,
              <<m(1, 1), c(2, 2)>>, <<d(1), d(2)>>, <<c(2, 2), e(2)>>, <<m(1, 2), o(2, 2)>>, <<<<"S", 1, 2>>>>,
              <<<<"S", 2, 1>>, d(2)>> >>

Graphs == [Obj -> [Slots -> 0..N]]
RECURSIVE Hash(_)
Hash(q) == IF q = <<>> THEN 7 ELSE (Hash(Tail(q)) * 31 + Head(q) + 1) % 100003
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
Bits(S) == [i \in Obj |-> IF i \in S THEN 1 ELSE 0]

Mk(gr, r, x, sus, sc) ==
  LET h0 == [reg |-> [i \in Obj |-> IF i \in r THEN i ELSE 0], stash |-> x, slot |-> gr, cnt |-> [i \in Obj |-> 0],
             st |-> [i \in Obj |-> "ok"], sus |-> sus, col |-> FALSE, n |-> 0, dv |-> {}, reach |-> {}, g0 |-> {},
             script |-> [i \in Obj |-> Scripts[sc[i]]]]
      f(i) == Pointers(h0, i)
  IN [h0 EXCEPT !.cnt = [i \in Obj |-> f(i)], !.n = Sum(f, Obj)]

SomeGraphs == {gr \in Graphs : Hash(Flat(gr)) % Cfg.graphs = Cfg.part % Cfg.graphs}
Base == {b \in [g : SomeGraphs, r : SUBSET Obj, x : [Stash -> 0..N], sus : SUBSET Obj] :
           Hash(Flat(b.g) \o Bits(b.r) \o b.x \o Bits(b.sus)) % Cfg.parts = Cfg.part % Cfg.parts}
None == [i \in Obj |-> 1]
Good(h0, sus) == /\ \A i \in Obj : h0.cnt[i] > 0 /\ (i \in sus => Own(h0, i) # {})
                 /\ Garbage(h0, {}) \subseteq Grow(h0, sus)
Init == \E b \in {b \in Base : Good(Mk(b.g, b.r, b.x, b.sus, None), b.sus)} : \E sc \in [Obj -> DOMAIN Scripts] :
          /\ Hash(sc \o Flat(b.g) \o b.x) % Cfg.every = Cfg.part % Cfg.every
          /\ h = Mk(b.g, b.r, b.x, b.sus, sc)
          /\ stk = <<>> /\ left = Budget /\ log = <<>> /\ err = ""
          /\ init = [g |-> b.g, r |-> b.r, x |-> b.x, sus |-> b.sus, sc |-> sc]
Spec == Init /\ [][Next /\ UNCHANGED init]_<<vars, init>>

Report == err # "" \/ ~Settled \/ ~Known \/ ~Intact =>
            PrintT("SCENARIO " \o ToJson([g |-> init.g, r |-> init.r, x |-> init.x, sus |-> init.sus, sc |-> init.sc, log |-> log]))
Gen == Quiet /\ left = 0 =>
         PrintT("SCENARIO " \o ToJson([g |-> init.g, r |-> init.r, x |-> init.x, sus |-> init.sus, sc |-> init.sc, log |-> log]))
=============================================================================
