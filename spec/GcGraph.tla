------------------------------- MODULE GcGraph ------------------------------
(***************************************************************************)
(* Every reference graph with a given number of values and two slots per   *)
(* value, every choice and order of pointers to give up, every assignment  *)
(* of destructor scripts: one program each.  The program builds the graph, *)
(* gives up the pointers, collects, looks at what it still holds, gives up *)
(* the rest and collects again.                                            *)
(*                                                                         *)
(* Configuration: n, kinds, scripts, dom (0/1), conds, stash, probe (0/1)  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.GENCFG)
Rng(q) == {q[k] : k \in DOMAIN q}
S(n) == ToString(n)
N == Cfg.n
Obj == 1..N

Pairs == {<<a, b>> \in (0..N) \X (0..N) : a <= b}
Orders == {q \in UNION {[1..m -> Obj] : m \in 0..N} : \A a, b \in DOMAIN q : a # b => q[a] # q[b]}

VARIABLES g, order, script, kind, cond
vars == <<g, order, script, kind, cond>>

Init == /\ g \in [Obj -> Pairs]
        /\ order \in Orders
        /\ script \in [Obj -> Rng(Cfg.scripts)]
        /\ kind \in [Obj -> Rng(Cfg.kinds)]
        /\ cond \in Rng(Cfg.conds)
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

RECURSIVE Cat(_, _, _)
Cat(F(_), a, b) == IF a > b THEN "" ELSE F(a) \o Cat(F, a + 1, b)

New(o) == " n:" \o S(o) \o ":" \o S(o) \o ":" \o kind[o] \o (IF script[o] = "" THEN "" ELSE ":" \o script[o])
Link(o, k, v) == IF v = 0 THEN ""
                 ELSE " c:" \o S(v) \o ":15 s:" \o S(o) \o ":" \o S(k) \o ":15"
Links(o) == Link(o, 0, g[o][1]) \o Link(o, 1, g[o][2])
Gone == Rng(order)
DropAt(k) == " d:" \o S(order[k])
Look(o) == IF o \in Gone THEN ""
           ELSE " T:" \o S(o) \o " l:" \o S(o) \o ":0:14 T:14 d:14 l:" \o S(o) \o ":1:14 D:14 d:14"
DropRest(o) == IF o \in Gone THEN "" ELSE " d:" \o S(o)
K == " k:" \o S(Cfg.dom)
P == IF Cfg.probe = 1 THEN " p:" \o S(Cfg.dom) ELSE ""
Un(k) == " m:" \o S(Cfg.stash[k]) \o ":13 T:13 C:13:14 l:13:0:12 T:12 d:12 d:14 d:13"

Program == "o:" \o S(Cfg.dom) \o ":" \o cond \o Cat(New, 1, N) \o Cat(Links, 1, N) \o P
           \o Cat(DropAt, 1, Len(order)) \o P \o K \o P \o Cat(Look, 1, N)
           \o Cat(Un, 1, Len(Cfg.stash)) \o Cat(DropRest, 1, N) \o K
           \o Cat(Un, 1, Len(Cfg.stash)) \o K \o P

Report == PrintT("PROG " \o S(N) \o " ; " \o Program)
=============================================================================
