-------------------------------- MODULE Visit -------------------------------
(***************************************************************************)
(* Visiting a value: which garbage-collected pointers must be reported.    *)
(*                                                                         *)
(* A value is a tree:                                                      *)
(*   <<"u", id>>, <<"s", id>>   a thread-local / thread-safe pointer       *)
(*   <<"p">>                    anything without pointers                  *)
(*   <<"bo", v>>                something that refers to v without owning  *)
(*   <<"n", <<v1, ..., vn>>>>   anything that owns its parts               *)
(*   <<"m", <<v1, ..., vn>>>>   the same, for maps                         *)
(*   <<"ok", v>>, <<"er", v>>, <<"ow", v>>   the same, one part            *)
(*   <<"l", st, v>>             a cell or lock in state st: "f" free, "r"  *)
(*                              shared, "w" taken exclusively, "p"         *)
(*                              poisoned, "q" poisoned and taken           *)
(*                                                                         *)
(* Visiting is a state machine over the parts still to be looked at.  In   *)
(* the ordered variant parts are looked at in declaration order and the    *)
(* first inaccessible one ends the visit; otherwise any order is allowed.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(q) == {q[k] : k \in DOMAIN q}
IsPtr(v) == v[1] \in {"u", "s"}
Accessible(st) == st \in {"f", "r", "p"}

(* The parts a value owns directly and can be reached. *)
Parts(v) ==
  CASE v[1] \in {"n", "m"} -> v[2]
    [] v[1] \in {"ok", "er", "ow"} -> <<v[2]>>
    [] v[1] = "l" /\ Accessible(v[2]) -> <<v[3]>>
    [] OTHER -> <<>>
Stuck(v) == v[1] = "l" /\ ~Accessible(v[2])

-----------------------------------------------------------------------------
(* What must come out, defined independently of the machine. *)

RECURSIVE Owned(_), Blocked(_)
Owned(v) == IF IsPtr(v) THEN {v} ELSE UNION {Owned(x) : x \in Rng(Parts(v))}
Blocked(v) == Stuck(v) \/ \E x \in Rng(Parts(v)) : Blocked(x)

(* In declaration order, up to the first inaccessible part: <<pointers, blocked>>. *)
RECURSIVE Listed(_), ListedAll(_)
Listed(v) == IF IsPtr(v) THEN <<<<v>>, FALSE>>
             ELSE IF Stuck(v) THEN <<<<>>, TRUE>>
             ELSE ListedAll(Parts(v))
ListedAll(q) == IF q = <<>> THEN <<<<>>, FALSE>>
                ELSE LET h == Listed(Head(q)) IN
                     IF h[2] THEN h
                     ELSE LET r == ListedAll(Tail(q)) IN <<h[1] \o r[1], r[2]>>

-----------------------------------------------------------------------------
(* The machine. *)

Start(v) == [work |-> <<v>>, out |-> <<>>, res |-> "run"]
Without(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))

LookAt(m, k) ==
  LET x == m.work[k] rest == Without(m.work, k) IN
  IF IsPtr(x) THEN [m EXCEPT !.work = rest, !.out = Append(@, x)]
  ELSE IF Stuck(x) THEN [m EXCEPT !.work = <<>>, !.res = "err"]
  ELSE [m EXCEPT !.work = SubSeq(rest, 1, k - 1) \o Parts(x) \o SubSeq(rest, k, Len(rest))]

Moves(m, ordered) ==
  IF m.res # "run" THEN {}
  ELSE IF m.work = <<>> THEN {[m EXCEPT !.res = "ok"]}
  ELSE {LookAt(m, k) : k \in IF ordered THEN {1} ELSE DOMAIN m.work}

Distinct(q) == Cardinality(Rng(q)) = Len(q)

Sound(v, m, ordered) ==
  /\ Distinct(m.out)
  /\ Rng(m.out) \subseteq Owned(v)
  /\ m.res = "ok" => ~Blocked(v) /\ Rng(m.out) = Owned(v)
  /\ m.res = "err" => Blocked(v)
  /\ ordered /\ m.res # "run" => m.out = Listed(v)[1]
  /\ ordered => m.out = SubSeq(Listed(v)[1], 1, Len(m.out))
=============================================================================
