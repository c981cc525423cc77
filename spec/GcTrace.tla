------------------------------- MODULE GcTrace ------------------------------
(***************************************************************************)
(* Checks recorded executions of the real collectors against GcHeap.       *)
(* Every behaviour of this specification consumes one recorded trace, one  *)
(* event per step.                                                         *)
(***************************************************************************)
EXTENDS GcHeap, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES i, j, s, first

vars == <<i, j, s, first>>

Ev == Traces[i].ev

Apply(x, e) ==
  LET t == e[2] k == e[1] IN
  CASE k = "new" -> EvNew(x, t, e[3], e[4], e[5], e[6])
    [] k = "cl"  -> EvClone(x, t, e[3], e[4])
    [] k = "cp"  -> EvNoClone(x, t, e[3])
    [] k = "tc"  -> EvTryClone(x, t, e[3], e[4], e[5])
    [] k = "mv"  -> EvMove(x, t, e[3], e[4])
    [] k = "sw"  -> EvSwap(x, t, e[3], e[4])
    [] k = "dr"  -> EvDrop(x, t, e[3])
    [] k = "rd"  -> EvRead(x, t, e[3], e[5])
    [] k = "vd"  -> EvDestroy(x, t, e[3], e[4])
    [] k = "ve"  -> EvDestroyed(x, t, e[3])
    [] k = "fr"  -> EvFree(x, t, e[3], e[4])
    [] k = "cb"  -> EvConsult(x, t, e[3], e[4], e[5], e[6], e[7])
    [] k = "cs"  -> EvCollectStart(x, t, e[3])
    [] k = "ce"  -> EvCollectEnd(x, t, e[3])
    [] k = "end" -> EvEnd(x, t)
    [] k = "lk"  -> EvLock(x, t, e[3])
    [] k = "ul"  -> EvUnlock(x, t, e[3])
    [] k = "pn"  -> EvPanic(x, t, e[3])
    [] k = "sp"  -> EvPanicIn(x, t, e[3])
    [] k = "pr"  -> EvProbe(x, t, e[3], e[4], e[5])
    [] k = "pe"  -> EvPtrEq(x, t, e[3], e[4], e[5])
    [] k = "ap"  -> EvAddrEq(x, t, e[3], e[4], e[5])
    [] k = "eq"  -> EvValEq(x, t, e[3], e[4], e[5])
    [] k = "sc"  -> EvSetCond(x, t, e[3], e[4])
    [] k = "zz"  -> EvManyDrops(x, t, e[3], e[4], e[5])
    [] k = "xb"  -> EvExitBegin(x, t)
    [] k = "ex"  -> EvExit(x, t)
    [] k = "fk"  -> EvFork(x, t)
    [] k = "jn"  -> EvJoin(x, t)
    [] k = "uaf" -> Flag(x, TRUE, "uaf")
    [] k = "crash" -> Flag(x, TRUE, "crash")
    [] k = "dl"  -> Flag(x, TRUE, "deadlock")
    [] k = "hang" -> Flag(x, TRUE, "hang")
    [] k \in {"co", "fin"} -> x

Init == /\ i \in 1..Len(Traces)
        /\ j = 0
        /\ s = InitState
        /\ first = <<>>

(* These leave the history legal, so that later events can still be judged. *)
Soft == {"cntN", "cntD", "condDefault", "condCount", "condWrong", "condTrue", "condFalse", "prompt",
         "promptS", "leakU", "leakS", "leakExit", "leakHanded", "ptrEq", "asPtr", "valEq", "notFreed",
         "layout"}

Next == /\ j < Len(Ev)
        /\ s.bad \subseteq Soft
        /\ j' = j + 1
        /\ s' = Apply(s, Ev[j + 1])
        /\ first' = IF s'.bad # s.bad THEN Append(first, <<j + 1, s'.bad \ s.bad>>) ELSE first
        /\ i' = i

Done == j = Len(Ev) \/ ~(s.bad \subseteq Soft)

(* Evaluated in every reached state: reports each trace once. *)
Report == Done => PrintT("TRACE " \o ToString(i) \o " " \o ToString(j) \o " " \o ToString(first))

Spec == Init /\ [][Next]_vars
=============================================================================
