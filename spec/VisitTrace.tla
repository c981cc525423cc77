----------------------------- MODULE VisitTrace -----------------------------
(***************************************************************************)
(* Checks recorded visits against Visit.  A record has the value that was  *)
(* visited, whether order matters, and the events of one or more visits:   *)
(* <<"u", id>> or <<"s", id>> for a reported pointer, <<"ok">> or          *)
(* <<"err">> at the end of a visit, <<"panic">>.  Steps of the machine     *)
(* that report nothing commute, so they are taken all at once.             *)
(***************************************************************************)
EXTENDS Visit, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES i, j, pend, bad
vars == <<i, j, pend, bad>>

Rec == Recs[i]
Ordered == Rec.o = 1
Fresh(r) == IF r.o = 1 THEN Listed(r.v)[1] ELSE Owned(r.v)
Fails(r) == Blocked(r.v)

Init == /\ i \in 1..Len(Recs) /\ j = 0 /\ bad = ""
        /\ pend = Fresh(Recs[i])

Take(e) == IF Ordered
           THEN IF pend # <<>> /\ Head(pend) = e THEN <<"", Tail(pend)>>
                ELSE <<IF e \in Rng(pend) THEN "order" ELSE IF e \in Owned(Rec.v) THEN "twice" ELSE "alien", pend>>
           ELSE IF e \in pend THEN <<"", pend \ {e}>>
                ELSE <<IF e \in Owned(Rec.v) THEN "twice" ELSE "alien", pend>>
Nothing == IF Ordered THEN <<>> ELSE {}

End(e) ==
  LET r == e[1] IN
  IF r = "ok" THEN IF Fails(Rec) THEN "unreported" ELSE IF pend # Nothing THEN "missed" ELSE ""
  ELSE IF r = "err" THEN IF ~Fails(Rec) THEN "failed" ELSE IF Ordered /\ pend # <<>> THEN "missed" ELSE ""
  ELSE r

Next == /\ j < Len(Rec.ev) /\ bad = ""
        /\ j' = j + 1 /\ i' = i
        /\ LET e == Rec.ev[j + 1] IN
           IF IsPtr(e) THEN bad' = Take(e)[1] /\ pend' = Take(e)[2]
           ELSE bad' = End(e) /\ pend' = Fresh(Rec)
Spec == Init /\ [][Next]_vars

Report == (j = Len(Rec.ev) \/ bad # "") =>
            PrintT("TRACE " \o ToString(i) \o " " \o ToString(j) \o " " \o bad)
=============================================================================
