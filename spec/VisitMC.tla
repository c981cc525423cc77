------------------------------ MODULE VisitMC -------------------------------
(***************************************************************************)
(* The visiting machine on every type up to the chosen depth: whatever the *)
(* order, it reports exactly what is owned.                                *)
(***************************************************************************)
EXTENDS VisitGen

VARIABLES v, ordered, m
mcvars == <<type, v, ordered, m>>

InitMC == /\ type \in Types
          /\ \E n \in 1..Cfg.values : v = Val(type, Cfg.seed + n, 1)
          /\ ordered \in BOOLEAN
          /\ m = Start(v)
NextMC == m' \in Moves(m, ordered) /\ UNCHANGED <<type, v, ordered>>
SpecMC == InitMC /\ [][NextMC]_mcvars

SoundMC == Sound(v, m, ordered)
(* a visit that is over has a result *)
Decided == Moves(m, ordered) = {} => m.res # "run"

(* the order in which parts were found does not matter when any order is allowed *)
View == <<type, v, ordered, m.res, IF ordered THEN m.work ELSE Rng(m.work), Len(m.work),
          IF ordered THEN m.out ELSE Rng(m.out), Len(m.out)>>
=============================================================================
