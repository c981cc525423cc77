------------------------------- MODULE GcProg -------------------------------
(***************************************************************************)
(* Programs over the collector's interface, as behaviours: each step       *)
(* appends one operation to the program of one thread.  The state keeps    *)
(* what the program knows about its own registers and the object graph, so *)
(* that the operations chosen are meaningful.  Run in simulation mode to   *)
(* sample, or exhaustively with small bounds to enumerate.                 *)
(*                                                                         *)
(* The configuration is a JSON record:                                     *)
(*   setup, body, tail   number of operations before the threads start, by *)
(*                       each thread, and after they have ended            *)
(*   threads             number of additional threads                      *)
(*   ops, tops, fops     operation names for the three phases (repetition  *)
(*                       is weight)                                        *)
(*   mops                those of the main thread while the threads run,   *)
(*                       if not the same                                   *)
(*   kinds               kinds of values                                   *)
(*   scripts             destructor scripts                                *)
(*   objs, regs          bounds                                            *)
(*   dom                 which collectors collect/probe/condition address  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.GENCFG)
Exhaustive == Cfg.exhaustive = 1

Rng(q) == {q[k] : k \in DOMAIN q}
S(n) == ToString(n)
NT == Cfg.threads
Regs == 0..(Cfg.regs - 1)

VARIABLES phase,   \* 0 setup, 1..NT bodies, NT+1 the main thread's own body, NT+2 tail, NT+3 done
          left,    \* operations left in this phase
          reg,     \* thread -> register -> object (0 none, -1 unknown)
          slot,    \* object -> slot -> object
          isnode,  \* objects with slots
          dom,     \* object -> collector
          nobj,
          held,    \* registers of the main thread that hold a lock
          hist     \* thread -> program text
vars == <<phase, left, reg, slot, isnode, dom, nobj, held, hist>>

Me == IF phase \in 1..NT THEN phase ELSE 0
Mine == reg[Me]
Used == {r \in Regs : Mine[r] # 0}
Free == {r \in Regs : Mine[r] = 0}
Lowest(A) == CHOOSE r \in A : \A q \in A : r <= q
Objs == {r \in Used : Mine[r] > 0}
Nodes == {r \in Objs : Mine[r] \in isnode} \cup {r \in Used : Mine[r] = -1}

(* One element of a set: every one when enumerating, a random one when sampling. *)
Some(A) == IF A = {} THEN {} ELSE IF Exhaustive THEN A ELSE {RandomElement(A)}
Pick(q) == IF Exhaustive THEN Rng(q) ELSE {q[RandomElement(DOMAIN q)]}

Emit(txt) == hist' = [hist EXCEPT ![Me] = @ \o " " \o txt]
KeepHeap == UNCHANGED <<slot, isnode, dom, nobj>>

Set(r, o) == reg' = [reg EXCEPT ![Me][r] = o]
Known(o, k) == IF o > 0 /\ o \in DOMAIN slot /\ phase \in {0} THEN slot[o][k] ELSE -1

IsNodeKind(k) == k \notin {"ul", "ua", "uz", "sl", "sa", "sz"}
KindDom(k) == IF k \in Rng(Cfg.ukinds) THEN 0 ELSE 1

(* Candidates of each operation. *)
(* the slots of a value, if it is known to be a wide one; m is the last one of the others *)
IsWide(k) == k \in {"uh", "sh", "uhm", "shw"}
Ks(r, m) == IF Mine[r] > 0 /\ 5 \in DOMAIN slot[Mine[r]] THEN 0..5 ELSE 0..m
Droppable == {q \in Used : ~(Me = 0 /\ q \in held)}
Compatible(r, r2) == Mine[r] <= 0 \/ Mine[r2] <= 0 \/ dom[Mine[r]] = 0 \/ dom[Mine[r2]] = 1
CNew    == IF Free # {} /\ nobj < Cfg.objs THEN {0} ELSE {}
CClone  == IF Free # {} THEN Used ELSE {}
CLink   == {<<r, k, r2>> \in Nodes \X (0..5) \X Used : k \in Ks(r, 1) /\ Compatible(r, r2)}
CStore  == {<<r, k, r2>> \in Nodes \X (0..5) \X Droppable : k \in Ks(r, 1) /\ r # r2 /\ Compatible(r, r2)}
CFull(m) == {<<r, k>> \in Nodes \X (0..5) : k \in Ks(r, m) /\ Known(Mine[r], k) # 0}
CLoad   == IF Free # {} THEN CFull(2) ELSE {}
Via(r, k, k2) == LET m == Known(Mine[r], k)
                 IN IF m = -1 THEN -1 ELSE IF m \in isnode THEN Known(m, k2) ELSE 0
CLoad2  == IF Free # {} THEN {<<r, k, k2>> \in Nodes \X (0..2) \X (0..2) :
                                 Known(Mine[r], k) # 0 /\ Via(r, k, k2) # 0} ELSE {}
CTake   == IF Free # {} THEN CFull(1) ELSE {}
CHold   == IF Free # {} /\ Me = 0 THEN Nodes \X (0..1) ELSE {}
CRelease == IF Me = 0 THEN held ELSE {}

DoNew ==
  /\ CNew # {}
  /\ \E k \in Pick(Cfg.kinds), sc \in Pick(Cfg.scripts),
        ini \in (IF Cfg.init = 1 THEN Some({99} \cup (Objs \cap Droppable)) ELSE {99}) :
       LET r == Lowest(Free) o == nobj + 1
           useini == ini # 99 /\ IsNodeKind(k) /\ ~IsWide(k) /\ k \notin {"uv", "sv", "uvm", "uvw", "svw"}
                     /\ (KindDom(k) = 0 \/ dom[Mine[ini]] = 1) IN
       /\ nobj' = o
       /\ reg' = [reg EXCEPT ![Me] = [x \in Regs |-> IF x = r THEN o
                                       ELSE IF useini /\ x = ini THEN 0 ELSE @[x]]]
       /\ slot' = (o :> [x \in 0..(IF IsWide(k) THEN 5 ELSE 2) |-> IF useini /\ x = 2 THEN Mine[ini] ELSE 0]) @@ slot
       /\ isnode' = IF IsNodeKind(k) THEN isnode \cup {o} ELSE isnode
       /\ dom' = (o :> KindDom(k)) @@ dom
       /\ Emit("n:" \o S(r) \o ":" \o S(o) \o ":" \o k
               \o (IF sc = "" /\ ~useini THEN "" ELSE ":" \o (IF sc = "" THEN "-" ELSE sc))
               \o (IF useini THEN ":" \o S(ini) ELSE ""))
       /\ UNCHANGED held

DoClone(tag) ==
  \E r \in Some(CClone) :
    /\ Set(Lowest(Free), Mine[r])
    /\ Emit(tag \o ":" \o S(r) \o ":" \o S(Lowest(Free)))
    /\ KeepHeap /\ UNCHANGED held

DoDrop ==
  \E r \in Some(Droppable) :
    /\ Set(r, 0) /\ Emit("d:" \o S(r)) /\ KeepHeap /\ UNCHANGED held

DoRead(tag) ==
  \E r \in Some(Used) : /\ Emit(tag \o ":" \o S(r)) /\ KeepHeap /\ UNCHANGED <<reg, held>>

Store(o, k, v) == IF o > 0 /\ o \in isnode
                  THEN slot' = [slot EXCEPT ![o][k] = v] ELSE UNCHANGED slot

(* keep r2, put a clone of it into the slot *)
DoLink(tag) ==
  \E c \in Some(CLink) :
    /\ Store(Mine[c[1]], c[2], Mine[c[3]])
    /\ Emit("c:" \o S(c[3]) \o ":15 " \o tag \o ":" \o S(c[1]) \o ":" \o S(c[2]) \o ":15 d:15")
    /\ UNCHANGED <<reg, isnode, dom, nobj, held>>

DoStore(tag) ==
  \E c \in Some(CStore) :
    /\ Store(Mine[c[1]], c[2], Mine[c[3]])
    /\ Set(c[3], 0)
    /\ Emit(tag \o ":" \o S(c[1]) \o ":" \o S(c[2]) \o ":" \o S(c[3]))
    /\ UNCHANGED <<isnode, dom, nobj, held>>

DoLoad ==
  \E c \in Some(CLoad) :
    /\ Set(Lowest(Free), Known(Mine[c[1]], c[2]))
    /\ Emit("l:" \o S(c[1]) \o ":" \o S(c[2]) \o ":" \o S(Lowest(Free)))
    /\ KeepHeap /\ UNCHANGED held

DoLoad2 ==
  \E c \in Some(CLoad2) :
    /\ Set(Lowest(Free), Via(c[1], c[2], c[3]))
    /\ Emit("L:" \o S(c[1]) \o ":" \o S(c[2]) \o ":" \o S(c[3]) \o ":" \o S(Lowest(Free)))
    /\ KeepHeap /\ UNCHANGED held

DoTake ==
  \E c \in Some(CTake) :
    /\ Set(Lowest(Free), Known(Mine[c[1]], c[2]))
    /\ Store(Mine[c[1]], c[2], 0)
    /\ Emit("t:" \o S(c[1]) \o ":" \o S(c[2]) \o ":" \o S(Lowest(Free)))
    /\ UNCHANGED <<isnode, dom, nobj, held>>

(* empty a slot *)
DoCut ==
  \E c \in Some(CFull(1)) :
    /\ Store(Mine[c[1]], c[2], 0)
    /\ Emit("t:" \o S(c[1]) \o ":" \o S(c[2]) \o ":15 d:15")
    /\ UNCHANGED <<reg, isnode, dom, nobj, held>>

DoSwap ==
  \E r \in Some(Nodes) :
    /\ IF Mine[r] > 0
       THEN slot' = [slot EXCEPT ![Mine[r]] = [x \in DOMAIN @ |-> IF x < 2 THEN @[1 - x] ELSE @[x]]]
       ELSE UNCHANGED slot
    /\ Emit("w:" \o S(r) \o ":0:1")
    /\ UNCHANGED <<reg, isnode, dom, nobj, held>>

Plain(txt) == Emit(txt) /\ KeepHeap /\ UNCHANGED <<reg, held>>
DoDom(tag) == \E d \in Pick(Cfg.dom) : Plain(tag \o ":" \o S(d))
DoCond == \E d \in Pick(Cfg.dom), c \in Pick(Cfg.conds) : Plain("o:" \o S(d) \o ":" \o c)
DoEq == \E r \in Some(Used), r2 \in Some(Used) : Plain("q:" \o S(r) \o ":" \o S(r2))
DoCoerce == \E r \in Some(Nodes) : Plain("v:" \o S(r))
DoPoison == \E c \in Some(Nodes \X (0..1)) : Plain("P:" \o S(c[1]) \o ":" \o S(c[2]))
DoMany == Plain("z:1:100100")

(* take what a destructor saved, look at it, and drop it, keep it or link it *)
DoUnstash ==
  \E x \in Pick(Cfg.stash) : \E how \in Some(1..3) :
    CASE how = 1 \/ (how = 3 /\ Free = {}) \/ (how = 2 /\ Nodes = {}) ->
           Plain("m:" \o S(x) \o ":14 T:14 C:14:15 d:15 d:14")
      [] how = 2 /\ Nodes # {} ->
           \E c \in Some(Nodes \X (0..1)) :
             Plain("m:" \o S(x) \o ":14 D:14 s:" \o S(c[1]) \o ":" \o S(c[2]) \o ":14 d:14")
      [] OTHER -> /\ Set(Lowest(Free), -1)
                  /\ Emit("m:" \o S(x) \o ":" \o S(Lowest(Free))) /\ KeepHeap /\ UNCHANGED held
DoStash ==
  \E x \in Pick(Cfg.stash) : \E r \in Some(Droppable) :
    /\ Set(r, 0) /\ Emit("M:" \o S(r) \o ":" \o S(x)) /\ KeepHeap /\ UNCHANGED held

DoHold ==
  \E c \in Some(CHold) :
    /\ Set(Lowest(Free), Mine[c[1]])
    /\ held' = held \cup {Lowest(Free)}
    /\ Emit("b:" \o S(c[1]) \o ":" \o S(c[2]) \o ":" \o S(Lowest(Free)))
    /\ KeepHeap
DoForget == \E c \in Some(Nodes \X (0..1)) : Plain("fg:" \o S(c[1]) \o ":" \o S(c[2]))
DoRelease ==
  \E r \in Some(CRelease) :
    /\ held' = held \ {r} /\ Emit("u:" \o S(r)) /\ KeepHeap /\ UNCHANGED reg

DoTls ==
  \E r \in Some(Droppable), w \in Pick(<<"e", "l", "E", "L">>) :
    /\ Set(r, 0) /\ Emit("x:" \o S(r) \o ":" \o w) /\ KeepHeap /\ UNCHANGED held

Can(k) ==
  CASE k = "new" -> CNew # {} [] k \in {"clone", "tclone"} -> CClone # {}
    [] k \in {"drop", "stash", "tls"} -> Droppable # {} [] k \in {"deref", "tderef", "eq"} -> Used # {}
    [] k \in {"link", "linkl"} -> CLink # {} [] k \in {"store", "storel"} -> CStore # {}
    [] k = "load" -> CLoad # {} [] k = "load2" -> CLoad2 # {} [] k = "take" -> CTake # {}
    [] k = "cut" -> CFull(1) # {} [] k \in {"swap", "coerce", "poison", "forget"} -> Nodes # {}
    [] k = "hold" -> CHold # {} [] k = "release" -> CRelease # {}
    [] OTHER -> TRUE

Do(k) ==
  CASE k = "new" -> DoNew [] k = "clone" -> DoClone("c") [] k = "tclone" -> DoClone("C")
    [] k = "drop" -> DoDrop [] k = "deref" -> DoRead("D") [] k = "tderef" -> DoRead("T")
    [] k = "link" -> DoLink("s") [] k = "linkl" -> DoLink("S")
    [] k = "store" -> DoStore("s") [] k = "storel" -> DoStore("S")
    [] k = "load" -> DoLoad [] k = "load2" -> DoLoad2 [] k = "take" -> DoTake [] k = "cut" -> DoCut
    [] k = "swap" -> DoSwap [] k = "collect" -> DoDom("k") [] k = "probe" -> DoDom("p")
    [] k = "cond" -> DoCond [] k = "eq" -> DoEq [] k = "coerce" -> DoCoerce
    [] k = "poison" -> DoPoison [] k = "unstash" -> DoUnstash [] k = "stash" -> DoStash
    [] k = "hold" -> DoHold [] k = "release" -> DoRelease [] k = "tls" -> DoTls [] k = "forget" -> DoForget
    [] k = "yield" -> Plain("y") [] k = "many" -> DoMany

OpsOf == IF phase = 0 THEN Cfg.ops ELSE IF phase = NT + 2 THEN Cfg.fops
         ELSE IF phase = NT + 1 /\ Cfg.mops # <<>> THEN Cfg.mops ELSE Cfg.tops

Able == SelectSeq(OpsOf, Can)
Step == /\ phase <= NT + 2 /\ left > 0
        /\ UNCHANGED phase
        /\ left' = left - 1
        /\ LET A == Able IN
           IF A = <<>> THEN UNCHANGED <<reg, slot, isnode, dom, nobj, held, hist>>
           ELSE \E k \in Pick(A) : Do(k)

(* hand clones or the pointers themselves to the threads, then start them *)
Give(t) == {r \in Used : Mine[r] = -1 \/ (Mine[r] > 0 /\ dom[Mine[r]] = 1)}

RECURSIVE GiveText(_, _, _)
GiveText(t, k, given) ==
  IF k = Cfg.gifts THEN <<"", given>>
  ELSE IF Give(t) = {} THEN <<"", given>>
  ELSE LET r == RandomElement(Give(t))
           rest == GiveText(t, k + 1, given @@ (k :> Mine[r]))
       IN << " c:" \o S(r) \o ":15 g:15:" \o S(t) \o ":" \o S(k) \o rest[1], rest[2]>>

RECURSIVE AllGifts(_)
AllGifts(t) == IF t > NT THEN <<"", <<>>>>
               ELSE LET g == GiveText(t, 0, <<>>) rest == AllGifts(t + 1)
                    IN <<g[1] \o rest[1], (t :> g[2]) @@ rest[2]>>

(* optionally drop some of the main thread's own pointers before the threads run *)
RECURSIVE DropText(_)
DropText(A) == IF A = {} THEN "" ELSE LET r == CHOOSE x \in A : TRUE IN " d:" \o S(r) \o DropText(A \ {r})

Advance ==
  /\ left = 0 /\ phase <= NT + 2
  /\ UNCHANGED <<slot, isnode, dom, nobj, held>>
  /\ IF phase = 0 /\ NT > 0
     THEN LET g == AllGifts(1)
              gone == {r \in Used \ held : RandomElement(1..100) <= Cfg.release}
          IN /\ hist' = [hist EXCEPT ![0] = @ \o g[1] \o DropText(gone) \o " F"]
             /\ reg' = [t \in DOMAIN reg |->
                          IF t = 0 THEN [r \in Regs |-> IF r \in gone THEN 0 ELSE reg[0][r]]
                          ELSE [r \in Regs |-> IF r \in DOMAIN g[2][t] THEN g[2][t][r] ELSE 0]]
             /\ phase' = 1 /\ left' = Cfg.body
     ELSE IF phase = 0 THEN phase' = NT + 2 /\ left' = Cfg.tail /\ UNCHANGED <<hist, reg>>
     ELSE IF phase < NT THEN phase' = phase + 1 /\ left' = Cfg.body /\ UNCHANGED <<hist, reg>>
     ELSE IF phase = NT THEN phase' = NT + 1 /\ left' = Cfg.mainbody /\ UNCHANGED <<hist, reg>>
     ELSE IF phase = NT + 1 THEN /\ phase' = NT + 2 /\ left' = Cfg.tail
                                 /\ hist' = [hist EXCEPT ![0] = @ \o " J"] /\ UNCHANGED reg
     ELSE phase' = NT + 3 /\ left' = 0 /\ UNCHANGED <<hist, reg>>

Init == /\ phase = 0 /\ left = Cfg.setup /\ nobj = 0 /\ held = {}
        /\ reg = [t \in 0..NT |-> [r \in Regs |-> 0]]
        /\ slot = <<>> /\ isnode = {} /\ dom = <<>>
        /\ hist = [t \in 0..NT |-> ""]
Next == Step \/ Advance
Spec == Init /\ [][Next]_vars

RECURSIVE Text(_)
Text(t) == IF t > NT THEN "" ELSE ";" \o hist[t] \o Text(t + 1)
Report == phase = NT + 3 => PrintT("PROG " \o S(nobj) \o " " \o Text(0))
=============================================================================
