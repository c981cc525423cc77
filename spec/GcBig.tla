------------------------------- MODULE GcBig --------------------------------
(***************************************************************************)
(* Large heaps, many pointers to one value, and long runs of collections:  *)
(* one program for each.                                                   *)
(*                                                                         *)
(* Configuration: dom (0/1), kind, sizes, widths, counts, runs, conds      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.GENCFG)
Rng(q) == {q[k] : k \in DOMAIN q}
S(n) == ToString(n)

-----------------------------------------------------------------------------
(* Shapes: what the two slots of value o of n lead to (0: nothing).  Each value is on a *)
(* cycle, except in a chain, where only the last one is.                                             *)

Succ(o, n) == IF o = n THEN 1 ELSE o + 1
Two(shape, o, n) ==
  CASE shape = "ring"  -> <<Succ(o, n), 0>>
    [] shape = "twice" -> <<Succ(o, n), Succ(o, n)>>
    [] shape = "list"  -> <<IF o = n THEN 0 ELSE o + 1, IF o = 1 THEN 0 ELSE o - 1>>
    [] shape = "chain" -> <<IF o = n THEN n ELSE o + 1, 0>>
    [] shape = "star"  -> <<IF o = n THEN 0 ELSE o + 1, 1>>
    [] shape = "tree"  -> <<IF 2 * o > n THEN 1 ELSE 2 * o, IF 2 * o + 1 > n THEN o ELSE 2 * o + 1>>
    [] shape = "loops" -> <<o, 0>>
    [] shape = "pairs" -> <<IF o % 2 = 0 THEN o - 1 ELSE IF o = n THEN n ELSE o + 1, 0>>
    [] shape = "chord" -> <<Succ(o, n), 1 + ((o * 7) % n)>>
Shapes == {"ring", "twice", "list", "chain", "star", "tree", "chord", "loops", "pairs"}

(* The order in which the program's own pointers are dropped; the value kept until later. *)
At(order, k, n) == CASE order = "up" -> k [] order = "down" -> n + 1 - k [] order = "mixed" -> 1 + ((k * (IF n % 5 = 0 THEN 11 ELSE 5)) % n)

Big == [what : {"big"}, shape : Shapes, n : Rng(Cfg.sizes), order : {"up", "down", "mixed"}, keep : 0..2, cond : Rng(Cfg.conds)]
Many == [what : {"many"}, n : Rng(Cfg.counts), loop : 0..2, inner : {0, 1}, cond : Rng(Cfg.conds)]
Hub == [what : {"hub"}, n : Rng(Cfg.widths), back : {0, 1}, order : {"up", "down", "mixed"}, keep : 0..2, cond : Rng(Cfg.conds)]
Often == [what : {"often"}, n : Rng(Cfg.runs), keep : {0, 1}, cond : Rng(Cfg.conds)]

VARIABLE c
Init == c \in Big \cup Many \cup Hub \cup Often
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c

RECURSIVE Cat(_, _, _)
Cat(F(_), a, b) == IF a > b THEN "" ELSE F(a) \o Cat(F, a + 1, b)

K == " k:" \o S(Cfg.dom)
New(o) == " hn:" \o S(o) \o ":" \o S(o) \o ":" \o Cfg.kind
Link(o, k, p) == IF p = 0 THEN "" ELSE " hl:" \o S(o) \o ":" \o S(k) \o ":" \o S(p)
Drop(i) == " hx:" \o S(i)
Read(i) == " hr:" \o S(i)

BigProg ==
  LET n == c.n
      kept == IF c.keep = 0 THEN 0 ELSE IF c.keep = 1 THEN 1 ELSE n \div 2
      links(o) == Link(o, 0, Two(c.shape, o, n)[1]) \o Link(o, 1, Two(c.shape, o, n)[2])
      drop(k) == LET o == At(c.order, k, n) IN IF o = kept THEN "" ELSE Drop(o)
  IN Cat(New, 1, n) \o Cat(links, 1, n) \o Cat(drop, 1, n) \o K
     \o (IF kept = 0 THEN "" ELSE Read(kept) \o Drop(kept) \o K)

(* value 1, on a cycle of length loop, with n further pointers; inner: some of them in values *)
ManyProg ==
  LET n == c.n
      clone(i) == " hc:1:" \o S(i + 10)
      gone(i) == Drop(i + 10)
  IN New(1) \o New(2)
     \o (CASE c.loop = 0 -> "" [] c.loop = 1 -> Link(1, 0, 1) [] c.loop = 2 -> Link(1, 0, 2) \o Link(2, 0, 1))
     \o (IF c.inner = 1 THEN Link(2, 1, 1) \o Link(1, 1, 2) ELSE "")
     \o Drop(2) \o Cat(clone, 1, n) \o K \o Drop(1) \o K \o Read(11) \o Cat(gone, 2, n) \o K \o Read(11) \o Drop(11) \o K

(* value 1 leads to n further values, each of which leads back or to itself *)
HubProg ==
  LET n == c.n + 1
      kept == CASE c.keep = 0 -> 0 [] c.keep = 1 -> 1 [] c.keep = 2 -> n
      links(o) == Link(1, o - 2, o) \o Link(o, 0, IF c.back = 1 THEN 1 ELSE o)
      drop(k) == LET o == At(c.order, k, n) IN IF o = kept THEN "" ELSE Drop(o)
  IN " hn:1:1:" \o Cfg.kind \o "g" \o Cat(New, 2, n) \o Cat(links, 2, n) \o Cat(drop, 1, n) \o K
     \o (IF kept = 0 THEN "" ELSE Read(kept) \o Drop(kept) \o K)

(* n collections with nothing to do, then many with one cycle each *)
OftenProg ==
  LET cyc(o) == New(o) \o Link(o, 0, o) \o " hc:" \o S(o) \o ":90" \o Drop(90) \o Drop(o) \o K
  IN (IF c.keep = 1 THEN New(9) \o Link(9, 0, 9) \o " hc:9:90" \o Drop(90) ELSE "")
     \o cyc(1) \o " kk:" \o S(Cfg.dom) \o ":" \o S(c.n) \o Cat(cyc, 10, 50)
     \o (IF c.keep = 1 THEN Read(9) \o Drop(9) \o K ELSE "")

Objs == CASE c.what = "big" -> c.n [] c.what = "hub" -> c.n + 1 [] c.what = "many" -> 2 [] c.what = "often" -> 50
Program == "o:" \o S(Cfg.dom) \o ":" \o c.cond
           \o (CASE c.what = "big" -> BigProg [] c.what = "many" -> ManyProg [] c.what = "hub" -> HubProg [] c.what = "often" -> OftenProg)

(* Samples take the same number from each family. *)
Family == c.what \o c.cond \o (IF c.what = "big" THEN c.shape ELSE IF c.what \in {"often", "hub"} THEN S(c.n) ELSE S(c.loop))

Report == PrintT("PROG " \o S(Objs) \o " " \o Family \o " ; " \o Program)
=============================================================================
