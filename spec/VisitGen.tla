------------------------------ MODULE VisitGen ------------------------------
(***************************************************************************)
(* Types built from the supported standard containers, and values of them. *)
(* A type is <<kind, argument types...>>.  Every type is one state; the    *)
(* values of a type are derived from numbers.                              *)
(***************************************************************************)
EXTENDS Visit, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.GENCFG)

Leaves == {<<"u">>, <<"s">>, <<"p">>}
One == {"box", "vec", "deque", "list", "arr0", "arr1", "arr3", "arr70", "bslice", "opt", "refcell", "once", "mutex",
        "rwlock", "set", "bset", "heap", "cow", "tup1", "ref"}
Two == {"res", "map", "maph", "bmap", "tup2"}
Many == 3..Cfg.maxtup

(* what can be behind a clone-on-write: it must be possible to clone it *)
Cloneable(t) == t[1] \in {"u", "s", "p", "vec", "box", "opt", "list", "refcell"} /\ (Len(t) = 2 => t[2][1] \in {"u", "s", "p"})
(* shared references need a type without thread-local pointers only to be a type; anything goes *)

Wrap(T) == {<<k, t>> : k \in One \ {"cow"}, t \in T} \cup {<<"cow", t>> : t \in {x \in T : Cloneable(x)}}
Pairs(A, B) == {<<k, a, b>> : k \in Two, a \in A, b \in B}
(* tuples of every supported length, of pointers with one other part at each position *)
Tuple(n, t, k) == <<"tup">> \o [i \in 1..n |-> IF i = k THEN t ELSE IF i % 3 = 0 THEN <<"p">> ELSE <<IF i % 2 = 0 THEN "s" ELSE "u">>]
Tuples(T) == UNION {{Tuple(n, t, k) : k \in 1..n, t \in T} : n \in Many}

Plain == {<<"q" \o ToString(k)>> : k \in 0..(Cfg.plain - 1)}
Level1 == Wrap(Leaves) \cup Pairs(Leaves, Leaves)
Level2 == Wrap(Level1) \cup Pairs(Level1, Leaves) \cup Pairs(Leaves, Level1)
Cells == {<<"refcell", <<"u">>>>, <<"mutex", <<"s">>>>, <<"rwlock", <<"u">>>>}

Types == Leaves \cup Plain \cup Level1 \cup Tuples(Cells) \cup (IF Cfg.deep = 1 THEN Level2 ELSE {})

-----------------------------------------------------------------------------
Mix(x) == (((x % 30011) * (x % 30011)) + (x \div 13)) % 10007
Hash(n, b) == Mix(((((n * 7919 + 13) % 10007) * ((b % 9973) + 17)) + n * 31 + b) % 100003)
Choose(q, n, b) == q[1 + (Hash(n, b) % Len(q))]

(* one value of each collection of pointers is large *)
Size(t, n, b) == IF b = 1 /\ n = Cfg.seed + Cfg.values /\ \A i \in 2..Len(t) : Len(t[i]) = 1 THEN Cfg.huge
                 ELSE Choose(IF b = 1 THEN Cfg.sizes ELSE Cfg.inner, n, b)

RECURSIVE Val(_, _, _)
Parted(t, n, b, k) == [i \in 1..k |-> Val(t, n, b * 100 + i)]
Val(t, n, b) ==
  LET k == t[1] IN
  CASE k \in {"u", "s"} -> <<k, b>>
    [] k = "p" \/ Len(t) = 1 -> <<"p">>
    [] k = "ref" -> <<"bo", Val(t[2], n, b * 100 + 1)>>
    [] k \in {"box", "tup1", "arr1"} -> <<"n", Parted(t[2], n, b, 1)>>
    [] k = "arr0" -> <<"n", <<>>>>
    [] k = "arr3" -> <<"n", Parted(t[2], n, b, 3)>>
    [] k = "arr70" -> <<"n", Parted(t[2], n, b, Cfg.array)>>
    [] k \in {"opt", "once"} -> <<"n", Parted(t[2], n, b, Choose(<<0, 1, 1>>, n, b))>>
    [] k \in {"vec", "deque", "list", "bslice", "set", "bset", "heap"} ->
         <<"n", Parted(t[2], n, b, Size(t, n, b))>>
    [] k = "refcell" -> <<"l", Choose(<<"f", "r", "f", "w">>, n, b), Val(t[2], n, b * 100 + 1)>>
    [] k = "mutex" -> <<"l", Choose(<<"f", "p", "f", "w", "q">>, n, b), Val(t[2], n, b * 100 + 1)>>
    [] k = "rwlock" -> <<"l", Choose(<<"f", "p", "f", "w", "q", "r">>, n, b), Val(t[2], n, b * 100 + 1)>>
    [] k = "cow" -> <<Choose(<<"ow", "bo">>, n, b), Val(t[2], n, b * 100 + 1)>>
    [] k = "res" -> IF Hash(n, b) % 2 = 0 THEN <<"ok", Val(t[2], n, b * 100 + 1)>>
                    ELSE <<"er", Val(t[3], n, b * 100 + 1)>>
    [] k \in {"map", "bmap", "maph"} ->
         LET m == Size(t, n, b)
             kv == [i \in 1..(2 * m) |-> Val(t[IF i % 2 = 1 THEN 2 ELSE 3], n, b * 100 + i)]
         IN <<"m", IF k = "maph" THEN Append(kv, <<"u", b * 100>>) ELSE kv>>
    [] OTHER -> <<"n", [i \in 1..(Len(t) - 1) |-> Val(t[i + 1], n, b * 100 + i)]>>

VARIABLE type
Init == type \in Types
Next == FALSE /\ UNCHANGED type
Spec == Init /\ [][Next]_type
Report == PrintT("TYPE " \o ToJson([t |-> type, v |-> [n \in 1..Cfg.values |-> Val(type, Cfg.seed + n, 1)]]))
=============================================================================
