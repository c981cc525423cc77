----------------------------- MODULE DeriveGen ------------------------------
(***************************************************************************)
(* Shapes of user types and values of them.  A shape has a number of       *)
(* variants (a struct is one variant), each with a style and field kinds:  *)
(*   u, s   a pointer of either module      p   something plain            *)
(*   w, v   a cell, a mutex with a pointer  i   another derived type       *)
(*   g, h   the type parameter, a list of it                               *)
(*   a, t   an array, a tuple               o, b   an option, a box         *)
(*   r, f   a reference, a function                                        *)
(* The small shapes are listed, larger ones are derived from numbers.      *)
(***************************************************************************)
EXTENDS Visit, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.GENCFG)

Mix(x) == (((x % 30011) * (x % 30011)) + (x \div 13)) % 10007
Hash(n, b) == Mix(((((n * 7919 + 13) % 10007) * ((b % 9973) + 17)) + n * 31 + b) % 100003)
Choose(q, n, b) == q[1 + (Hash(n, b) % Len(q))]

FieldKinds == <<"u", "s", "p", "w", "u", "i", "v", "s", "a", "t", "o", "b", "r", "f">>
GenericKinds == <<"g", "u", "h", "w", "s", "g", "p", "i", "a", "t", "o">>
Styles == <<"named", "tuple", "named", "tuple", "unit">>
Generics == <<"none", "none", "none", "T", "TW", "V", "bound", "where", "const", "life", "default", "unsized", "mix">>
Names == <<"plain", "under", "raw", "tricky", "pub">>
Insts == <<"u", "s", "w", "p", "i">>

Variant(style, k, n, b, generic) ==
  [style |-> style,
   fields |-> IF style = "unit" THEN <<>>
              ELSE [x \in 1..k |-> Choose(IF generic THEN GenericKinds ELSE FieldKinds, n, b * 16 + x)]]

IsGeneric(g) == g \in {"T", "TW", "V", "bound", "where", "default", "unsized", "mix"}

(* every style and number of fields, as a struct and as one of three variants *)
Small ==
  {[what |-> w, gen |-> g, names |-> nm, inst |-> "w", num |-> k,
    variants |-> IF w = "struct" THEN <<Variant(st, k, k, 3, IsGeneric(g))>>
                 ELSE <<Variant("unit", 0, k, 1, FALSE), Variant(st, k, k, 3, IsGeneric(g)), Variant("tuple", 2, k, 4, FALSE)>>] :
   w \in {"struct", "enum"}, g \in {"none", "T"}, nm \in {"plain", "tricky", "under"},
   st \in {"named", "tuple", "unit"}, k \in 0..Cfg.fields}
(* every generic form *)
Forms ==
  {[what |-> w, gen |-> Generics[gx], names |-> Names[nx], inst |-> Insts[ix], num |-> 77 + gx,
    variants |-> [q \in 1..(IF w = "struct" THEN 1 ELSE 2) |-> Variant(st, 4, 77 + gx, q, IsGeneric(Generics[gx]))]] :
   w \in {"struct", "enum"}, gx \in DOMAIN Generics, nx \in DOMAIN Names, ix \in DOMAIN Insts, st \in {"named", "tuple"}}
(* no variants at all *)
Empty == {[what |-> "enum", gen |-> g, names |-> "plain", inst |-> "u", num |-> 0, variants |-> <<>>] : g \in {"none"}}

Big(n) ==
  LET w == Choose(<<"struct", "enum", "enum">>, n, 1)
      g == Choose(Generics, n, 2)
  IN [what |-> w, gen |-> g, names |-> Choose(Names, n, 3), inst |-> Choose(Insts, n, 4), num |-> n,
      variants |-> [q \in 1..(IF w = "struct" THEN 1 ELSE 1 + (Hash(n, 5) % 6)) |->
                      Variant(Choose(Styles, n, 10 + q), Hash(n, 20 + q) % 8, n, 30 + q, IsGeneric(g))]]

(* an unsized parameter is the type of the last field and nothing else *)
Plainer(q) == SelectSeq(q, LAMBDA k : k \notin {"g", "h"})
Legal(sh) == IF sh.gen = "unsized" /\ sh.what = "struct" /\ sh.variants[1].style # "unit"
             THEN [sh EXCEPT !.variants[1].fields = Append(Plainer(@), "g")]
             ELSE sh

Shapes == {Legal(sh) : sh \in Small \cup Forms \cup Empty \cup {Big(Cfg.seed * 1000 + n) : n \in 1..Cfg.big}}

RECURSIVE FVal(_, _, _, _)
FVal(k, inst, n, b) ==
  CASE k \in {"u", "s"} -> <<k, b>>
    [] k = "p" -> <<"p">>
    [] k = "w" -> <<"l", Choose(<<"f", "f", "r", "f", "w">>, n, b), <<"u", b * 40 + 1>>>>
    [] k = "v" -> <<"l", Choose(<<"f", "f", "p", "f", "w">>, n, b), <<"s", b * 40 + 1>>>>
    [] k = "a" -> <<"n", <<<<"u", b * 40 + 1>>, <<"u", b * 40 + 2>>>>>>
    [] k = "t" -> <<"n", <<<<"s", b * 40 + 1>>, FVal("w", inst, n, b * 40 + 2)>>>>
    [] k = "o" -> <<"n", IF Hash(n, b) % 3 = 0 THEN <<>> ELSE <<<<"u", b * 40 + 1>>>>>>
    [] k = "r" -> <<"bo", <<"u", b>>>>
    [] k = "f" -> <<"p">>
    [] k \in {"i", "b"} -> <<"n", <<<<"u", b * 40 + 1>>, FVal("w", inst, n, b * 40 + 2)>>>>
    [] k = "g" -> FVal(inst, inst, n, b)
    [] k = "h" -> <<"n", <<FVal(inst, inst, n, b * 40 + 1), FVal(inst, inst, n, b * 40 + 2)>>>>

VVal(sh, q, n) == <<"n", [x \in DOMAIN sh.variants[q].fields |-> FVal(sh.variants[q].fields[x], sh.inst, n, x)]>>

VARIABLE shape
Init == shape \in Shapes
Next == FALSE /\ UNCHANGED shape
Spec == Init /\ [][Next]_shape
Report == PrintT("SHAPE " \o ToJson([s |-> shape,
            v |-> [q \in DOMAIN shape.variants |-> [n \in 1..Cfg.values |-> VVal(shape, q, n)]]]))

(* The ordered visiting machine on the same values. *)
VARIABLES v, m
mcvars == <<shape, v, m>>
InitMC == /\ shape \in Shapes
          /\ \E q \in DOMAIN shape.variants, n \in 1..Cfg.values : v = VVal(shape, q, n)
          /\ m = Start(v)
NextMC == m' \in Moves(m, TRUE) /\ UNCHANGED <<shape, v>>
SpecMC == InitMC /\ [][NextMC]_mcvars
SoundMC == Sound(v, m, TRUE)
InitGen == Init /\ v = 0 /\ m = 0
SpecGen == InitGen /\ [][Next /\ UNCHANGED <<v, m>>]_mcvars
=============================================================================
