------------------------------ MODULE TypesLaws ------------------------------
(* The laws of Types, on the universe of types: Coerces is a partial order (types   *)
(* whose datetime precision is unspecified are as wide as precision 3), and Super    *)
(* is its least upper bound, up to DECIMAL's 38 digits; so it is commutative,        *)
(* idempotent, associative, has UNKNOWN as identity and is monotone.                 *)
EXTENDS Types
VARIABLES st_a, st_b
Some == FlatTys \cup {ArrayT(t) : t \in SmallTys} \cup {MapT(s, t) : s \in {UnkT, VarcharT, CharT(3)}, t \in TinyTys} \cup {TyN0("ROW", <<>>, <<s, t>>) : s \in {UnkT, DecT(5, 2), DayT}, t \in TinyTys}
Init == st_a \in Some /\ st_b \in Some
Next == UNCHANGED <<st_a, st_b>>
RECURSIVE Capped(_)
Capped(t) == (NameOf(t) = "DECIMAL" /\ t.a[2] = "38") \/ \E i \in 1..Len(t.c) : Capped(t.c[i])
RECURSIVE AsWide(_)         \* with every unspecified precision spelled out
AsWide(t) == IF NameOf(t) \in Timelikes /\ t.a[2] = "" THEN [t EXCEPT !.a[2] = "3"] ELSE [t EXCEPT !.c = [i \in 1..Len(t.c) |-> AsWide(t.c[i])]]
J == Super(st_a, st_b)
Commutes == J.k = "None" \/ AsWide(J) = AsWide(Super(st_b, st_a))
CommutesNone == (J.k = "None") = (Super(st_b, st_a).k = "None")
Idempotent == Super(st_a, st_a) = st_a
Identity == Super(st_a, UnkT) = st_a /\ Super(UnkT, st_a) = st_a
Antisymmetric == Coerces(st_a, st_b) /\ Coerces(st_b, st_a) => AsWide(st_a) = AsWide(st_b)
Upper == J.k # "None" => Capped(J) \/ (Coerces(st_a, J) /\ Coerces(st_b, J))
Order == Coerces(st_a, st_b) => J.k # "None" /\ AsWide(J) = AsWide(st_b)
Least == \A u \in Some : Coerces(st_a, u) /\ Coerces(st_b, u) => J.k # "None" /\ (Capped(J) \/ Coerces(J, u))
Transitive == \A u \in Some : Coerces(st_a, st_b) /\ Coerces(st_b, u) => Coerces(st_a, u)
Associative == \A u \in Some :
  LET l == IF J.k = "None" THEN None ELSE Super(J, u)
      r == IF Super(st_b, u).k = "None" THEN None ELSE Super(st_a, Super(st_b, u))
  IN IF l.k = "None" \/ r.k = "None" THEN l.k = r.k ELSE AsWide(l) = AsWide(r)
=============================================================================
