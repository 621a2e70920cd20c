-------------------------------- MODULE Types --------------------------------
(* Data types.  A type is a node Type a=<<NAME, params..>> c=element types:         *)
(*   DECIMAL,p,s  VARCHAR[,n]  CHAR,n  TIME,p,z  TIMESTAMP,p,z ("" = unspecified)    *)
(*   INTERVAL,from,to  ARRAY(t)  MAP(k,v)  ROW(t..)  QDIGEST(t)  and plain names     *)
(* Coerces(s, t): every value of s is one of t, under Trino's implicit coercions.    *)
(* Super(s, t): the least type both coerce to, None when there is none.              *)
(* TypesLaws checks that Super is the least upper bound of the order Coerces.        *)
EXTENDS Grammar, FiniteSets

TyN0(name, params, kids) == N("Type", <<name>> \o params, kids)
Plain(name) == TyN0(name, <<>>, <<>>)
UnkT == Plain("UNKNOWN")
BoolT == Plain("BOOLEAN")
VarcharT == Plain("VARCHAR")
BigintT == Plain("BIGINT")
DoubleT == Plain("DOUBLE")
HllT == Plain("HYPERLOGLOG")
DecT(p, s) == TyN0("DECIMAL", <<ToString(p), ToString(s)>>, <<>>)
CharT(n) == TyN0("CHAR", <<ToString(n)>>, <<>>)
ArrayT(t) == TyN0("ARRAY", <<>>, <<t>>)
MapT(k, v) == TyN0("MAP", <<>>, <<k, v>>)
TimelikeT(name, p, z) == TyN0(name, <<p, IF z THEN "TZ" ELSE "">>, <<>>)
DayT == TyN0("INTERVAL", <<"DAY", "SECOND">>, <<>>)
YearT == TyN0("INTERVAL", <<"YEAR", "MONTH">>, <<>>)

Min2(i, j) == IF i < j THEN i ELSE j
Max2(i, j) == IF i > j THEN i ELSE j
NameOf(t) == t.a[1]
Num(t, i) == NatOf(t.a[i])
Bounded(t) == Len(t.a) = 2                     \* a VARCHAR with a length
Integrals == {"TINYINT", "SMALLINT", "INTEGER", "BIGINT"}
Digits10(name) == CASE name = "TINYINT" -> 3 [] name = "SMALLINT" -> 5 [] name = "INTEGER" -> 10 [] OTHER -> 19
Floats == {"REAL", "DOUBLE"}
Numerics == Integrals \cup Floats \cup {"DECIMAL"}
Strings == {"VARCHAR", "CHAR"}
Timelikes == {"TIME", "TIMESTAMP"}
LongestChar == 65536

(* ------------------------------------------------------ implicit coercions *)
Prec(t) == IF t.a[2] = "" THEN 3 ELSE Num(t, 2)      \* an unspecified precision is 3
RECURSIVE Coerces(_, _)
Coerces(s, t) ==
  LET m == NameOf(s)  n == NameOf(t)
  IN CASE s = t -> TRUE
       [] m = "UNKNOWN" -> TRUE
       [] m \in Integrals /\ n \in Integrals -> Digits10(m) <= Digits10(n)
       [] m \in Integrals /\ n = "DECIMAL" -> Digits10(m) <= Num(t, 2) - Num(t, 3)
       [] m \in Integrals /\ n \in Floats -> TRUE
       [] m = "DECIMAL" /\ n = "DECIMAL" -> Num(s, 2) - Num(s, 3) <= Num(t, 2) - Num(t, 3) /\ Num(s, 3) <= Num(t, 3)
       [] m = "DECIMAL" /\ n \in Floats -> TRUE
       [] m = "REAL" /\ n = "DOUBLE" -> TRUE
       [] m = "VARCHAR" /\ n = "VARCHAR" -> ~Bounded(t) \/ (Bounded(s) /\ Num(s, 2) <= Num(t, 2))
       [] m = "CHAR" /\ n = "CHAR" -> Num(s, 2) <= Num(t, 2)
       [] m = "VARCHAR" /\ n = "CHAR" -> Num(t, 2) = LongestChar \/ (Bounded(s) /\ Num(s, 2) <= Num(t, 2))
       [] m \in Timelikes /\ n = m -> Prec(s) <= Prec(t) /\ (s.a[3] = "" \/ t.a[3] = "TZ")
       [] m = "DATE" /\ n = "TIMESTAMP" -> TRUE
       [] m = "P4HYPERLOGLOG" /\ n = "HYPERLOGLOG" -> TRUE
       [] m \in {"ARRAY", "MAP", "ROW"} /\ n = m -> Len(s.c) = Len(t.c) /\ \A i \in 1..Len(s.c) : Coerces(s.c[i], t.c[i])
       [] OTHER -> FALSE

(* ------------------------------------------------------- common supertype *)
SuperDec(s, t) ==
  LET sc == Max2(Num(s, 3), Num(t, 3))
  IN DecT(Min2(38, Max2(Num(s, 2) - Num(s, 3), Num(t, 2) - Num(t, 3)) + sc), sc)
AsDec(t) == IF NameOf(t) = "DECIMAL" THEN t ELSE DecT(Digits10(NameOf(t)), 0)
AsChar(t) == IF NameOf(t) = "CHAR" THEN t ELSE CharT(IF Bounded(t) THEN Min2(LongestChar, Num(t, 2)) ELSE LongestChar)
SuperNumeric(s, t) ==
  LET ns == {NameOf(s), NameOf(t)}
  IN CASE "DOUBLE" \in ns -> DoubleT
       [] "REAL" \in ns -> Plain("REAL")
       [] "DECIMAL" \in ns -> SuperDec(AsDec(s), AsDec(t))
       [] OTHER -> IF Digits10(NameOf(s)) >= Digits10(NameOf(t)) THEN s ELSE t
SuperTimelike(s, t) ==
  LET ps == {s.a[2], t.a[2]}
      p == IF "" \notin ps THEN ToString(Max2(Num(s, 2), Num(t, 2)))
           ELSE IF ps = {""} \/ Max2(Prec(s), Prec(t)) > 3 THEN (IF ps = {""} THEN "" ELSE ToString(Max2(Prec(s), Prec(t))))
           ELSE IF "3" \in ps THEN "3" ELSE ""
  IN TyN0(NameOf(s), <<p, IF "TZ" \in {s.a[3], t.a[3]} THEN "TZ" ELSE "">>, <<>>)
RECURSIVE Super(_, _)
Super(s, t) ==
  LET m == NameOf(s)  n == NameOf(t)
      kids == [i \in 1..Len(s.c) |-> Super(s.c[i], t.c[i])]
  IN CASE s = t \/ n = "UNKNOWN" -> s
       [] m = "UNKNOWN" -> t
       [] m \in Numerics /\ n \in Numerics -> SuperNumeric(s, t)
       [] m = "VARCHAR" /\ n = "VARCHAR" -> IF Bounded(s) /\ Bounded(t) THEN TyN0("VARCHAR", <<ToString(Max2(Num(s, 2), Num(t, 2)))>>, <<>>) ELSE VarcharT
       [] m \in Strings /\ n \in Strings -> CharT(Max2(Num(AsChar(s), 2), Num(AsChar(t), 2)))
       [] m \in Timelikes /\ n = m -> SuperTimelike(s, t)
       [] {m, n} = {"DATE", "TIMESTAMP"} -> IF m = "DATE" THEN t ELSE s
       [] {m, n} = {"HYPERLOGLOG", "P4HYPERLOGLOG"} -> HllT
       [] m \in {"ARRAY", "MAP", "ROW"} /\ n = m -> IF Len(s.c) # Len(t.c) \/ \E i \in 1..Len(s.c) : kids[i].k = "None" THEN None ELSE [s EXCEPT !.c = kids]
       [] OTHER -> None
(* of any number of types; UNKNOWN when they have none *)
RECURSIVE Reduced(_, _)
Reduced(s, ts) == IF ts = <<>> THEN s ELSE LET j == Super(s, Head(ts)) IN IF j.k = "None" THEN None ELSE Reduced(j, Tail(ts))
Common(ts) == LET j == Reduced(UnkT, ts) IN IF j.k = "None" THEN UnkT ELSE j
Arithmetic(s, t) == IF s = t THEN s ELSE IF NameOf(s) = NameOf(t) \/ {NameOf(s), NameOf(t)} \subseteq Numerics THEN Common(<<s, t>>) ELSE UnkT

(* ---------------------------------------------------------------- universe *)
SimpleTys == {Plain(x) : x \in SimpleTypes}
DecTys(ps) == {DecT(p[1], p[2]) : p \in ps}
VarTys(ls) == {VarcharT} \cup {TyN0("VARCHAR", <<ToString(l)>>, <<>>) : l \in ls}
CharTys(ls) == {CharT(l) : l \in ls}
TimelikeTys(ps) == {TyN0(n, <<p, z>>, <<>>) : n \in Timelikes, p \in ps, z \in {"", "TZ"}}
FlatTys == SimpleTys \cup DecTys({<<1, 0>>, <<1, 1>>, <<3, 0>>, <<3, 1>>, <<5, 2>>, <<5, 5>>, <<10, 0>>, <<18, 3>>, <<19, 0>>, <<20, 1>>, <<38, 0>>, <<38, 19>>, <<38, 37>>, <<38, 38>>})
  \cup VarTys({0, 1, 5, 65535, 65536, 65537, 2147483646}) \cup CharTys({0, 1, 5, 65535, 65536}) \cup TimelikeTys({"", "0", "2", "3", "4", "12"}) \cup {DayT, YearT}
SmallTys == {Plain(x) : x \in {"UNKNOWN", "INTEGER", "BIGINT", "DOUBLE", "DATE", "P4HYPERLOGLOG", "BOOLEAN"}} \cup {DecT(5, 2), DecT(3, 1), VarcharT, TyN0("VARCHAR", <<"5">>, <<>>), CharT(3), TimelikeT("TIMESTAMP", "", FALSE), TimelikeT("TIMESTAMP", "2", TRUE)}
TinyTys == {UnkT, Plain("INTEGER"), DecT(5, 2), VarcharT, CharT(3), DayT}
NestedTys == {ArrayT(t) : t \in SmallTys} \cup {MapT(s, t) : s \in TinyTys, t \in TinyTys} \cup {TyN0("ROW", <<>>, <<t>>) : t \in SmallTys} \cup {TyN0("ROW", <<>>, <<s, t>>) : s \in TinyTys, t \in TinyTys}
  \cup {TyN0("QDIGEST", <<>>, <<t>>) : t \in {BigintT, DoubleT, Plain("REAL"), UnkT}} \cup {ArrayT(ArrayT(t)) : t \in TinyTys} \cup {ArrayT(MapT(VarcharT, t)) : t \in TinyTys} \cup {MapT(t, TyN0("ROW", <<>>, <<t, BigintT>>)) : t \in TinyTys}
AllTys == FlatTys \cup NestedTys
=============================================================================
