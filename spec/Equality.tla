------------------------------ MODULE Equality ------------------------------
(* Structural equality.  Two trees are the same when their kinds, attributes and  *)
(* children are; the window definitions of a query are a mapping, so their order   *)
(* does not count.  Mutants(n) are the trees one change away from n, at any depth. *)
EXTENDS Calls, Templates, FiniteSets

Alts(k) ==
  CASE k \in {"Pos", "Neg", "Not", "IsNull"} -> {"Pos", "Neg", "Not", "IsNull"}
    [] k \in ArithKinds \cup CmpKinds \cup {"And", "Or", "Distinct"} -> ArithKinds \cup CmpKinds \cup {"And", "Or", "Distinct"}
    [] k \in {"Cast", "TryCast"} -> {"Cast", "TryCast"}
    [] k \in {"Array", "Row"} -> {"Array", "Row"}
    [] k \in SetKinds -> SetKinds
    [] k \in {"GSet", "Cube", "Rollup"} -> {"GSet", "Cube", "Rollup"}
    [] OTHER -> {k}
LitAlts == {N("Lit", a, <<>>) : a \in {<<"int", "", "1">>, <<"int", "", "0">>, <<"int", "-", "1">>, <<"int", "", "10">>, <<"dec", "", "10", "1">>, <<"dec", "", "100", "2">>, <<"dbl", "", "1", "0">>, <<"dbl", "", "1", "1">>,
              <<"str", "1">>, <<"str", "">>, <<"str", "s">>, <<"str", "s ">>, <<"str", "S">>, <<"bool", "TRUE">>, <<"bool", "FALSE">>, <<"null">>, <<"dec", "", "0", "1">>, <<"dbl", "", "0", "0">>}}
(* alternatives of attribute i *)
Toggle(v, set) == set \ {v}
AttrAlts(n, i) ==
  LET v == n.a[i]
  IN CASE n.k \in {"Select", "TableQ", "Values"} \cup SetKinds ->
            IF i = 1 THEN (IF n.k \in {"TableQ", "Values"} THEN {} ELSE Toggle(v, {"ALL", "DISTINCT"})) ELSE Toggle(v, {"", "0", "1", "5"})
       [] n.k = "Fn" -> IF i = 2 THEN Toggle(v, {"RESPECT", "IGNORE"})
                        ELSE Toggle(v, IF Functions[v].agg THEN {"SUM", "AVG", "MAX", "MIN", "COUNT"} ELSE {"LOWER", "REVERSE", "NULLIF", "COALESCE"})
       [] n.k = "ListAgg" -> IF i = 1 THEN Toggle(v, {"", ",", " "}) ELSE IF i = 3 THEN {v \o "."} ELSE IF i = 4 THEN Toggle(v, {"WITH COUNT", "WITHOUT COUNT"}) ELSE {}
       [] n.k = "Normalize" -> Toggle(v, {"NFC", "NFD", "NFKC", "NFKD"})
       [] n.k = "DtFn" -> IF i = 2 THEN Toggle(v, {"0", "3", "6", "12"}) ELSE IF Len(n.a) = 2 THEN Toggle(v, DtNames) ELSE {}
       [] n.k = "Sess" -> Toggle(v, SessNames)
       [] n.k = "Interval" -> IF i = 1 THEN {"-" \o v, v \o "0"} ELSE IF i = 2 THEN Toggle(v, {"DAY", "HOUR", "YEAR"}) ELSE Toggle(v, {"", "MONTH", "SECOND"})
       [] n.k = "TypeCons" -> IF i = 1 THEN Toggle(v, {"DATE", "JSON", "VARCHAR"}) ELSE {v \o "0"}
       [] n.k = "Join" -> IF i = 1 THEN Toggle(v, {"INNER", "LEFT", "RIGHT", "FULL"}) ELSE Toggle(v, {"", "NATURAL"})
       [] n.k = "Unnest" -> Toggle(v, {"", "ORD"})
       [] n.k = "Sample" -> Toggle(v, {"BERNOULLI", "SYSTEM"})
       [] n.k = "GroupBy" -> Toggle(v, {"ALL", "DISTINCT"})
       [] n.k = "Order" -> IF i = 1 THEN Toggle(v, {"ASC", "DESC"}) ELSE Toggle(v, {"FIRST", "LAST"})
       [] n.k = "Window" -> IF i = 1 THEN Toggle(v, {"", "w", "w2"}) ELSE Toggle(v, {"RANGE", "ROWS", "GROUPS"})
       [] n.k \in {"BUnb", "BOff"} -> Toggle(v, {"PRECEDING", "FOLLOWING"})
       [] n.k = "Lit" -> IF n.a[1] = "str" /\ i = 2 THEN {v \o "z", v \o " "} ELSE {}
       [] n.k = "Type" -> IF i = 1 THEN {} ELSE IF v \in {"", "TZ"} /\ i = 3 THEN Toggle(v, {"", "TZ"}) ELSE Toggle(v, {"", "1", "2", "3"})
       [] OTHER -> {v \o "z", v \o " "}
AttrMut(n) == UNION {{[n EXCEPT !.a[i] = v] : v \in AttrAlts(n, i)} : i \in 1..Len(n.a)}
(* attributes that are lists, or optional *)
ShapeMut(n) ==
  CASE n.k = "Field" -> IF n.c # <<>> THEN {[n EXCEPT !.c = <<>>], [n EXCEPT !.c = <<>>, !.a = Append(n.a, "t")]}
                        ELSE IF Len(n.a) = 2 THEN {[n EXCEPT !.a = <<n.a[1]>>], [n EXCEPT !.a = <<n.a[2], n.a[1]>>], N("Var", <<n.a[1]>>, <<>>)}
                        ELSE {[n EXCEPT !.a = Append(n.a, "t")], N("Var", n.a, <<>>), N("Lit", <<"str", n.a[1]>>, <<>>), N("Neg", <<>>, <<n>>), N("Array", <<>>, <<n>>), N("Lit", <<"null">>, <<>>)}
    [] n.k = "Star" -> IF n.a = <<>> /\ n.c = <<>> THEN {[n EXCEPT !.a = <<"t">>]} ELSE {[n EXCEPT !.a = <<>>, !.c = <<>>]}
    [] n.k = "Table" -> {[n EXCEPT !.a = <<"q">> \o n.a]} \cup (IF Len(n.a) > 1 THEN {[n EXCEPT !.a = Tail(n.a)]} ELSE {N("TableQ", <<"", "", "">>, <<List(<<>>), List(<<>>), n>>)})
    [] n.k \in {"ARel", "AStar", "Lambda", "Using"} ->
         {[n EXCEPT !.a = Append(n.a, "z9")]} \cup (IF Len(n.a) > (IF n.k = "ARel" THEN 1 ELSE 0) THEN {[n EXCEPT !.a = SubSeq(n.a, 1, Len(n.a) - 1)]} ELSE {})
         \cup {[n EXCEPT !.a[i] = n.a[i + 1], !.a[i + 1] = n.a[i]] : i \in (IF n.k = "ARel" THEN 2 ELSE 1)..(Len(n.a) - 1)}
    [] n.k = "Normalize" -> IF n.a = <<>> THEN {[n EXCEPT !.a = <<"NFD">>]} ELSE {[n EXCEPT !.a = <<>>]}
    [] n.k = "ListAgg" -> IF Len(n.a) = 2 THEN {[n EXCEPT !.a = <<n.a[1], "TRUNCATE", "...", "WITH COUNT">>]} ELSE {[n EXCEPT !.a = <<n.a[1], "ERROR">>]}
    [] n.k = "Lit" -> LitAlts
    [] n.k = "Type" -> {Ty("BIGINT", <<>>), Ty("DOUBLE", <<>>), Ty("VARCHAR", <<>>), Ty("VARCHAR", <<"1">>), Ty("CHAR", <<"1">>), Ty("DECIMAL", <<"5", "2">>), Ty("DECIMAL", <<"5", "1">>), Ty("DECIMAL", <<"6", "2">>), Ty("TIME", <<"3", "">>), Ty("TIMESTAMP", <<"3", "">>),
                        Ty("TIMESTAMP", <<"3", "TZ">>), Ty("TIMESTAMP", <<"", "">>), Ty("TIMESTAMP", <<"0", "">>), Ty("UNKNOWN", <<>>), TyN("ARRAY", <<n>>), TyN("ROW", <<n>>), TyN("ROW", <<n, n>>), TyN("MAP", <<n, Ty("BIGINT", <<>>)>>), TyN("MAP", <<Ty("BIGINT", <<>>), n>>), TyN("QDIGEST", <<n>>)}
    [] n.k \in {"BUnb", "BCur", "BOff"} -> {UnbP, UnbF, Cur, Off("PRECEDING", F(0, 1)), Off("FOLLOWING", F(0, 1))}
    [] n.k \in {"On", "Using"} -> {OnC(F(0, 1)), N("Using", <<"a0">>, <<>>)}
    [] OTHER -> {}
(* children: swapped, dropped, doubled, present or absent *)
Listish(k) == k \in {"List", "Array", "Row", "GSet", "Cube", "Rollup", "GSets", "GroupBy", "Unnest"}
FirstElt(n) == CASE n.k \in {"InList"} -> 2 [] n.k = "Case" -> 3 [] OTHER -> 1
OptAlts(n, i) ==    \* what an absent child may be
  CASE n.k = "Select" /\ i = 4 -> {Tab(0, 8)} [] n.k = "Select" /\ i \in {5, 7} -> {F(0, 8)} [] n.k = "Select" /\ i = 6 -> {GB("ALL", <<GS(<<F(0, 8)>>)>>)}
    [] n.k = "Fn" /\ i = 3 -> {F(0, 8)} [] n.k = "Fn" /\ i = 4 -> {DefWin} [] n.k = "Like" -> {Strl("e")} [] n.k = "Case" -> {F(0, 8)} [] n.k = "Join" -> {OnC(F(0, 8))} [] OTHER -> {}
EltAlts(n, i) ==    \* what may be put in an empty list
  CASE n.k = "Fn" /\ i = 2 -> {Ord(0, 8)} [] n.k \in QueryKinds /\ i = 1 -> {ARelN("n8", <<>>, SelT(0, 8))} [] n.k \in QueryKinds /\ i = 2 -> {Ord(0, 8)} [] n.k = "Select" /\ i = 8 -> {N("WinDef", <<"w8">>, <<DefaultWindow("")>>)}
    [] n.k = "Window" /\ i = 1 -> {F(0, 8)} [] n.k = "Window" /\ i = 2 -> {Ord(0, 8)} [] OTHER -> {}
OptChild(n, i) == OptAlts(n, i) # {} /\ ~(n.k = "Case" /\ i > 2) /\ ~(n.k = "Like" /\ i < 3) /\ ~(n.k = "Join" /\ i < 3)
DropAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
DupAt(s, i) == SubSeq(s, 1, i) \o SubSeq(s, i, Len(s))
KidMut(n) ==
  {[n EXCEPT !.c[i] = n.c[i + 1], !.c[i + 1] = n.c[i]] : i \in {j \in 1..(Len(n.c) - 1) : n.c[j].k \notin {"None", "List"} /\ n.c[j + 1].k \notin {"None", "List"} /\ n.k \notin {"Select", "Fn", "Cast", "TryCast", "InQuery", "Lateral", "Sample"}
                                                                                /\ (n.k = "Join" => j = 1)}}
  \cup (IF Listish(n.k) \/ n.k \in {"InList", "Case"} THEN {[n EXCEPT !.c = DropAt(n.c, i)] : i \in {j \in FirstElt(n)..Len(n.c) : Len(n.c) > FirstElt(n) \/ n.k = "List"}}
                                       \cup {[n EXCEPT !.c = DupAt(n.c, i)] : i \in FirstElt(n)..Len(n.c)} ELSE {})
  \cup UNION {IF OptChild(n, i) THEN (IF n.c[i].k = "None" THEN {[n EXCEPT !.c[i] = x] : x \in OptAlts(n, i)} ELSE {[n EXCEPT !.c[i] = None]}) ELSE {} : i \in 1..Len(n.c)}
  \cup UNION {IF n.c[i].k = "List" /\ n.c[i].c = <<>> THEN {[n EXCEPT !.c[i] = List(<<x>>)] : x \in EltAlts(n, i)} ELSE {} : i \in 1..Len(n.c)}
LocalMut(n) == ({[n EXCEPT !.k = k] : k \in Alts(n.k)} \cup AttrMut(n) \cup ShapeMut(n) \cup KidMut(n)) \ {n}

RECURSIVE Mutants(_)
Mutants(n) == LocalMut(n) \cup UNION {{[n EXCEPT !.c[i] = m] : m \in Mutants(n.c[i])} : i \in 1..Len(n.c)}

EqE(o, r) == [E0 EXCEPT !.op = "equals", !.o = o, !.ref = r, !.cl = <<"equal">>]
EqualsPlan(n, all) ==
  LET ms == SetToSeq(Mutants(n))
      step == IF all \/ Len(ms) <= 60 THEN 1 ELSE 1 + (Len(ms) \div 60)
      k == (Len(ms) + step - 1) \div step
  IN <<Make(n, <<"built">>), Make(n, <<>>), EqE(1, 1), EqE(1, 2), EqE(2, 1), [EqE(1, 0) EXCEPT !.what = "text"], [EqE(1, 0) EXCEPT !.what = "none"], [EqE(1, 0) EXCEPT !.what = "dict"]>>
     \o FlattenSeq([i \in 1..k |-> <<Make(ms[1 + (i - 1) * step], <<>>), EqE(1, 2 + i), EqE(2 + i, 1), EqE(1 + i, 2 + i)>>])
     \o <<EqE(1, 2), EqE(1, 1)>>
=============================================================================
