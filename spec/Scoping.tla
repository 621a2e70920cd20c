------------------------------- MODULE Scoping -------------------------------
(* Behaviours about names: trees whose names come from a small pool, so that they    *)
(* meet, resolved against schemas whose columns all have different types.             *)
EXTENDS Calls, Families, Walk, Scope

VcT(k) == TyN0("VARCHAR", <<ToString(k)>>, <<>>)
ColN(nm, t) == N("Col", <<nm>>, <<t>>)
STab(a, cols) == N("STable", a, cols)
SchN(ts) == N("Schema", <<>>, ts)
ColsT == <<ColN("a", VcT(1)), ColN("b", VcT(2))>>
ColsU == <<ColN("a", VcT(3)), ColN("c", ArrayT(RowT(<<VcT(4), CharT(5)>>)))>>
ColsV == <<ColN("b", DecT(6, 1)), ColN("d", RowT(<<BigintT, VcT(7)>>)), ColN("e", MapT(VcT(8), ArrayT(DoubleT)))>>
ColsS == <<ColN("a", VcT(9)), ColN("k", ArrayT(VcT(10)))>>
ColsC == <<ColN("c", DecT(11, 0)), ColN("a", CharT(12))>>
Schemas == <<SchN(<<STab(<<"t">>, ColsT), STab(<<"u">>, ColsU), STab(<<"v">>, ColsV), STab(<<"w">>, <<>>)>>),
             SchN(<<STab(<<"t", "s">>, ColsS), STab(<<"u", "s", "c">>, ColsU), STab(<<"v">>, ColsV), STab(<<"n">>, ColsC)>>),
             SchN(<<STab(<<"t", "s">>, ColsT), STab(<<"u", "s2">>, ColsU), STab(<<"v", "s", "c">>, ColsC), STab(<<"p">>, ColsS)>>),
             SchN(<<STab(<<"v">>, ColsV), STab(<<"u">>, ColsC)>>),
             SchN(<<STab(<<"n">>, ColsT), STab(<<"r">>, ColsU), STab(<<"t">>, ColsV), STab(<<"k">>, ColsS)>>),
             SchN(<<>>)>>
ScopeE(o, s) == [E0 EXCEPT !.op = "scope", !.o = o, !.tree = s, !.cl = <<"scoped">>]
(* the schema command, on a text of the query *)
CliSchemaE(o, t) == [E0 EXCEPT !.op = "schema", !.o = o, !.text = t, !.cl = <<"told">>]

Sel(items, from) == SelX("ALL", "", "", <<>>, <<>>, items, from, None, None, None, <<>>)
Fd(a) == N("Field", a, <<>>)
TabN(a) == N("Table", a, <<>>)
ColPool == <<"a", "a", "b", "b", "c", "d", "e", "k">>
TabPool == <<<<"t">>, <<"t">>, <<"u">>, <<"v">>, <<"n">>, <<"w">>, <<"s", "t">>, <<"s", "u">>, <<"c", "s", "u">>, <<"z">>, <<"p">>>>
IdPool == <<"t", "t", "u", "r", "r", "p", "n", "v">>
Mix(s, i) == Rnd(1 + ((((s % 1000003) * 31) + (i * 7919)) % 2147483000))
From(pool, s) == pool[Pick(Rnd(s), Len(pool))]
LeafTys == <<VcT(20), DecT(21, 2), ArrayT(VcT(22)), RowT(<<VcT(23), VcT(24)>>), MapT(VcT(25), VcT(26)), BigintT, ArrayT(RowT(<<VcT(27)>>)), CharT(28)>>
Item(s) ==           \* a column reference or a value with a type
  LET f == N("Field", <<From(ColPool, s)>>, <<>>)
      r == Pick(Mix(s, 3), 20)
  IN IF r <= 9 THEN f ELSE IF r <= 15 THEN [f EXCEPT !.a = Append(f.a, From(IdPool, Mix(s, 4)))] ELSE IF r <= 17 THEN N("Cast", <<>>, <<f, From(LeafTys, Mix(s, 5))>>) ELSE IF r = 18 THEN Strl("xyz") ELSE N("TryCast", <<>>, <<N("Lit", <<"null">>, <<>>), From(LeafTys, Mix(s, 6))>>)
Aliases(k, s) == [ai \in 1..k |-> IF ai > 4 THEN "z" \o ToString(ai) ELSE <<From(ColPool, s), From(ColPool, Mix(s, 1)), From(ColPool, Mix(s, 2)), From(ColPool, Mix(s, 7))>>[ai]]
RECURSIVE Renamed1(_, _)
Renamed1(n, s) ==       \* n with names from the pools
  LET m == [n EXCEPT !.c = [i \in 1..Len(n.c) |-> Renamed1(n.c[i], Mix(s, i))]]
  IN CASE n.k = "Field" /\ n.c = <<>> -> Item(s)
       [] n.k = "Table" -> [n EXCEPT !.a = From(TabPool, s)]
       [] n.k = "ARel" -> [m EXCEPT !.a = <<From(IdPool, s)>> \o (IF Pick(Mix(s, 8), 3) = 1 THEN Aliases(Pick(Mix(s, 9), 3), s) ELSE <<>>)]
       [] n.k = "Using" -> [n EXCEPT !.a = [ui \in 1..Len(n.a) |-> IF ui > 2 THEN "z" \o ToString(ui) ELSE <<"a", "b">>[ui]]]
       [] n.k = "As" -> [m EXCEPT !.a = <<From(ColPool, s)>>]
       [] n.k = "Star" /\ n.a # <<>> -> [n EXCEPT !.a = <<From(IdPool, s)>>]
       [] n.k = "AStar" -> [m EXCEPT !.a = Aliases(Len(n.a), s)]
       [] OTHER -> m
Asked(n) == IF n.k \in QueryKinds THEN n ELSE Sel(<<n>>, JoinX("CROSS", "", TabN(<<"t">>), ARelN("r", <<>>, TabN(<<"u">>)), None))
ScopesPlan(n0, r, k) ==
  LET n == Asked(n0) IN
  FlattenSeq([j \in 1..k |-> LET s == Rnd(Rnd(1 + ((r % 1000003) + (j * 104729))))
                                 sch == Schemas[IF Pick(Rnd(s), 3) = 1 THEN Pick(s, Len(Schemas)) ELSE 1]
                             IN <<Make(Renamed1(n, Rnd(s)), <<>>), ScopeE(j, sch), ScopeE(j, sch)>>])

CliPlan(n, r, k) ==
  FlattenSeq([j \in 1..k |-> LET s == Rnd(Rnd(1 + ((r % 1000003) + (j * 104729))))
                                 m == TLCEval(Renamed1(n, Rnd(s)))
                             IN <<Make(m, <<>>), CliSchemaE(j, Render("query", m, Styles[1]))>>])
(* ------------------------------------------- every small query: FROM, item *)
CastTo(t) == N("Cast", <<>>, <<N("Lit", <<"null">>, <<>>), t>>)
Froms1 == <<TabN(<<"t">>), TabN(<<"u">>), TabN(<<"v">>), TabN(<<"w">>), TabN(<<"z">>), TabN(<<"n">>), TabN(<<"s", "t">>), ARelN("r", <<>>, TabN(<<"t">>)), ARelN("u", <<>>, TabN(<<"t">>)), ARelN("r", <<"a", "k">>, TabN(<<"t">>)), ARelN("r", <<"b", "a">>, TabN(<<"u">>)),
  ARelN("r", <<"k">>, TabN(<<"t">>)), ARelN("r", <<"a", "k">>, TabN(<<"z">>)), ARelN("r", <<>>, Sel(<<Fd(<<"b">>), N("As", <<"a">>, <<Fd(<<"b">>)>>)>>, TabN(<<"t">>))), Sel(<<Star0>>, TabN(<<"u">>)),
  ARelN("r", <<"x", "b">>, Vals(<<N("Row", <<>>, <<CastTo(VcT(31)), CastTo(VcT(32))>>), N("Row", <<>>, <<CastTo(VcT(33)), CastTo(VcT(30))>>)>>)), N("Unnest", <<"">>, <<Fd(<<"c">>)>>), ARelN("r", <<"a", "b", "o">>, N("Unnest", <<"ORD">>, <<Fd(<<"c", "u">>)>>)),
  ARelN("r", <<"a", "b">>, N("Unnest", <<"">>, <<Fd(<<"e">>)>>)), ARelN("r", <<>>, N("Lateral", <<>>, <<Sel(<<Fd(<<"a">>), N("As", <<"k">>, <<Fd(<<"a", "t">>)>>)>>, None)>>)), N("Lateral", <<>>, <<Sel(<<Fd(<<"a">>)>>, TabN(<<"u">>))>>),
  N("Sample", <<"SYSTEM">>, <<TabN(<<"t">>), IntL("5")>>), ARelN("p", <<>>, N("Sample", <<"SYSTEM">>, <<ARelN("r", <<>>, TabN(<<"t">>)), IntL("5")>>)), ARelN("r", <<>>, Sel(<<Fd(<<"a">>), Fd(<<"a", "t">>)>>, TabN(<<"u">>)))>>
JoinKinds == <<<<"CROSS", "", None>>, <<"INNER", "", N("Using", <<"a">>, <<>>)>>, <<"LEFT", "NATURAL", None>>, <<"FULL", "", OnC(Fd(<<"a">>))>>, <<"RIGHT", "", N("Using", <<"b", "a">>, <<>>)>>>>
JoinsBy(js) == {JoinX(JoinKinds[j][1], JoinKinds[j][2], Froms1[l], Froms1[r], JoinKinds[j][3]) : l \in 1..Len(Froms1), r \in 1..Len(Froms1), j \in js}
Items1 == <<<<Star0>>, <<N("Star", <<"t">>, <<>>)>>, <<N("Star", <<"r">>, <<>>), N("Star", <<"u">>, <<>>)>>, <<Fd(<<"a">>)>>, <<Fd(<<"a", "t">>)>>, <<Fd(<<"a", "r">>), Fd(<<"b", "t">>)>>, <<Fd(<<"a", "u">>), Fd(<<"d">>)>>, <<Fd(<<"b">>)>>, <<N("As", <<"q">>, <<Fd(<<"k">>)>>), Fd(<<"c">>)>>,
  <<N("AStar", <<"x", "y">>, <<N("Star", <<"t">>, <<>>)>>)>>, <<Sel(<<Fd(<<"a">>)>>, TabN(<<"v">>))>>, <<N("As", <<"q">>, <<Sel(<<Fd(<<"b">>)>>, TabN(<<"u">>))>>)>>, <<Sel(<<Fd(<<"a">>)>>, TabN(<<"z">>)), Sel(<<Fd(<<"a", "t">>)>>, TabN(<<"z">>))>>>>
(* all of the items, each in a query of its own *)
FromPlan(rel) ==
  LET s == Schemas[1]
  IN FlattenSeq([i \in 1..Len(Items1) |-> <<Make(Sel(Items1[i], rel), <<>>), ScopeE(i, s)>>])
  \o <<Make(SelX("ALL", "", "", <<ARelN("n", <<"a", "k">>, Sel(<<CastTo(VcT(40)), CastTo(VcT(41))>>, None)), ARelN("t", <<>>, Sel(<<Star0>>, TabN(<<"n">>)))>>, <<>>, <<Star0>>, rel, None, None, None, <<>>), <<>>), ScopeE(Len(Items1) + 1, s),
       Make(SelX("ALL", "", "", <<ARelN("n", <<"a", "k">>, Sel(<<Fd(<<"a">>), CastTo(VcT(41))>>, TabN(<<"t">>))), ARelN("n", <<>>, Sel(<<Star0>>, TabN(<<"n">>)))>>, <<>>, <<Sel(<<Fd(<<"a">>)>>, TabN(<<"n">>)), Fd(<<"a">>)>>, rel, None, None, None, <<>>), <<>>), ScopeE(Len(Items1) + 2, s)>>
(* qualified references against schemas whose tables are qualified in all ways *)
TableQuals == <<<<>>, <<"s">>, <<"s2">>, <<"s", "c">>, <<"s", "d">>, <<"s2", "c">>>>
QualRefs == {TabN(Reverse(TableQuals[i]) \o <<"t">>) : i \in 1..Len(TableQuals)} \cup {ARelN("r", <<>>, TabN(Reverse(TableQuals[i]) \o <<"t">>)) : i \in 1..Len(TableQuals)}
QualSchemas == [i \in 1..Len(TableQuals) |-> SchN(<<STab(<<"t">> \o TableQuals[i], ColsT)>>)]
  \o [i \in 1..(Len(TableQuals) * Len(TableQuals)) |-> SchN(<<STab(<<"t">> \o TableQuals[1 + ((i - 1) \div Len(TableQuals))], ColsT), STab(<<"t">> \o TableQuals[1 + ((i - 1) % Len(TableQuals))], ColsU)>>)]
QualPlan(rel) == FlattenSeq([i \in 1..Len(QualSchemas) |-> <<Make(Sel(<<Star0, Fd(<<"a">>)>>, rel), <<>>), ScopeE(i, QualSchemas[i])>>])
SetsOf == {Set2X : Set2X \in {SetX(k, IF k = "Union" THEN "ALL" ELSE "DISTINCT", "", "", <<>>, Sel(Items1[i], Froms1[l]), Sel(Items1[j], Froms1[r])) : k \in {"Union", "Except", "Intersect"}, i \in {1, 3, 4}, j \in {1, 4, 8}, l \in {1, 2, 4, 8, 10, 13, 16}, r \in {1, 2, 3, 5, 9, 11}}}
=============================================================================
