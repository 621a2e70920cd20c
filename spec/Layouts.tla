------------------------------- MODULE Layouts -------------------------------
(* Trees whose lists are on either side of every wrap width, in each place a list   *)
(* can be in, and trees with long names.                                             *)
EXTENDS Families, Calls, Walk

LongName(w, j) == LET RECURSIVE LgGo(_) LgGo(i) == IF i = 0 THEN "" ELSE LgGo(i - 1) \o "x" IN At("abcdefgh", j) \o LgGo(w - 3)    \* w characters with its quotes
LaidPlan(n, sps) ==
  LET w == WhatOf(n)
  IN <<Make(n, <<"built">>), Sql(w, 1, "compact", 4, 0, <<"laid">>)>>
     \o [i \in 1..Len(sps) |-> Sql(w, 1, "pretty", sps[i], 0, <<"laid">>)]
     \o <<Parse0(w, Render(w, n, Styles[4]), <<>>), Sql(w, 2 + Len(sps) + 1, "pretty", sps[1], 3, <<"again">>)>>
(* widths of the items of a list *)
WrapTexts == {<<20, 20, x>> : x \in {28, 29, 30, 33, 34, 35, 36, 37, 38, 39, 40}} \cup {<<x, 5, 5>> : x \in {63, 64, 65, 66, 67, 68, 75, 76, 77, 78, 79, 80, 81, 90}}
             \cup {<<40, 40, x, 9>> : x \in {25, 26, 27, 34, 35, 36, 37, 38, 39}} \cup {<<x>> : x \in {76, 77, 90}} \cup {<<10, 90, 10>>, <<5, 5, 80, 5>>, <<26, 26, 26, 26, 26, 26>>}
WrapTexts1 == {<<20, 20, x>> : x \in {34, 35, 37, 38}} \cup {<<x, 5, 5>> : x \in {64, 65, 70, 71, 90}} \cup {<<40, 40, x, 9>> : x \in {25, 26, 34, 35}} \cup {<<90>>, <<26, 26, 26, 26, 26, 26>>}
WrapNames(ws) == [j \in 1..Len(ws) |-> LongName(ws[j], j)]
WrapFields(ws) == [j \in 1..Len(ws) |-> N("Field", <<LongName(ws[j], j)>>, <<>>)]
WrapOrders(ws) == [j \in 1..Len(ws) |-> N("Order", <<"ASC", "LAST">>, <<WrapFields(ws)[j]>>)]
SelOf(sel, from) == SelX("ALL", "", "", <<>>, <<>>, sel, from, None, None, None, <<>>)
WrapHosts(ws) ==
  LET fs == WrapFields(ws)  ns == WrapNames(ws)  os == WrapOrders(ws)  one == F(0, 1)
      q == SelOf(fs, None)
      in(x) == SelX("ALL", "", "", <<>>, <<>>, <<x>>, Tab(0, 1), None, None, None, <<>>)
      win(w) == FnX("SUM", "RESPECT", <<one>>, <<>>, None, w)
  IN {q, SelOf(fs, Tab(0, 1)), SelX("DISTINCT", "", "", <<>>, os, fs, Tab(0, 1), None, None, None, <<>>),
      SelX("ALL", "", "", <<>>, <<>>, <<one>>, Tab(0, 1), None, GB("DISTINCT", <<N("Cube", <<>>, fs), GS(fs), N("Rollup", <<>>, fs)>>), one, <<>>),
      SelX("ALL", "", "", <<>>, <<>>, <<one>>, Tab(0, 1), None, GB("ALL", [j \in 1..Len(fs) |-> GS(<<fs[j]>>)]), None, <<>>),
      SelX("ALL", "", "", [j \in 1..Len(ns) |-> ARelN(ns[j], <<>>, SelT(0, 2))], <<>>, <<one>>, None, None, None, None, <<>>),
      SelX("ALL", "", "", <<ARelN("n", ns, q)>>, <<>>, <<one>>, ARelN("m", ns, q), None, None, None, [j \in 1..Len(ns) |-> N("WinDef", <<ns[j]>>, <<DefaultWindow("")>>)]),
      SelOf(<<one>>, JoinX("LEFT", "", Tab(0, 1), Tab(0, 2), N("Using", ns, <<>>))), SelOf(<<one>>, N("Unnest", <<"ORD">>, fs)),
      SelOf(<<N("AStar", ns, <<N("Star", <<"t">>, <<>>)>>)>>, Tab(0, 1)), [Vals(fs) EXCEPT !.c[2] = List(os)],
      in(win(Win("", "ROWS", fs, os, Cur, UnbF))), in(win(Win(ns[1], "RANGE", fs, <<>>, UnbP, Cur))), in(FnX("ARRAY_AGG", "RESPECT", <<fs[1]>>, os, one, DefWin)),
      in(Fn("COALESCE", fs \o <<one>>)), in(N("Array", <<>>, fs)), in(N("Row", <<>>, fs)), in(N("InList", <<>>, <<one>> \o fs)), in(N("Not", <<>>, <<N("InQuery", <<>>, <<one, q>>)>>)),
      in(N("Lambda", ns, <<one>>)), in(N("ListAgg", <<"sep", "TRUNCATE", "f", "WITH COUNT">>, <<fs[1], List(os)>>)), in(q), in(N("Case", <<>>, <<None, None, N("When", <<>>, <<N("And", <<>>, <<one, N("InList", <<>>, <<one>> \o fs)>>), q>>)>>)),
      N("Union", <<"ALL", "", "">>, <<List(<<>>), List(os), q, q>>)}
WrapTrees(wss) == UNION {WrapHosts(ws) : ws \in wss}

(* the tree with longer names: how long depends on the name *)
RECURSIVE LgLength(_, _)
LgLength(s, r) == IF s = "" THEN r ELSE LgLength(SubSeq(s, 1, Len(s) - 1), Rnd((r % 1000003) + 7 * Len(s) + (IF At(s, Len(s)) \in DigitSet THEN NatOf(At(s, Len(s))) ELSE 11)))
Longer(s, r) == LET k == (LgLength(s, r) \div 64) % 32 IN IF k > 20 THEN s ELSE s \o LongName(k + 3, 1 + (k % 8))
RECURSIVE Lengthened(_, _)
Lengthened(n, r) == [n EXCEPT !.a = [i \in 1..Len(n.a) |-> IF i \in NameAttrs(n) THEN Longer(n.a[i], r) ELSE n.a[i]], !.c = [i \in 1..Len(n.c) |-> Lengthened(n.c[i], r)]]
===============================================================================
