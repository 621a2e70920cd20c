-------------------------------- MODULE Calls --------------------------------
(* The calls a caller makes, as events to be run.  cl: the clauses of System that  *)
(* the call is held to.                                                            *)
EXTENDS Render

(* what stands alone in SQL: other nodes are put into a query *)
F1 == N("Field", <<"a0">>, <<>>)
T1 == N("Table", <<"ta0">>, <<>>)
Sel0(order, sel, from, group, wins) ==
  N("Select", <<"ALL", "", "">>, <<List(<<>>), List(order), List(sel), from, None, group, None, List(wins)>>)
StarN == N("Star", <<>>, <<>>)
Whole1(n) ==
  CASE n.k \in QueryKinds \cup {"Type", "Text"} -> n
    [] n.k \in RelKinds -> Sel0(<<>>, <<StarN>>, n, None, <<>>)
    [] n.k = "Order" -> Sel0(<<n>>, <<StarN>>, T1, None, <<>>)
    [] n.k = "Window" -> Sel0(<<>>, <<N("Fn", <<"SUM", "RESPECT">>, <<List(<<F1>>), List(<<>>), None, n>>)>>, T1, None,
                              <<N("WinDef", <<"w">>, <<DefaultWindow("")>>)>>)
    [] n.k = "WinDef" -> Sel0(<<>>, <<StarN>>, T1, None, <<n>>)
    [] n.k \in {"GSet", "GSets", "Cube", "Rollup"} -> Sel0(<<>>, <<StarN>>, T1, N("GroupBy", <<"ALL">>, <<n>>), <<>>)
    [] n.k = "GroupBy" -> Sel0(<<>>, <<StarN>>, T1, n, <<>>)
    [] n.k \in {"As", "AStar", "Star"} -> Sel0(<<>>, <<n>>, T1, None, <<>>)
    [] OTHER -> n

E0 == [op |-> "", cl |-> <<>>, what |-> "", text |-> "", o |-> 0, ref |-> 0, mode |-> "", sp |-> 4, ok |-> FALSE, b |-> "", tree |-> None, n |-> None, log |-> <<>>, snap |-> <<>>]
Parse0(what, t, cl) == [E0 EXCEPT !.op = "parse", !.what = what, !.text = t, !.cl = cl]
Load(what, t) == [E0 EXCEPT !.op = "load", !.what = what, !.text = t]
Make(n, cl) == [E0 EXCEPT !.op = "build", !.what = WhatOf(n), !.tree = n, !.cl = cl]
Sql(what, o, mode, sp, ref, cl) == [E0 EXCEPT !.op = "sql", !.what = what, !.o = o, !.mode = mode, !.sp = sp, !.ref = ref, !.cl = cl]
Reparse(what, o, ref, cl) == [E0 EXCEPT !.op = "reparse", !.what = what, !.o = o, !.ref = ref, !.cl = cl]
Cli(o, ref, cl) == [E0 EXCEPT !.op = "cli", !.what = "query", !.o = o, !.ref = ref, !.cl = cl]
Visit(o) == [E0 EXCEPT !.op = "visit", !.o = o, !.cl = <<"visits">>]
PyOp(n, cl) == [E0 EXCEPT !.op = "pyop", !.tree = n, !.cl = cl]
StrOf(what, o) == [E0 EXCEPT !.op = "str", !.what = what, !.o = o, !.mode = "compact", !.cl = <<"again">>]
Again(what, o, mode, sp) == Sql(what, o, mode, sp, 0, <<"again">>)
Poke(o) == [E0 EXCEPT !.op = "poke", !.o = o]
=============================================================================
