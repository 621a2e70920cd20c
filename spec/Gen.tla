--------------------------------- MODULE Gen ---------------------------------
(* Behaviours of System to run on the library, for one property.  Each emitted     *)
(* line is a sequence of calls, with the clauses that every one of them is held to. *)
EXTENDS Walk, Calls, Families, Equality, Session, Typing, Scoping, Layouts, Near, Trino, Big
PLAN == IOEnv.PLAN
ROOT == IOEnv.ROOT
EDITS == ToNat(IOEnv.EDITS)

Styled(n, k) == Render(WhatOf(n), n, Styles[k])
(* a style that varies from tree to tree *)
Vary(n) == 2 + ((Size(n) * 5 + st_depth + Len(Show(n))) % (Len(Styles) - 1))

TextPlan(w, t) == <<Parse0(w, t, <<"tree">>), Sql(w, 1, "compact", 4, 0, <<"reads">>), Sql(w, 1, "pretty", 4, 0, <<"reads">>)>>
(* texts one edit away *)
Spaced(ts) == IF ts = <<>> THEN "" ELSE FoldLeft(LAMBDA a, b : a \o " " \o b, ts[1], Tail(ts))
Cut(ts, i) == SubSeq(ts, 1, i - 1) \o SubSeq(ts, i + 1, Len(ts))
Ins(ts, i, t) == SubSeq(ts, 1, i - 1) \o <<t>> \o SubSeq(ts, i, Len(ts))
Rep(ts, i, t) == [ts EXCEPT ![i] = t]
Swap(ts, i) == [ts EXCEPT ![i] = ts[i + 1], ![i + 1] = ts[i]]
Edits(ts) == [i \in 1..Len(ts) |-> Cut(ts, i)] \o [i \in 1..Len(ts) |-> Ins(ts, i, ts[i])]
             \o [i \in 1..(Len(ts) - 1) |-> Swap(ts, i)] \o [i \in 1..(Len(ts) - 1) |-> SubSeq(ts, 1, i)]
             \o [i \in 1..(Len(ts) - 1) |-> Cut(Cut(ts, i), i)]
Vocabulary == TLCEval(SetToSeq(KwDom)) \o <<"(", ")", "[", "]", ",", ".", ";", "=", "<>", "!=", "<", "<=", ">", ">=", "+", "-", "*", "/", "%", "||", "->", "=>", "?", ":",
  "(", ")", ",", ".", "NOT", "AND", "AS", "(", ")", "*", "x", "y", "\"q r\"", "1", "2.5", "3E1", "'s'", "U&'\\0041'", "x", "NULL", "SELECT", "FROM", "()", "(x)", "( SELECT 1 )", "ORDER BY", "IS NOT NULL", "IN ( 1 )",
  "CURRENT ROW", "NULLS FIRST", "GROUP BY", "WITH", "OVER", "BETWEEN", "LIMIT 1", "AS x", "JOIN y ON z", "UNION", "PARTITION BY x", "-- x\n", "/* x */", "f(", "sum(x)", "x.y", "x.*", "DATE", "INTERVAL", "ROW", "ARRAY [", "CASE WHEN", "THEN x", "END">>
RECURSIVE RandEdit(_, _, _)
RandEdit(ts, k, s) ==           \* k pseudo-random edits
  IF k = 0 \/ ts = <<>> THEN ts
  ELSE LET r1 == Rnd(s)  r2 == Rnd(r1)  r3 == Rnd(r2)  r4 == Rnd(r3)
           i == Pick(r1, Len(ts))
           t == IF Pick(r4, 3) = 1 THEN ts[Pick(r2, Len(ts))] ELSE Vocabulary[Pick(r2, Len(Vocabulary))]
       IN RandEdit(CASE Pick(r3, 5) \in {1, 2} -> Rep(ts, i, t) [] Pick(r3, 5) \in {3, 4} -> Ins(ts, i, t) [] OTHER -> Cut(ts, i), k - 1, Rnd(r4))
EditSeed(n, j) == Rnd(Rnd(1 + ((((SEED * 31337) % 1000003) + Len(Show(n)) * 7841 + Size(n) * 10729 + ((j * 15485) % 1000003) + (st_seed % 1000003)) % 2147483000)))
RandEdits(n, ts) == [j \in 1..EDITS |-> RandEdit(ts, 1 + (j % 3), EditSeed(n, j))]
Probe(w, tss) == [i \in 1..Len(tss) |-> Parse0(w, Spaced(tss[i]), <<"tree">>)]

Plan(n) ==
  LET w == WhatOf(n)
  IN CASE n.k = "Text" -> TextPlan(n.a[1], n.a[2])
    [] PLAN = "parse" -> <<Parse0(w, Styled(n, 1), <<"tree">>), Parse0(w, Styled(n, Vary(n)), <<"tree">>)>>
    [] PLAN = "parseall" -> [k \in 1..Len(Styles) |-> Parse0(w, Styled(n, k), <<"tree">>)]
    [] PLAN = "print" -> <<Make(n, <<"built">>), Sql(w, 1, "compact", 4, 0, <<"reads">>), Sql(w, 1, "pretty", 4, 0, <<"reads">>)>>
    [] PLAN = "format" -> <<Load(w, Styled(n, 1)), Sql(w, 1, "pretty", 4, 0, <<>>), Reparse(w, 1, 2, <<"fix">>), Sql(w, 3, "pretty", 4, 2, <<"same">>),
                       Sql(w, 1, "compact", 4, 0, <<>>), Reparse(w, 1, 5, <<"fix">>), Sql(w, 6, "compact", 4, 5, <<"same">>)>>
    [] PLAN = "cli" -> <<Load(w, Styled(n, 1)), Sql(w, 1, "pretty", 4, 0, <<>>), [E0 EXCEPT !.op = "cli", !.what = w, !.text = Styled(n, 1), !.o = 1, !.ref = 2, !.cl = <<"same">>],
                         [E0 EXCEPT !.op = "cli", !.what = w, !.o = 3, !.ref = 2, !.cl = <<"same">>], [E0 EXCEPT !.op = "cli", !.what = w, !.text = Styled(n, Vary(n)), !.o = 1, !.ref = 2, !.cl = <<"same">>]>>
    [] PLAN = "show" -> LET t == Styled(n, Vary(n)) IN <<Load(w, t), [E0 EXCEPT !.op = "shown", !.what = w, !.o = 1, !.text = t, !.cl = <<"shown">>],
                                                        [E0 EXCEPT !.op = "antlr", !.what = w, !.o = 1, !.text = t, !.cl = <<"leaves">>]>>
    [] PLAN = "options" -> <<Make(n, <<>>), Sql(w, 1, "compact", 4, 0, <<>>), Sql(w, 1, "pretty", 4, 2, <<"tokens">>), Sql(w, 1, "pretty", 1, 2, <<"tokens">>),
                         Sql(w, 1, "pretty", 7, 2, <<"tokens">>), Sql(w, 1, "pretty", 0, 2, <<"tokens">>), Sql(w, 1, "compact", 9, 2, <<"tokens">>)>>
    [] PLAN = "both" -> <<Parse0(w, Styled(n, 1), <<"tree">>), Parse0(w, Styled(n, Vary(n)), <<"tree">>),
                        Make(n, <<"built">>), Sql(w, 3, "compact", 4, 0, <<"reads">>), Sql(w, 3, "pretty", 4, 0, <<"reads">>)>>
    [] PLAN = "nearp" -> NearTexts(w, Styled(n, 1), Styled(n, Vary(n)))
    [] PLAN = "nears" -> NearPrints(n, w)
    [] PLAN = "edit" -> Probe(w, Edits(TLCEval(Raw(Styled(n, 1)))))
    [] PLAN = "redit" -> Probe(w, RandEdits(n, TLCEval(Raw(Styled(n, 1)))))
    [] PLAN = "valid" -> <<Make(n, <<"valid">>), Make(n, <<"valid">>)>>
    [] PLAN = "visit" -> <<Make(n, <<"built">>), Visit(1), Again(w, 1, "compact", 4), Visit(1), Again(w, 1, "compact", 4)>>
    [] PLAN = "pyop" -> <<Make(F(0, 1), <<>>), Make(N("Add", <<>>, <<F(0, 2), IntL("2")>>), <<>>), Make(N("Eq", <<>>, <<F(0, 3), Strl("s")>>), <<>>),
                          PyOp(n, <<"spelled">>), [PyOp(n, <<"spelled">>) EXCEPT !.what = "again"], Sql("expr", 4, "compact", 4, 0, <<"reads">>)>>
    [] PLAN = "equals" -> EqualsPlan(n, FALSE)
    [] PLAN = "equalsall" -> EqualsPlan(n, TRUE)
    [] PLAN = "session" -> LET ts == TLCEval(Raw(Styled(n, 1))) IN SessionPlan(n, Styled(n, Vary(n)), Spaced(RandEdit(ts, 1, EditSeed(n, 3))), EditSeed(n, 5))
    [] PLAN = "super" -> SuperPlan(n)
    [] PLAN = "reduce" -> ReducePlan(n, EditSeed(n, 2), 20)
    [] PLAN = "reduces" -> ReducePlan(n, EditSeed(n, 2), 200)
    [] PLAN = "dtype" -> DtypePlan(n, EditSeed(n, 4), 6)
    [] PLAN = "dtypes" -> DtypePlan(n, EditSeed(n, 4), 40)
    [] PLAN = "pairs" -> PairPlan(n)
    [] PLAN = "fns" -> FnPlan(n)
    [] PLAN = "scopes" -> ScopesPlan(n, EditSeed(n, 6), 4)
    [] PLAN = "clischema" -> CliPlan(n, EditSeed(n, 7), 2)
    [] PLAN = "froms" -> FromPlan(n)
    [] PLAN = "quals" -> QualPlan(n)
    [] PLAN = "scope" -> <<Make(n, <<>>), ScopeE(1, Schemas[1]), Make(n, <<>>), ScopeE(2, Schemas[2]), Make(n, <<>>), ScopeE(3, Schemas[6])>>
    [] PLAN = "layout" -> LaidPlan(n, <<4, 1, 11>>)
    [] PLAN = "layouts" -> LaidPlan(Lengthened(n, EditSeed(n, 8)), <<4, 0, 30>>)
    [] PLAN = "literal" -> <<MadeE(n), TypedE(1), PyOp(N("Neg", <<>>, <<PyRef(1)>>), <<>>), TypedE(2)>>
    [] OTHER -> <<>>
(* histories in which everything the caller holds is looked at after every call *)
Watched == PLAN \in {"pyop", "visit", "session"}
Emit == (Final /\ (st_tree.k = "Text" \/ WF(st_tree))) => PrintT("SCN " \o ToJson([ev |-> Plan(IF PLAN \in {"froms", "quals"} THEN st_tree ELSE TLCEval(Whole1(st_tree))), snap |-> Watched]))
InSeq(q) == {q[i] : i \in 1..Len(q)}
TypeFamily(name) == CASE name = "alltypes" -> AllTys [] name = "tabletypes" -> InSeq(TableTys) [] name = "typedlits" -> TypedTextLits [] name = "froms1" -> InSeq(Froms1) [] name = "quals" -> QualRefs [] name = "crosses" -> JoinsBy({1}) [] name = "usings" -> JoinsBy({2, 3}) [] name = "joins" -> JoinsBy({4, 5}) [] name = "setsof" -> SetsOf [] name = "wraps" -> WrapTrees(WrapTexts) [] name = "wraps1" -> WrapTrees(WrapTexts1) [] OTHER -> {}
Start3 == <<"query", "expr", "query", "expr", "query", "type">>
TrinoFamily(name) == CASE name = "alts" -> AltTexts(0) [] name = "places" -> PlaceTexts(0) [] OTHER -> {DeriveText(Start3[1 + (i % 6)], 3 + (i % STEPS), SeedOf(i)) : i \in 1..WALKS}
TypedRoots == {"wraps", "wraps1", "quals", "froms1", "crosses", "usings", "joins", "setsof", "alltypes", "tabletypes", "typedlits"}
AnyFamily(name) == IF name \in TypedRoots THEN TypeFamily(name) ELSE IF name \in NearNames THEN NearOf(name) ELSE IF name \in BigNames THEN BigOf(name) ELSE IF name \in {"alts", "places", "derived"} THEN TrinoFamily(name) ELSE Family(name)
AnyNames == TypedRoots \cup NearNames \cup BigNames \cup {"alts", "places", "derived"} \cup FamilyNames
(* one sort of trees, or families, a comma between them *)
Roots == SplitC(ROOT, 1, "")
Init == IF Roots \subseteq AnyNames THEN st_seed = 0 /\ st_depth = 0 /\ \E r \in Roots : st_tree \in AnyFamily(r) ELSE WInit(ROOT)
Next == WNext
=============================================================================
