------------------------------ MODULE Templates ------------------------------
(* The building blocks of trees.  Every node kind, with every choice of its      *)
(* attributes and optional parts that matters, appears as a template: a small    *)
(* tree whose operands are distinct leaves.  A tree of any shape is obtained by  *)
(* putting templates in the slots of templates.                                  *)
(* Sorts: "x" expression, "sel" select item, "q" query, "r" relation, "ty" type, *)
(* "o" sort item, "w" window, "g" grouping element, "gs" grouping set,           *)
(* "cte" named query, "wd" window definition, "b" frame bound, "c" join          *)
(* criterion, "tab" table name, "" not replaceable.                              *)
EXTENDS Ast, Catalogue, SequencesExt

(* leaf i of depth d *)
Letters == <<"a", "b", "c", "d", "e", "f", "g", "h">>
Nm(d, i) == Letters[i] \o ToString(d)
F(d, i) == N("Field", <<Nm(d, i)>>, <<>>)
IntL(s) == N("Lit", <<"int", "", s>>, <<>>)
Strl(s) == N("Lit", <<"str", s>>, <<>>)
X0(k, a) == N(k, a, <<>>)
X1(k, d) == N(k, <<>>, <<F(d, 1)>>)
X2(k, d) == N(k, <<>>, <<F(d, 1), F(d, 2)>>)
X3(k, d) == N(k, <<>>, <<F(d, 1), F(d, 2), F(d, 3)>>)
Ty(name, a) == N("Type", <<name>> \o a, <<>>)
Fn(name, args) == N("Fn", <<name, "RESPECT">>, <<List(args), List(<<>>), None, None>>)
FnX(name, nulls, args, order, filter, win) ==
  N("Fn", <<name, nulls>>, <<List(args), List(order), filter, win>>)
Ord(d, i) == N("Order", <<"ASC", "LAST">>, <<F(d, i)>>)
OrdX(d, i, dir, nulls) == N("Order", <<dir, nulls>>, <<F(d, i)>>)
UnbP == N("BUnb", <<"PRECEDING">>, <<>>)
UnbF == N("BUnb", <<"FOLLOWING">>, <<>>)
Cur == N("BCur", <<>>, <<>>)
Off(dir, x) == N("BOff", <<dir>>, <<x>>)
Win(parent, unit, part, order, s, e) ==
  N("Window", <<parent, unit>>, <<List(part), List(order), s, e>>)
Tab(d, i) == N("Table", <<"t" \o Nm(d, i)>>, <<>>)
SelX(quant, off, lim, with, order, sel, from, where, group, having, wins) ==
  N("Select", <<quant, off, lim>>,
    <<List(with), List(order), List(sel), from, where, group, having, List(wins)>>)
Sel1(d, i) == SelX("ALL", "", "", <<>>, <<>>, <<F(d, i)>>, None, None, None, None, <<>>)
SelT(d, i) == SelX("ALL", "", "", <<>>, <<>>, <<F(d, i)>>, Tab(d, i), None, None, None, <<>>)
TabQ(d, i) == N("TableQ", <<"", "", "">>, <<List(<<>>), List(<<>>), Tab(d, i)>>)
Vals(xs) == N("Values", <<"", "", "">>, <<List(<<>>), List(<<>>), List(xs)>>)
SetX(k, quant, off, lim, order, l, r) == N(k, <<quant, off, lim>>, <<List(<<>>), List(order), l, r>>)
Set2(k, quant, d) == SetX(k, quant, "", "", <<>>, Sel1(d, 1), Sel1(d, 2))
GB(quant, gs) == N("GroupBy", <<quant>>, gs)
GS(xs) == N("GSet", <<>>, xs)
ARelN(alias, cols, r) == N("ARel", <<alias>> \o cols, <<r>>)
JoinX(ty, nat, l, r, c) == N("Join", <<ty, nat>>, <<l, r, c>>)

(* ------------------------------------------------------------- expressions *)
XLits(d) == <<
  IntL("1"), N("Lit", <<"int", "-", "5">>, <<>>), N("Lit", <<"dec", "", "150", "2">>, <<>>),
  N("Lit", <<"dec", "-", "5", "1">>, <<>>), N("Lit", <<"dbl", "", "15", "7">>, <<>>),
  N("Lit", <<"dbl", "-", "1", "-9">>, <<>>), Strl("s"), Strl("it's"), N("Lit", <<"null">>, <<>>),
  N("Lit", <<"bool", "TRUE">>, <<>>), N("Lit", <<"bool", "FALSE">>, <<>>) >>
XNames(d) == <<
  F(d, 1), N("Field", <<Nm(d, 1), "t" \o Nm(d, 2)>>, <<>>),
  N("Field", <<Nm(d, 1)>>, <<X2("Subscript", d)>>), N("Field", <<Nm(d, 1)>>, <<Fn("LOWER", <<F(d, 2)>>)>>) >>
XUnary(d) == << X1("Pos", d), X1("Neg", d), X1("Not", d), X1("IsNull", d),
               N("Not", <<>>, <<X1("IsNull", d)>>) >>
ArithSeq == <<"Add", "Sub", "Mul", "Div", "Mod">>
CmpSeq == <<"Eq", "Ne", "Lt", "Le", "Gt", "Ge">>
XArith(d) == [i \in 1..5 |-> X2(ArithSeq[i], d)]
XCmp(d) == [i \in 1..6 |-> X2(CmpSeq[i], d)] \o <<X2("Distinct", d), N("Not", <<>>, <<X2("Distinct", d)>>),
             N("Not", <<>>, <<X2("Eq", d)>>)>>
XBool(d) == <<X2("And", d), X2("Or", d)>>
XPred(d) == <<
  X3("Between", d), N("Not", <<>>, <<X3("Between", d)>>), X3("InList", d), X2("InList", d),
  N("Not", <<>>, <<X3("InList", d)>>), N("InQuery", <<>>, <<F(d, 1), Sel1(d, 2)>>),
  N("Not", <<>>, <<N("InQuery", <<>>, <<F(d, 1), SelT(d, 2)>>)>>),
  N("Like", <<>>, <<F(d, 1), F(d, 2), None>>), X3("Like", d),
  N("Not", <<>>, <<N("Like", <<>>, <<F(d, 1), Strl("a%"), None>>)>>) >>
XMake(d) == <<
  X2("Array", d), X1("Array", d), X2("Row", d), X1("Row", d), X2("Subscript", d),
  N("TypeCons", <<"DATE", "2020-01-01">>, <<>>), N("TypeCons", <<"TIMESTAMP", "2020-01-01 10:00:00.123">>, <<>>),
  N("TypeCons", <<"DECIMAL", "1.50">>, <<>>), N("TypeCons", <<"DOUBLE", "1">>, <<>>),
  N("TypeCons", <<"VARCHAR", "it's">>, <<>>), N("TypeCons", <<"CHAR", "ab">>, <<>>), N("TypeCons", <<"JSON", "{}">>, <<>>),
  N("TypeCons", <<"TIME", "10:00:00">>, <<>>), N("TypeCons", <<"BIGINT", "7">>, <<>>),
  N("Interval", <<"3", "DAY", "">>, <<>>), N("Interval", <<"-1-2", "YEAR", "MONTH">>, <<>>),
  N("Interval", <<"-4", "SECOND", "">>, <<>>), N("Interval", <<"1 2:3", "DAY", "MINUTE">>, <<>>),
  N("Cast", <<>>, <<F(d, 1), Ty("BIGINT", <<>>)>>), N("TryCast", <<>>, <<F(d, 1), Ty("DECIMAL", <<"10", "2">>)>>),
  SelT(d, 1), Vals(<<F(d, 1)>>) >>
When(d, i, j) == N("When", <<>>, <<F(d, i), F(d, j)>>)
XCase(d) == <<
  N("Case", <<>>, <<None, None, When(d, 1, 2)>>), N("Case", <<>>, <<None, F(d, 3), When(d, 1, 2)>>),
  N("Case", <<>>, <<F(d, 5), None, When(d, 1, 2)>>), N("Case", <<>>, <<F(d, 5), F(d, 6), When(d, 1, 2), When(d, 3, 4)>>) >>
XLambda(d) == <<
  Fn("TRY", <<N("Lambda", <<"x" \o ToString(d)>>, <<N("Add", <<>>, <<N("Var", <<"x" \o ToString(d)>>, <<>>), F(d, 1)>>)>>)>>),
  N("Lambda", <<"x" \o ToString(d), "y" \o ToString(d)>>, <<N("Mul", <<>>, <<N("Var", <<"x" \o ToString(d)>>, <<>>), N("Var", <<"y" \o ToString(d)>>, <<>>)>>)>>),
  N("Lambda", <<>>, <<F(d, 1)>>) >>
XScalar(d) == <<
  Fn("COALESCE", <<F(d, 1), F(d, 2)>>), Fn("CONCAT", <<F(d, 1), F(d, 2)>>), Fn("CONCAT", <<F(d, 1), F(d, 2), F(d, 3)>>),
  Fn("IF", <<F(d, 1), F(d, 2)>>), Fn("IF", <<F(d, 1), F(d, 2), F(d, 3)>>), Fn("NULLIF", <<F(d, 1), F(d, 2)>>),
  Fn("LENGTH", <<F(d, 1)>>), Fn("DATE_DIFF", <<Strl("day"), F(d, 1), F(d, 2)>>), Fn("NOW", <<>>),
  N("Normalize", <<>>, <<F(d, 1)>>), N("Normalize", <<"NFKD">>, <<F(d, 1)>>),
  N("DtFn", <<"CURRENT_DATE">>, <<>>), N("DtFn", <<"CURRENT_TIMESTAMP", "6">>, <<>>), N("DtFn", <<"LOCALTIME", "3">>, <<>>),
  N("Sess", <<"CURRENT_USER">>, <<>>) >>
DefWin == DefaultWindow("w")
XAgg(d) == <<
  Fn("SUM", <<F(d, 1)>>), Fn("COUNT", <<N("Star", <<>>, <<>>)>>), Fn("COUNT", <<F(d, 1)>>),
  FnX("ARRAY_AGG", "RESPECT", <<F(d, 1)>>, <<OrdX(d, 2, "DESC", "FIRST"), Ord(d, 3)>>, None, None),
  FnX("MAX_BY", "RESPECT", <<F(d, 1), F(d, 2), F(d, 3)>>, <<>>, X2("Gt", d), None),
  FnX("AVG", "RESPECT", <<F(d, 1)>>, <<>>, None, DefWin),
  FnX("MIN", "IGNORE", <<F(d, 1)>>, <<>>, None, Win("", "RANGE", <<F(d, 2)>>, <<Ord(d, 3)>>, UnbP, Cur)),
  FnX("SUM", "RESPECT", <<F(d, 1)>>, <<Ord(d, 4)>>, F(d, 5), Win("w", "ROWS", <<>>, <<OrdX(d, 3, "DESC", "LAST")>>, Off("PRECEDING", F(d, 6)), Off("FOLLOWING", F(d, 7)))),
  FnX("MAX", "IGNORE", <<F(d, 1)>>, <<>>, F(d, 2), Win("", "GROUPS", <<F(d, 3), F(d, 4)>>, <<>>, Cur, UnbF)),
  N("ListAgg", <<",", "ERROR">>, <<F(d, 1), List(<<Ord(d, 2)>>)>>),
  N("ListAgg", <<"", "TRUNCATE", "it's", "WITH COUNT">>, <<F(d, 1), List(<<Ord(d, 2), OrdX(d, 3, "DESC", "FIRST")>>)>>),
  N("ListAgg", <<";", "TRUNCATE", "...", "WITHOUT COUNT">>, <<F(d, 1), List(<<Ord(d, 2)>>)>>) >>

(* ----------------------------------------------------------------- windows *)
WBounds(d) == <<
  Win("", "RANGE", <<>>, <<>>, UnbP, Cur), Win("", "ROWS", <<F(d, 1)>>, <<Ord(d, 2)>>, UnbP, UnbF),
  Win("", "ROWS", <<>>, <<Ord(d, 1)>>, Off("PRECEDING", IntL("2")), Cur),
  Win("", "ROWS", <<>>, <<Ord(d, 1)>>, Cur, Off("FOLLOWING", IntL("3"))),
  Win("", "RANGE", <<>>, <<Ord(d, 1)>>, Off("PRECEDING", F(d, 2)), Off("PRECEDING", F(d, 3))),
  Win("", "GROUPS", <<F(d, 4)>>, <<Ord(d, 1), OrdX(d, 2, "DESC", "FIRST")>>, Off("FOLLOWING", F(d, 2)), Off("FOLLOWING", F(d, 3))),
  Win("", "RANGE", <<F(d, 1), F(d, 2)>>, <<>>, Cur, Cur),
  Win("w", "RANGE", <<>>, <<Ord(d, 1)>>, UnbP, Cur), Win("w", "ROWS", <<F(d, 1)>>, <<>>, UnbP, Cur),
  Win("w", "RANGE", <<>>, <<>>, UnbP, UnbF) >>

(* ----------------------------------------------------------------- queries *)
Star0 == N("Star", <<>>, <<>>)
QSelect(d) == <<
  Sel1(d, 1), SelT(d, 1),
  SelX("DISTINCT", "", "", <<>>, <<>>, <<F(d, 1), F(d, 2)>>, Tab(d, 1), None, None, None, <<>>),
  SelX("ALL", "", "", <<>>, <<>>, <<Star0>>, Tab(d, 1), F(d, 2), None, None, <<>>),
  SelX("ALL", "", "", <<>>, <<Ord(d, 2), OrdX(d, 3, "DESC", "FIRST")>>, <<F(d, 1)>>, Tab(d, 1), None, None, None, <<>>),
  SelX("ALL", "0", "", <<>>, <<>>, <<F(d, 1)>>, Tab(d, 1), None, None, None, <<>>),
  SelX("ALL", "", "0", <<>>, <<>>, <<F(d, 1)>>, Tab(d, 1), None, None, None, <<>>),
  SelX("ALL", "2", "10", <<>>, <<OrdX(d, 2, "ASC", "FIRST")>>, <<F(d, 1)>>, Tab(d, 1), None, None, None, <<>>),
  SelX("ALL", "", "", <<>>, <<>>, <<F(d, 1)>>, Tab(d, 1), None, GB("ALL", <<GS(<<F(d, 2)>>), GS(<<F(d, 3), F(d, 4)>>)>>), None, <<>>),
  SelX("ALL", "", "", <<>>, <<>>, <<F(d, 1)>>, Tab(d, 1), None, GB("DISTINCT", <<N("Rollup", <<>>, <<F(d, 2), F(d, 3)>>), N("Cube", <<>>, <<F(d, 4)>>)>>), F(d, 5), <<>>),
  SelX("ALL", "", "", <<>>, <<>>, <<F(d, 1)>>, Tab(d, 1), F(d, 6), GB("ALL", <<N("GSets", <<>>, <<GS(<<F(d, 2)>>), GS(<<F(d, 3), F(d, 4)>>), GS(<<>>)>>)>>), None, <<>>),
  SelX("ALL", "", "", <<>>, <<>>, <<FnX("SUM", "RESPECT", <<F(d, 1)>>, <<>>, None, DefWin)>>, Tab(d, 1), None, None, None,
       <<N("WinDef", <<"w">>, <<Win("", "ROWS", <<F(d, 2)>>, <<Ord(d, 3)>>, UnbP, Cur)>>), N("WinDef", <<"w2">>, <<Win("w", "RANGE", <<>>, <<>>, UnbP, Cur)>>)>>),
  SelX("ALL", "", "", <<ARelN("n" \o Nm(d, 1), <<>>, SelT(d, 2))>>, <<>>, <<F(d, 1)>>, Tab(d, 1), None, None, None, <<>>),
  SelX("DISTINCT", "1", "3", <<ARelN("n" \o Nm(d, 1), <<"k" \o Nm(d, 1), "k" \o Nm(d, 2)>>, SelT(d, 2)), ARelN("n" \o Nm(d, 2), <<>>, Vals(<<F(d, 3)>>))>>,
       <<Ord(d, 8)>>, <<N("As", <<"k" \o Nm(d, 3)>>, <<F(d, 1)>>), F(d, 2)>>, ARelN("r" \o Nm(d, 1), <<>>, Tab(d, 1)), F(d, 5), GB("ALL", <<GS(<<F(d, 6)>>)>>), F(d, 7),
       <<N("WinDef", <<"w">>, <<Win("", "RANGE", <<>>, <<>>, UnbP, Cur)>>)>>) >>
QOther(d) == <<
  TabQ(d, 1), [TabQ(d, 1) EXCEPT !.a = <<"", "1", "2">>], [TabQ(d, 1) EXCEPT !.c[2] = List(<<Ord(d, 2)>>)],
  N("TableQ", <<"", "", "">>, <<List(<<>>), List(<<>>), N("Table", <<"cat" \o Nm(d, 1), "sch" \o Nm(d, 2), "tab" \o Nm(d, 3)>>, <<>>)>>),
  Vals(<<F(d, 1), F(d, 2)>>), Vals(<<X2("Row", d)>>), [Vals(<<F(d, 1)>>) EXCEPT !.a = <<"", "", "5">>, !.c[2] = List(<<Ord(d, 2)>>)],
  [Vals(<<F(d, 1)>>) EXCEPT !.c[1] = List(<<ARelN("n" \o Nm(d, 1), <<>>, SelT(d, 2))>>)],
  [TabQ(d, 1) EXCEPT !.c[1] = List(<<ARelN("n" \o Nm(d, 1), <<>>, SelT(d, 2))>>)] >>
QSet(d) == <<
  Set2("Union", "DISTINCT", d), Set2("Union", "ALL", d), Set2("Intersect", "DISTINCT", d), Set2("Except", "DISTINCT", d),
  SetX("Union", "ALL", "1", "7", <<Ord(d, 3)>>, Sel1(d, 1), SelT(d, 2)),
  SetX("Intersect", "DISTINCT", "", "0", <<>>, Sel1(d, 1), Sel1(d, 2)),
  SetX("Except", "DISTINCT", "3", "", <<OrdX(d, 3, "DESC", "FIRST")>>, TabQ(d, 1), Vals(<<F(d, 2)>>)),
  [Set2("Union", "DISTINCT", d) EXCEPT !.c[1] = List(<<ARelN("n" \o Nm(d, 1), <<>>, SelT(d, 3))>>)] >>

(* --------------------------------------------------------------- relations *)
OnC(x) == N("On", <<>>, <<x>>)
RTable(d) == <<
  Tab(d, 1), N("Table", <<"sch" \o Nm(d, 1), "tab" \o Nm(d, 2)>>, <<>>),
  N("Table", <<"cat" \o Nm(d, 1), "sch" \o Nm(d, 2), "tab" \o Nm(d, 3)>>, <<>>),
  ARelN("r" \o Nm(d, 1), <<>>, Tab(d, 2)), ARelN("r" \o Nm(d, 1), <<"k" \o Nm(d, 1), "k" \o Nm(d, 2)>>, Tab(d, 2)) >>
RJoin(d) == <<
  JoinX("INNER", "", Tab(d, 1), Tab(d, 2), OnC(X2("Eq", d))), JoinX("LEFT", "", Tab(d, 1), Tab(d, 2), OnC(F(d, 3))),
  JoinX("RIGHT", "", Tab(d, 1), Tab(d, 2), N("Using", <<Nm(d, 3)>>, <<>>)),
  JoinX("FULL", "", Tab(d, 1), Tab(d, 2), N("Using", <<Nm(d, 3), Nm(d, 4)>>, <<>>)),
  JoinX("CROSS", "", Tab(d, 1), Tab(d, 2), None), JoinX("INNER", "NATURAL", Tab(d, 1), Tab(d, 2), None),
  JoinX("LEFT", "NATURAL", Tab(d, 1), Tab(d, 2), None), JoinX("FULL", "NATURAL", Tab(d, 1), Tab(d, 2), None),
  JoinX("INNER", "", Tab(d, 1), Tab(d, 2), N("Using", <<Nm(d, 3)>>, <<>>)),
  JoinX("FULL", "", Tab(d, 1), Tab(d, 2), OnC(X2("And", d))) >>
ROther(d) == <<
  N("Unnest", <<"">>, <<F(d, 1)>>), N("Unnest", <<"ORD">>, <<F(d, 1), F(d, 2)>>),
  ARelN("r" \o Nm(d, 1), <<"k" \o Nm(d, 1)>>, N("Unnest", <<"ORD">>, <<F(d, 1)>>)),
  N("Lateral", <<>>, <<SelT(d, 1)>>), ARelN("r" \o Nm(d, 1), <<>>, N("Lateral", <<>>, <<Sel1(d, 2)>>)),
  N("Sample", <<"BERNOULLI">>, <<Tab(d, 1), IntL("10")>>), N("Sample", <<"SYSTEM">>, <<ARelN("r" \o Nm(d, 1), <<>>, Tab(d, 1)), F(d, 2)>>),
  ARelN("r" \o Nm(d, 1), <<>>, N("Sample", <<"BERNOULLI">>, <<Tab(d, 1), IntL("10")>>)),
  SelT(d, 1), ARelN("r" \o Nm(d, 1), <<"k" \o Nm(d, 1)>>, SelT(d, 2)), Set2("Union", "ALL", d), Vals(<<F(d, 1)>>) >>

(* ------------------------------------------------------------------- types *)
TyN(name, cs) == N("Type", <<name>>, cs)
TyAll == <<
  Ty("BIGINT", <<>>), Ty("BOOLEAN", <<>>), Ty("DOUBLE", <<>>), Ty("DATE", <<>>), Ty("JSON", <<>>), Ty("UNKNOWN", <<>>),
  Ty("INTEGER", <<>>), Ty("TINYINT", <<>>), Ty("SMALLINT", <<>>), Ty("REAL", <<>>), Ty("VARBINARY", <<>>), Ty("IPADDRESS", <<>>), Ty("UUID", <<>>),
  Ty("HYPERLOGLOG", <<>>), Ty("P4HYPERLOGLOG", <<>>), Ty("TDIGEST", <<>>),
  Ty("DECIMAL", <<"38", "0">>), Ty("DECIMAL", <<"5", "2">>), Ty("DECIMAL", <<"1", "0">>), Ty("DECIMAL", <<"38", "38">>),
  Ty("VARCHAR", <<>>), Ty("VARCHAR", <<"7">>), Ty("VARCHAR", <<"0">>), Ty("CHAR", <<"1">>), Ty("CHAR", <<"30">>),
  Ty("TIME", <<"", "">>), Ty("TIME", <<"0", "">>), Ty("TIME", <<"9", "TZ">>), Ty("TIME", <<"", "TZ">>),
  Ty("TIMESTAMP", <<"", "">>), Ty("TIMESTAMP", <<"3", "">>), Ty("TIMESTAMP", <<"12", "TZ">>), Ty("TIMESTAMP", <<"", "TZ">>),
  Ty("TIMESTAMP", <<"0", "TZ">>),
  Ty("INTERVAL", <<"YEAR", "MONTH">>), Ty("INTERVAL", <<"DAY", "SECOND">>),
  TyN("ARRAY", <<Ty("BIGINT", <<>>)>>), TyN("QDIGEST", <<Ty("DOUBLE", <<>>)>>),
  TyN("MAP", <<Ty("VARCHAR", <<>>), Ty("REAL", <<>>)>>), TyN("ROW", <<Ty("INTEGER", <<>>)>>),
  TyN("ROW", <<Ty("DATE", <<>>), Ty("CHAR", <<"3">>), Ty("TINYINT", <<>>)>>),
  TyN("ARRAY", <<TyN("ROW", <<Ty("TIME", <<"6", "">>)>>)>>) >>

(* ------------------------------------------------------- templates by sort *)
Templates(sort, d) ==
  CASE sort = "x" -> XNames(d) \o XLits(d) \o XUnary(d) \o XArith(d) \o XCmp(d) \o XBool(d) \o XPred(d) \o XMake(d)
                     \o XCase(d) \o XLambda(d) \o XScalar(d) \o XAgg(d)
    [] sort = "sel" -> <<F(d, 1), N("As", <<"k" \o Nm(d, 1)>>, <<F(d, 2)>>), Star0, N("Star", <<"t" \o Nm(d, 1)>>, <<>>),
                         N("Star", <<>>, <<X2("Row", d)>>), N("AStar", <<Nm(d, 1), Nm(d, 2)>>, <<N("Star", <<"t" \o Nm(d, 3)>>, <<>>)>>),
                         N("AStar", <<Nm(d, 1)>>, <<N("Star", <<>>, <<X1("Row", d)>>)>>), X2("Or", d), SelT(d, 1)>>
    [] sort = "q" -> QSelect(d) \o QOther(d) \o QSet(d)
    [] sort = "r" -> RTable(d) \o RJoin(d) \o ROther(d)
    [] sort = "ty" -> TyAll
    [] sort = "o" -> <<Ord(d, 1), OrdX(d, 1, "ASC", "FIRST"), OrdX(d, 1, "DESC", "LAST"), OrdX(d, 1, "DESC", "FIRST")>>
    [] sort = "w" -> WBounds(d) \o <<DefaultWindow("w")>>
    [] sort = "g" -> <<GS(<<F(d, 1)>>), GS(<<F(d, 1), F(d, 2)>>), GS(<<>>), GS(<<X2("Row", d)>>), N("Rollup", <<>>, <<F(d, 1), F(d, 2)>>),
                       N("Cube", <<>>, <<F(d, 1), F(d, 2)>>), N("GSets", <<>>, <<GS(<<F(d, 1)>>), GS(<<F(d, 2), F(d, 3)>>)>>), N("GSets", <<>>, <<GS(<<>>)>>)>>
    [] sort = "gs" -> <<GS(<<F(d, 1)>>), GS(<<F(d, 1), F(d, 2)>>), GS(<<>>), GS(<<X2("Row", d)>>)>>
    [] sort = "cte" -> <<ARelN("n" \o Nm(d, 1), <<>>, SelT(d, 1)), ARelN("n" \o Nm(d, 1), <<"k" \o Nm(d, 1)>>, Sel1(d, 1))>>
    [] sort = "wd" -> <<N("WinDef", <<"w" \o Nm(d, 1)>>, <<Win("", "RANGE", <<F(d, 1)>>, <<>>, UnbP, Cur)>>)>>
    [] sort = "b" -> <<UnbP, Cur, Off("PRECEDING", F(d, 1)), Off("FOLLOWING", F(d, 1)), UnbF>>
    [] sort = "c" -> <<OnC(F(d, 1)), N("Using", <<Nm(d, 1)>>, <<>>), N("Using", <<Nm(d, 1), Nm(d, 2)>>, <<>>)>>
    [] OTHER -> <<>>

(* the sort of child i of a node; of the elements when the child is a List *)
KidSort(n, i) ==
  CASE n.k \in {"Select", "TableQ", "Values", "Union", "Intersect", "Except"} ->
         IF i = 1 THEN "cte" ELSE IF i = 2 THEN "o"
         ELSE IF n.k \in SetKinds THEN "q"
         ELSE IF n.k = "TableQ" THEN ""
         ELSE IF n.k = "Values" THEN "x"
         ELSE <<"", "", "sel", "r", "x", "", "x", "wd">>[i]
    [] n.k = "GroupBy" -> "g"
    [] n.k = "GSets" -> "gs"
    [] n.k \in {"GSet", "Rollup", "Cube"} -> "x"
    [] n.k = "InQuery" -> IF i = 1 THEN "x" ELSE "q"
    [] n.k \in {"Cast", "TryCast"} -> IF i = 1 THEN "x" ELSE "ty"
    [] n.k = "Type" -> "ty"
    [] n.k = "Fn" -> <<"x", "o", "x", "w">>[i]
    [] n.k = "ListAgg" -> IF i = 1 THEN "x" ELSE "o"
    [] n.k = "Window" -> <<"x", "o", "b", "b">>[i]
    [] n.k = "WinDef" -> "w"
    [] n.k = "ARel" -> "r"
    [] n.k = "Join" -> IF i <= 2 THEN "r" ELSE "c"
    [] n.k = "Sample" -> IF i = 1 THEN "r" ELSE "x"
    [] n.k = "Lateral" -> "q"
    [] n.k = "AStar" -> ""
    [] n.k = "When" -> "x"
    [] n.k = "Case" -> IF i <= 2 THEN "x" ELSE ""
    [] OTHER -> "x"

(* every slot below n, as <<path, sort>>, in depth-first order *)
RECURSIVE SlotsIn(_, _, _)
SlotsIn(n, path, srt) ==        \* srt: sort given to the elements of a List
  LET kid(i) == LET m == n.c[i]
                    s == IF n.k = "List" THEN srt ELSE KidSort(n, i)
                    p == Append(path, i)
                IN IF m.k = "None" THEN <<>>
                   ELSE IF s = "cte" /\ m.k = "ARel"       \* what a named query names is a query
                        THEN <<<<p, "cte">>, <<Append(p, 1), "q">>>> \o SlotsIn(m.c[1], Append(p, 1), "")
                   ELSE IF m.k = "List" THEN SlotsIn(m, p, s)
                   ELSE (IF s # "" THEN <<<<p, s>>>> ELSE <<>>) \o SlotsIn(m, p, "")
  IN FlattenSeq([i \in 1..Len(n.c) |-> kid(i)])
Slots(n) == SlotsIn(n, <<>>, "")
RECURSIVE Put(_, _, _)
Put(n, path, m) == IF path = <<>> THEN m
                   ELSE [n EXCEPT !.c[Head(path)] = Put(n.c[Head(path)], Tail(path), m)]
RECURSIVE Get(_, _)
Get(n, path) == IF path = <<>> THEN n ELSE Get(n.c[Head(path)], Tail(path))

(* Trees that SQL can express (the others are built by no text). *)
RECURSIVE WF(_)
WF(n) ==
  /\ \A i \in 1..Len(n.c) : WF(n.c[i])
  /\ CASE n.k = "Field" /\ n.c # <<>> -> n.c[1].k # "Field"
       [] n.k = "Star" /\ n.c # <<>> -> n.c[1].k # "Field"
       [] n.k = "Lambda" -> ~Has(n.c[1], QueryKinds)
       [] n.k \in SetKinds -> n.c[3].c[1].c = <<>> /\ n.c[4].c[1].c = <<>>
       [] n.k \in {"Cast", "TryCast"} -> n.c[2].a[1] # "UNKNOWN"
       [] n.k = "Type" -> \A i \in 1..Len(n.c) : TRUE
       [] n.k = "ARel" -> TRUE
       [] n.k = "Join" -> TRUE
       [] n.k = "Fn" -> n.a[2] = "IGNORE" => n.c[4].k = "Window"
       [] OTHER -> TRUE
=============================================================================
