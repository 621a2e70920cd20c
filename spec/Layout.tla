-------------------------------- MODULE Layout --------------------------------
(* Where the lines of a printed statement break.  A text is the sequence of its     *)
(* lines; line breaks inside of quotes are part of a line.  lay.pretty: one clause   *)
(* per line, keywords right-aligned to the longest of the query, lists filled up to  *)
(* the wrap width; otherwise everything is on one line.  lay.sp: the indentation.    *)
EXTENDS Render, Integers

WrapWidth == 80
LySpaces == [i \in 0..200 |-> LET RECURSIVE LyB(_) LyB(j) == IF j = 0 THEN "" ELSE LyB(j - 1) \o " " IN LyB(i)]
LyBl(k) == LySpaces[k]
LyT(s) == <<s>>                                               \* a text of one line
LyJoin2(t, u) == SubSeq(t, 1, Len(t) - 1) \o <<t[Len(t)] \o u[1]>> \o Tail(u)
LyCat(ts) == IF ts = <<>> THEN <<"">> ELSE FoldLeft(LAMBDA t, u : LyJoin2(t, u), ts[1], Tail(ts))
LyLen(t) == FoldLeft(LAMBDA v, s : v + Len(s), Len(t) - 1, t)
LyPad(t, k) == TLCEval([i \in 1..Len(t) |-> IF i = 1 THEN t[i] ELSE LyBl(k) \o t[i]])   \* the lines below the first one
LyPar(t) == LyCat(<<LyT("("), t, LyT(")")>>)
LyBreak == <<"", "">>
LyGap(lay) == IF lay.pretty THEN LyBreak ELSE LyT(" ")
LyWith(ts, d) == IF ts = <<>> THEN LyT("") ELSE LyCat(TLCEval([i \in 1..(2 * Len(ts) - 1) |-> IF i % 2 = 1 THEN ts[(i + 1) \div 2] ELSE d]))

(* a list: as many items as fit into a line of the wrap width less the indentation, *)
(* the first one always; the separator stays at the end of the line                   *)
LyFill(lts, d, lay) ==
  LET ts == TLCEval(lts)
      RECURSIVE LyGo(_, _, _)
      LyGo(done, used, i) ==
        IF i > Len(ts) THEN done
        ELSE LET w == LyLen(ts[i]) + (IF i < Len(ts) THEN 1 ELSE 0)
                 wrap == lay.pretty /\ used + w > WrapWidth - lay.sp
             IN LyGo(Append(done, IF wrap /\ i > 1 THEN LyCat(<<LyBreak, ts[i]>>) ELSE ts[i]), IF wrap THEN w ELSE used + w, i + 1)
  IN LyWith(LyGo(<<>>, 0, 1), LyT(d))
LyNames(names) == [i \in 1..Len(names) |-> LyT("\"" \o Esc(names[i], "\"") \o "\"")]
LyName(s) == LyNames(<<s>>)[1]
LyColumns(names, lay) == LyPar(LyFill(LyNames(names), ",", lay))

(* clauses: entries <<keyword, body>>, an empty body is no body.  river: keywords    *)
(* end in the same column, and bodies begin in the same one                            *)
LyMax(q) == FoldLeft(LAMBDA v, w : IF w > v THEN w ELSE v, 0, q)
LyClauses(es, river, lay) ==
  LET wide == LyMax([i \in 1..Len(es) |-> LyLen(es[i][1])])
      aligned == lay.pretty /\ river
      line(i) == LET kw == IF aligned THEN LyCat(<<LyT(LyBl(wide - LyLen(es[i][1]))), es[i][1]>>) ELSE es[i][1]
                     body == IF aligned THEN LyPad(es[i][2], wide + 1) ELSE es[i][2]
                 IN IF es[i][2] = <<"">> THEN kw ELSE LyCat(<<kw, LyT(" "), body>>)
  IN LyWith(TLCEval([i \in 1..Len(es) |-> line(i)]), LyGap(lay))
LyEn(kw, t) == <<<<LyT(kw), t>>>>

(* numbers *)
LyPoint(g, k) == SubSeq(g, 1, k) \o "." \o SubSeq(g, k + 1, Len(g))
LyExp(e) == (IF e < 0 THEN "-" ELSE "+") \o (IF (IF e < 0 THEN 0 - e ELSE e) < 10 THEN "0" ELSE "") \o ToString(IF e < 0 THEN 0 - e ELSE e)
LyDouble(g, e) ==             \* the shortest spelling: positional unless very large or very small
  LET k == Len(g) + e         \* where the point goes
  IN IF g = "0" THEN "0.0E0"
     ELSE IF k > 16 \/ k < -3 THEN (IF Len(g) > 1 THEN LyPoint(g, 1) ELSE g) \o "E" \o LyExp(k - 1)
     ELSE (IF k <= 0 THEN "0." \o Zeros(0 - k) \o g ELSE IF k >= Len(g) THEN g \o Zeros(k - Len(g)) \o ".0" ELSE LyPoint(g, k)) \o "E0"
LyNumber(a) == (IF a[2] = "-" THEN "-" ELSE "")
               \o (CASE a[1] = "int" -> a[3] [] a[1] = "dec" -> DecText(a[3], a[4], 0) [] OTHER -> LyDouble(a[3], IntOf(a[4])))
LyStr(s) == "'" \o Esc(s, "'") \o "'"
RECURSIVE LyType(_)
LyType(n) ==
  LET k == n.a[1]  ps == Tail(n.a)  items == ps \o [i \in 1..Len(n.c) |-> LyType(n.c[i])]
  IN CASE k \in {"TIME", "TIMESTAMP"} -> k \o (IF ps[1] = "" THEN "" ELSE "(" \o ps[1] \o ")") \o (IF ps[2] = "TZ" THEN " WITH TIME ZONE" ELSE "")
       [] k = "INTERVAL" -> "INTERVAL " \o ps[1] \o " TO " \o ps[2]
       [] OTHER -> IF items = <<>> THEN k ELSE k \o "(" \o FoldLeft(LAMBDA s, t : s \o "," \o t, items[1], Tail(items)) \o ")"

LyPrec(n) == CASE n.k = "Subscript" -> 9 [] n.k \in {"Pos", "Neg"} -> 8 [] n.k \in {"Mul", "Div", "Mod"} -> 7 [] n.k \in {"Add", "Sub"} -> 6
               [] n.k = "Fn" /\ n.a[1] = "CONCAT" -> 5
               [] n.k \in CmpKinds \cup {"Distinct", "IsNull", "Like", "Between", "InList", "InQuery"} -> 4
               [] n.k = "Not" -> 2 [] n.k = "And" -> 1 [] n.k = "Or" -> 0 [] n.k = "Lambda" -> -1 [] OTHER -> 99

RECURSIVE Ly(_, _)
RECURSIVE LyNode(_, _)
(* a query inside of something else is in parentheses *)
LyIn(n, lay) == IF n.k \in QueryKinds THEN LyPar(Ly(n, lay)) ELSE Ly(n, lay)
LyAll(c, lay) == TLCEval([i \in 1..Len(c) |-> LyIn(c[i], lay)])
LyItems(c, lay) == LyFill(LyAll(c, lay), ",", lay)
LyOpd(prec, n, first, lay) ==
  IF LyPrec(n) = 99 THEN LyIn(n, lay)
  ELSE IF LyPrec(n) < prec \/ (LyPrec(n) = prec /\ (~first \/ prec = 4)) THEN LyPar(Ly(n, lay)) ELSE LyIn(n, lay)
LyBase(n, lay) == LET t == LyOpd(9, n, TRUE, lay) IN IF n.k = "Lit" THEN LyPar(t) ELSE t
LyPred(n, neg, lay) ==
  LET opd(i) == LyOpd(4, n.c[i], i = 1, lay)
      no == IF neg THEN " NOT" ELSE ""
  IN CASE n.k = "Distinct" -> LyCat(<<opd(1), LyT(" IS" \o no \o " DISTINCT FROM "), opd(2)>>)
       [] n.k = "IsNull" -> LyCat(<<opd(1), LyT(" IS" \o no \o " NULL")>>)
       [] n.k = "Like" -> LyCat(<<opd(1), LyT(no \o " LIKE "), opd(2)>> \o (IF IsNone(n.c[3]) THEN <<>> ELSE <<LyT(" ESCAPE "), opd(3)>>))
       [] n.k = "Between" -> LyCat(<<opd(1), LyT(no \o " BETWEEN "), opd(2), LyT(" AND "), opd(3)>>)
       [] n.k = "InList" -> LyCat(<<opd(1), LyT(no \o " IN ("), LyItems(Tail(n.c), lay), LyT(")")>>)
       [] n.k = "InQuery" -> LyCat(<<opd(1), LyT(no \o " IN ("), Ly(n.c[2], lay), LyT(")")>>)
       [] OTHER -> LyCat(<<opd(1), LyT(" " \o BinOp[IF ~neg THEN n.k ELSE IF n.k = "Eq" THEN "Ne" ELSE "Eq"] \o " "), opd(2)>>)
LyFramed(w) == ~(w.a[2] = "RANGE" /\ w.c[3] = N("BUnb", <<"PRECEDING">>, <<>>) /\ w.c[4].k = "BCur")
LyPlain(w) == w.a[1] # "" /\ w = DefaultWindow(w.a[1])
LyWindow(w, lay) ==
  LyClauses((IF w.a[1] = "" THEN <<>> ELSE <<<<LyName(w.a[1]), LyT("")>>>>)
            \o (IF w.c[1].c = <<>> THEN <<>> ELSE LyEn("PARTITION", LyCat(<<LyT("BY "), LyItems(w.c[1].c, lay)>>)))
            \o (IF w.c[2].c = <<>> THEN <<>> ELSE LyEn("ORDER", LyCat(<<LyT("BY "), LyItems(w.c[2].c, lay)>>)))
            \o (IF w.a[1] # "" /\ ~LyFramed(w) THEN <<>> ELSE LyEn(w.a[2], LyCat(<<LyT("BETWEEN "), Ly(w.c[3], lay), LyT(" AND "), Ly(w.c[4], lay)>>))),
            TRUE, lay)
LyBelow(t, lay) == LyPad(LyCat(<<LyGap(lay), t>>), lay.sp)          \* on a line of its own, indented
LyCall(n, lay) ==
  LET args == LyItems(n.c[1].c, lay)
      ord == LyCat(<<LyT("ORDER BY "), LyItems(n.c[2].c, lay)>>)
      inner == IF n.c[2].c = <<>> THEN args ELSE LyFill(<<args, ord>>, " ", lay)
      w == n.c[4]
      es == (IF IsNone(n.c[3]) THEN <<>> ELSE LyEn("FILTER", LyCat(<<LyT("(WHERE "), LyIn(n.c[3], lay), LyT(")")>>)))
            \o (IF n.a[2] = "IGNORE" THEN LyEn("IGNORE", LyT("NULLS")) ELSE <<>>)
            \o (IF IsNone(w) THEN <<>> ELSE LyEn("OVER", IF LyPlain(w) THEN LyName(w.a[1]) ELSE LyPar(LyWindow(w, lay))))
  IN LyCat(<<LyT(n.a[1] \o "("), inner, LyT(")")>> \o (IF es = <<>> THEN <<>> ELSE <<LyBelow(LyClauses(es, TRUE, lay), lay)>>))
LyListAgg(n, lay) ==
  LET v == LyIn(n.c[1], lay)
      s == IF n.a[1] = "" THEN v ELSE LyFill(<<v, LyT(LyStr(n.a[1]))>>, ",", lay)
      f == IF n.a[2] = "ERROR" THEN s
           ELSE LyFill(<<s, LyT("ON OVERFLOW TRUNCATE " \o LyStr(n.a[3]) \o " " \o (IF n.a[4] = "WITH COUNT" THEN "WITH COUNT" ELSE "WITHOUT COUNT"))>>, " ", lay)
  IN LyCat(<<LyT("LISTAGG("), f, LyT(")"), LyBelow(LyCat(<<LyT("WITHIN GROUP (ORDER BY "), LyItems(n.c[2].c, lay), LyT(")")>>), lay)>>)
LyCase(n, lay) ==
  LET branches == [i \in 1..(Len(n.c) - 2) |-> LyCat(<<LyT("WHEN "), LyIn(n.c[i + 2].c[1], lay), LyT(" THEN "), LyIn(n.c[i + 2].c[2], lay)>>)]
                  \o (IF IsNone(n.c[2]) THEN <<>> ELSE <<LyCat(<<LyT("ELSE "), LyIn(n.c[2], lay)>>)>>)
  IN LyCat(<<LyT("CASE "), IF IsNone(n.c[1]) THEN LyT("") ELSE LyIn(n.c[1], lay),
             LyPad(LyCat(<<LyGap(lay), LyWith(branches, LyGap(lay))>>), 4), LyGap(lay), LyT("END")>>)

(* relations: those of the given kinds have to be in parentheses there *)
LyRel(n, kinds, fresh, lay) ==
  IF n.k \in QueryKinds \cup kinds THEN LyPar(IF lay.pretty /\ fresh THEN LyCat(<<LyBreak, Ly(n, lay)>>) ELSE Ly(n, lay)) ELSE Ly(n, lay)
LyJoin(n, lay) ==
  LET ty == (IF n.a[2] = "NATURAL" THEN "NATURAL " ELSE "") \o (CASE n.a[1] = "FULL" -> "FULL OUTER" [] OTHER -> n.a[1]) \o " JOIN"
      c == n.c[3]
  IN LyClauses(<<<<LyRel(n.c[1], {}, TRUE, lay), LyT("")>>>> \o LyEn(ty, LyRel(n.c[2], {"Join"}, TRUE, lay))
               \o (CASE c.k = "On" -> LyEn("ON", LyPad(LyIn(c.c[1], lay), lay.sp)) [] c.k = "Using" -> LyEn("USING", LyColumns(c.a, lay)) [] OTHER -> <<>>),
               FALSE, lay)
LyCte(m, lay) == LyCat(<<LyName(m.a[1])>> \o (IF Len(m.a) > 1 THEN <<LyT(" "), LyColumns(Tail(m.a), lay)>> ELSE <<>>)
                       \o <<LyT(" AS "), LyRel(m.c[1], {}, TRUE, lay)>>)
LyQuery(n, lay) ==
  LET with == IF n.c[1].c = <<>> THEN <<>> ELSE LyEn("WITH", LyFill([i \in 1..Len(n.c[1].c) |-> LyCte(n.c[1].c[i], lay)], ",", lay))
      rest == (IF n.c[2].c = <<>> THEN <<>> ELSE LyEn("ORDER", LyCat(<<LyT("BY "), LyItems(n.c[2].c, lay)>>)))
              \o (IF n.a[2] = "" THEN <<>> ELSE LyEn("OFFSET", LyT(n.a[2]))) \o (IF n.a[3] = "" THEN <<>> ELSE LyEn("LIMIT", LyT(n.a[3])))
      opt(kw, i, t) == IF IsNone(n.c[i]) THEN <<>> ELSE LyEn(kw, t)
      wins == [i \in 1..Len(n.c[8].c) |-> LET d == n.c[8].c[i] IN LyCat(<<LyName(d.a[1]), LyT(" AS "), LyPar(LyWindow(d.c[1], lay))>>)]
      op == CASE n.k = "Union" -> "UNION " [] n.k = "Intersect" -> "INTERSECT " [] OTHER -> "EXCEPT "
      body == CASE n.k = "Select" ->
                     LyEn("SELECT", LyCat(<<LyT(IF n.a[1] = "DISTINCT" THEN "DISTINCT " ELSE ""), LyItems(n.c[3].c, lay)>>))
                     \o opt("FROM", 4, IF n.c[4].k \in QueryKinds THEN LyPad(LyPar(Ly(n.c[4], lay)), 1) ELSE Ly(n.c[4], lay))
                     \o opt("WHERE", 5, LyIn(n.c[5], lay))
                     \o opt("GROUP", 6, LyCat(<<LyT(IF n.c[6].a[1] = "DISTINCT" THEN "BY DISTINCT " ELSE "BY "), LyItems(n.c[6].c, lay)>>))
                     \o opt("HAVING", 7, LyIn(n.c[7], lay))
                     \o (IF wins = <<>> THEN <<>> ELSE LyEn("WINDOW", LyFill(wins, ",", lay)))
                [] n.k = "TableQ" -> LyEn("TABLE", Ly(n.c[3], lay))
                [] n.k = "Values" -> LyEn("VALUES", LyItems(n.c[3].c, lay))
                [] OTHER -> <<<<LyCat(<<LyRel(n.c[3], {}, FALSE, lay), LyGap(lay), LyT(op \o n.a[1]), LyGap(lay), LyRel(n.c[4], {}, FALSE, lay)>>), LyT("")>>>>
  IN LyClauses(with \o body \o rest, n.k \notin SetKinds, lay)

Ly(n, lay) == TLCEval(LyNode(n, lay))
LyNode(n, lay) ==
  CASE n.k = "Field" -> IF n.c # <<>> THEN LyCat(<<LyBase(n.c[1], lay), LyT("."), LyName(n.a[1])>>)
                        ELSE IF Len(n.a) = 2 THEN LyCat(<<LyName(n.a[2]), LyT("."), LyName(n.a[1])>>) ELSE LyName(n.a[1])
    [] n.k = "Star" -> IF n.c # <<>> THEN LyCat(<<LyBase(n.c[1], lay), LyT(".*")>>)
                       ELSE IF n.a # <<>> THEN LyCat(<<LyName(n.a[1]), LyT(".*")>>) ELSE LyT("*")
    [] n.k = "AStar" -> LyCat(<<Ly(n.c[1], lay), LyT(" AS "), LyColumns(n.a, lay)>>)
    [] n.k = "As" -> LyCat(<<LyIn(n.c[1], lay), LyT(" "), LyName(n.a[1])>>)
    [] n.k = "Var" -> LyName(n.a[1])
    [] n.k = "Lambda" -> LyCat(<<IF Len(n.a) = 1 THEN LyName(n.a[1]) ELSE LyColumns(n.a, lay), LyT(" -> "), LyIn(n.c[1], lay)>>)
    [] n.k = "Lit" -> LyT(CASE n.a[1] = "str" -> LyStr(n.a[2]) [] n.a[1] = "null" -> "NULL" [] n.a[1] = "bool" -> n.a[2] [] OTHER -> LyNumber(n.a))
    [] n.k \in {"Add", "Sub", "Mul", "Div", "Mod"} -> LyCat(<<LyOpd(LyPrec(n), n.c[1], TRUE, lay), LyT(" " \o BinOp[n.k] \o " "), LyOpd(LyPrec(n), n.c[2], FALSE, lay)>>)
    [] n.k \in {"And", "Or"} -> LyCat(<<LyOpd(LyPrec(n), n.c[1], TRUE, lay), LyGap(lay), LyT(BinOp[n.k] \o " "), LyOpd(LyPrec(n), n.c[2], FALSE, lay)>>)
    [] n.k = "Pos" -> LyCat(<<LyT("+"), LyOpd(8, n.c[1], TRUE, lay)>>)
    [] n.k = "Neg" -> LET t == LyOpd(8, n.c[1], TRUE, lay)
                      IN LyCat(<<LyT("-"), IF At(t[1], 1) \in DigitSet \cup {"-", "."} THEN LyPar(t) ELSE t>>)
    [] n.k = "Not" -> IF n.c[1].k \in {"Distinct", "IsNull", "Like", "InList", "InQuery", "Between", "Eq"} THEN LyPred(n.c[1], TRUE, lay)
                      ELSE LyCat(<<LyT("NOT "), LyOpd(2, n.c[1], TRUE, lay)>>)
    [] n.k \in CmpKinds \cup {"Distinct", "IsNull", "Like", "InList", "InQuery", "Between"} -> LyPred(n, FALSE, lay)
    [] n.k = "Subscript" -> LyCat(<<LyOpd(9, n.c[1], TRUE, lay), LyT("["), LyOpd(4, n.c[2], TRUE, lay), LyT("]")>>)
    [] n.k = "Array" -> LyCat(<<LyT("ARRAY["), LyItems(n.c, lay), LyT("]")>>)
    [] n.k = "Row" -> LyCat(<<LyT(IF Len(n.c) = 1 THEN "ROW" ELSE ""), LyPar(LyItems(n.c, lay))>>)
    [] n.k = "TypeCons" -> LyT(n.a[1] \o " " \o LyStr(n.a[2]))
    [] n.k = "Interval" -> LyT("INTERVAL " \o LyStr(n.a[1]) \o " " \o n.a[2] \o (IF n.a[3] = "" THEN "" ELSE " TO " \o n.a[3]))
    [] n.k \in {"Cast", "TryCast"} -> LyCat(<<LyT(IF n.k = "Cast" THEN "CAST(" ELSE "TRY_CAST("), LyIn(n.c[1], lay), LyT(" AS " \o LyType(n.c[2]) \o ")")>>)
    [] n.k = "Type" -> LyT(LyType(n))
    [] n.k = "Case" -> LyCase(n, lay)
    [] n.k = "Fn" -> LyCall(n, lay)
    [] n.k = "ListAgg" -> LyListAgg(n, lay)
    [] n.k = "Normalize" -> LyCat(<<LyT("NORMALIZE("), LyFill(<<LyOpd(4, n.c[1], TRUE, lay)>> \o (IF n.a = <<>> THEN <<>> ELSE <<LyT(n.a[1])>>), ",", lay), LyT(")")>>)
    [] n.k = "DtFn" -> LyT(n.a[1] \o (IF Len(n.a) = 1 \/ n.a[2] = "3" THEN "" ELSE "(" \o n.a[2] \o ")"))
    [] n.k = "Sess" -> LyT(n.a[1])
    [] n.k = "Order" -> LyCat(<<LyIn(n.c[1], lay), LyT((IF n.a[1] = "DESC" THEN " DESC" ELSE "") \o (IF n.a[2] = "FIRST" THEN " NULLS FIRST" ELSE ""))>>)
    [] n.k = "BUnb" -> LyT("UNBOUNDED " \o n.a[1])
    [] n.k = "BCur" -> LyT("CURRENT ROW")
    [] n.k = "BOff" -> LyCat(<<LyIn(n.c[1], lay), LyT(" " \o n.a[1])>>)
    [] n.k = "GSet" -> IF Len(n.c) = 1 /\ n.c[1].k # "Row" THEN LyIn(n.c[1], lay) ELSE LyPar(LyItems(n.c, lay))
    [] n.k \in {"Rollup", "Cube", "GSets"} -> LyCat(<<LyT(CASE n.k = "Rollup" -> "ROLLUP " [] n.k = "Cube" -> "CUBE " [] OTHER -> "GROUPING SETS "), LyPar(LyItems(n.c, lay))>>)
    [] n.k = "Table" -> LyWith(LyNames(n.a), LyT("."))
    [] n.k = "ARel" -> LyCat(<<LyRel(n.c[1], {"Join", "ARel", "Sample"}, TRUE, lay), LyT(" "), LyName(n.a[1])>>
                             \o (IF Len(n.a) > 1 THEN <<LyT(" "), LyColumns(Tail(n.a), lay)>> ELSE <<>>))
    [] n.k = "Join" -> LyJoin(n, lay)
    [] n.k = "Unnest" -> LyCat(<<LyT("UNNEST("), LyItems(n.c, lay), LyT(IF n.a[1] = "ORD" THEN ") WITH ORDINALITY" ELSE ")")>>)
    [] n.k = "Lateral" -> LyCat(<<LyT("LATERAL("), Ly(n.c[1], lay), LyT(")")>>)
    [] n.k = "Sample" -> LyCat(<<LyRel(n.c[1], {"Join", "Sample"}, FALSE, lay), LyT(" TABLESAMPLE " \o n.a[1] \o "("),
                                 IF n.c[2].k = "Lit" /\ n.c[2].a[1] = "dbl" THEN LET s == LyNumber(n.c[2].a) IN LyT(IF SubSeq(s, Len(s) - 1, Len(s)) = "E0" THEN SubSeq(s, 1, Len(s) - 2) ELSE s)
                                 ELSE LyIn(n.c[2], lay), LyT(")")>>)
    [] n.k \in QueryKinds -> LyQuery(n, lay)
    [] OTHER -> LyT("?" \o n.k)

(* the text of n *)
Laid(n, mode, sp) == LET t == Ly(n, [pretty |-> mode = "pretty", sp |-> sp]) IN FoldLeft(LAMBDA s, u : s \o "\n" \o u, t[1], Tail(t))
===============================================================================
