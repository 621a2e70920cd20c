------------------------------- MODULE Render -------------------------------
(* Trees -> text: the reference renderer.  RX etc. give tokens; parentheses are   *)
(* placed by the levels of Trino's grammar.  A style is a record                  *)
(*   par   "min" | "full"      only needed parentheses | around every operand     *)
(*   kw    "up" | "low"        keyword spelling                                   *)
(*   sep   "sp" | "tight" | "nl" | "com"   what separates tokens                  *)
(*   alt   0 | 1 | 2            choice between equivalent spellings               *)
(*   quo   TRUE | FALSE         quote every identifier                            *)
EXTENDS Grammar, SequencesExt

\* levels: 1 or, 2 and, 3 not, 4 predicate, 5 concatenation, 6 +-, 7 */%, 8 sign, 9 primary
Lev(n, st) ==
  CASE n.k = "Or" -> 1 [] n.k = "And" -> 2
    [] n.k = "Not" -> IF st.alt > 0 /\ n.c[1].k \in {"Between", "InList", "InQuery", "Like", "IsNull", "Distinct"} THEN 4 ELSE 3
    [] n.k \in CmpKinds \cup {"Between", "InList", "InQuery", "Like", "IsNull", "Distinct"} -> 4
    [] n.k = "Fn" -> IF st.alt > 0 /\ n.a = <<"CONCAT", "RESPECT">> /\ Len(n.c[1].c) = 2 THEN 5 ELSE 9
    [] n.k \in {"Add", "Sub"} -> 6 [] n.k \in {"Mul", "Div", "Mod"} -> 7
    [] n.k \in {"Pos", "Neg"} -> 8
    [] n.k = "Lambda" -> 0
    [] n.k = "Lit" /\ n.a[1] \in {"int", "dec", "dbl"} /\ n.a[2] = "-" -> 8
    [] OTHER -> 9

PlainWord(s) == /\ s # "" /\ At(s, 1) \in LetterSet \cup {"_"}
                /\ \A i \in 1..Len(s) : At(s, i) \in WordSet
                /\ (s \notin KwDom \/ KwFcn[s] \in NonReserved)
(* non-reserved keywords that could be taken for syntax where a name is meant *)
Dangerous(s) == s \in KwDom
Esc(s, q) == Cat([i \in 1..Len(s) |-> IF At(s, i) = q THEN q \o q ELSE At(s, i)])
Id(s, st) == IF PlainWord(s) /\ ~Dangerous(s) /\ ~st.quo THEN s ELSE "\"" \o Esc(s, "\"") \o "\""
LowKw(s) == IF s \in DOMAIN LowerOf THEN LowerOf[s] ELSE s
Kw(s, st) == IF st.kw = "up" THEN s ELSE LowKw(s)
Hex4 == "0123456789ABCDEF"
Hx(n) == LET d(k) == At(Hex4, ((n \div k) % 16) + 1) IN d(4096) \o d(256) \o d(16) \o d(1)
UniCode(c) == IF \E i \in 1..Len(UniTab) : UniTab[i][2] = c
              THEN UniTab[CHOOSE i \in 1..Len(UniTab) : UniTab[i][2] = c][1] ELSE 0
UText(s) == Cat([i \in 1..Len(s) |-> LET c == At(s, i) IN
                   IF UniCode(c) > 0 /\ c # "'" THEN "\\" \o Hx(UniCode(c))
                   ELSE IF c = "\\" THEN "\\\\" ELSE IF c = "'" THEN "''" ELSE c])
StrTok(s, st) == IF st.alt = 2 /\ \E i \in 1..Len(s) : UniCode(At(s, i)) > 0 THEN "U&'" \o UText(s) \o "'"
                 ELSE "'" \o Esc(s, "'") \o "'"
RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN "" ELSE "0" \o Zeros(n - 1)
DecText(g, scale, alt) ==
  LET f == NatOf(scale)
      h == IF Len(g) <= f THEN Zeros(f + 1 - Len(g)) \o g ELSE g
      w == SubSeq(h, 1, Len(h) - f)
      fr == SubSeq(h, Len(h) - f + 1, Len(h))
  IN IF alt = 2 /\ w = "0" /\ fr # "" THEN "." \o fr ELSE w \o "." \o fr
DblText(g, e, alt) == IF alt = 1 /\ Len(g) > 1
                      THEN At(g, 1) \o "." \o SubSeq(g, 2, Len(g)) \o "E" \o ToString(IntOf(e) + Len(g) - 1)
                      ELSE g \o "E" \o e
NumToks(n, st) == LET v == CASE n.a[1] = "int" -> (IF st.alt = 2 THEN "0" ELSE "") \o n.a[3]
                             [] n.a[1] = "dec" -> DecText(n.a[3], n.a[4], st.alt)
                             [] n.a[1] = "dbl" -> DblText(n.a[3], n.a[4], st.alt)
                  IN IF n.a[2] = "-" THEN <<"-", v>> ELSE <<v>>

KwSeq(s, st) == [i \in 1..Len(s) |-> Kw(s[i], st)]
Join(parts, sep) == \* sequences of tokens, separated by the tokens sep
  IF parts = <<>> THEN <<>>
  ELSE FoldLeft(LAMBDA a, b : a \o sep \o b, parts[1], Tail(parts))
Pa(ts) == <<"(">> \o ts \o <<")">>
IdsToks(names, st) == Join([i \in 1..Len(names) |-> <<Id(names[i], st)>>], <<",">>)

RECURSIVE RN(_, _, _)
RxList(c, st) == Join([i \in 1..Len(c) |-> RN(c[i], 0, st)], <<",">>)
(* an operand that needs level lvl *)
Opd(n, lvl, st) == LET t == RN(n, 0, st)
                       atom == n.k \in {"Field", "Lit", "Var", "Fn", "Case", "Cast", "TryCast", "Array", "Star", "TypeCons", "Interval", "DtFn", "Sess", "Normalize", "ListAgg"} \cup QueryKinds
                   IN IF Lev(n, st) < lvl \/ (st.par = "full" /\ ~atom) \/ (st.par = "full2" /\ n.k \notin QueryKinds)
                      THEN Pa(t) ELSE t
BinOp == [k \in {"Or", "And", "Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Add", "Sub", "Mul", "Div", "Mod"} |->
          CASE k = "Or" -> "OR" [] k = "And" -> "AND" [] k = "Eq" -> "=" [] k = "Ne" -> "<>" [] k = "Lt" -> "<"
            [] k = "Le" -> "<=" [] k = "Gt" -> ">" [] k = "Ge" -> ">=" [] k = "Add" -> "+" [] k = "Sub" -> "-"
            [] k = "Mul" -> "*" [] k = "Div" -> "/" [] k = "Mod" -> "%"]
RBin(n, st) ==
  LET l == Lev(n, st)
      op == IF n.k = "Ne" /\ st.alt > 0 THEN "!=" ELSE BinOp[n.k]
      left == IF l = 4 THEN 5 ELSE l          \* comparisons do not chain
      right == IF l = 4 THEN 5 ELSE l + 1
  IN Opd(n.c[1], left, st) \o <<Kw(op, st)>> \o Opd(n.c[2], right, st)
RNeg(n, neg, st) ==        \* predicates, with NOT in the middle when neg
  LET no == IF neg THEN <<Kw("NOT", st)>> ELSE <<>>
      v == Opd(n.c[1], 5, st)
  IN CASE n.k = "Between" -> v \o no \o <<Kw("BETWEEN", st)>> \o Opd(n.c[2], 5, st) \o <<Kw("AND", st)>> \o Opd(n.c[3], 5, st)
       [] n.k = "InList" -> v \o no \o <<Kw("IN", st)>> \o Pa(RxList(Tail(n.c), st))
       [] n.k = "InQuery" -> v \o no \o <<Kw("IN", st)>> \o Pa(RN(n.c[2], 1, st))
       [] n.k = "Like" -> v \o no \o <<Kw("LIKE", st)>> \o Opd(n.c[2], 5, st)
                          \o (IF IsNone(n.c[3]) THEN <<>> ELSE <<Kw("ESCAPE", st)>> \o Opd(n.c[3], 5, st))
       [] n.k = "IsNull" -> v \o <<Kw("IS", st)>> \o no \o <<Kw("NULL", st)>>
       [] n.k = "Distinct" -> v \o <<Kw("IS", st)>> \o no \o KwSeq(<<"DISTINCT", "FROM">>, st) \o Opd(n.c[2], 5, st)
ROrder(list, st) == IF list.c = <<>> THEN <<>> ELSE KwSeq(<<"ORDER", "BY">>, st) \o RxList(list.c, st)
RWin(n, st) ==
  LET parent == IF n.a[1] = "" THEN <<>> ELSE <<Id(n.a[1], st)>>
      part == IF n.c[1].c = <<>> THEN <<>> ELSE KwSeq(<<"PARTITION", "BY">>, st) \o RxList(n.c[1].c, st)
      dflt == n.a[2] = "RANGE" /\ n.c[3] = N("BUnb", <<"PRECEDING">>, <<>>) /\ n.c[4].k = "BCur"
      short == st.alt = 1 /\ n.c[4].k = "BCur"
      frame == IF dflt /\ st.alt < 2 THEN <<>>
               ELSE IF short THEN <<Kw(n.a[2], st)>> \o RN(n.c[3], 0, st)
               ELSE KwSeq(<<n.a[2], "BETWEEN">>, st) \o RN(n.c[3], 0, st) \o <<Kw("AND", st)>> \o RN(n.c[4], 0, st)
  IN parent \o part \o ROrder(n.c[2], st) \o frame
RFn(n, st) ==
  LET args == n.c[1].c
      name == IF n.a[1] \in {"CURRENT_USER"} THEN n.a[1] ELSE n.a[1]
      nm == IF n.a[1] \in {"IF", "NULLIF", "COALESCE"} THEN Kw(n.a[1], st)
            ELSE IF st.alt = 1 THEN ToLower(name) ELSE IF st.alt = 2 THEN "\"" \o name \o "\"" ELSE name
      all == IF st.alt = 2 /\ Len(args) > 0 /\ args[1].k # "Star" /\ args[1].k # "Lambda" /\ RN(args[1], 0, st)[1] # "(" THEN <<Kw("ALL", st)>> ELSE <<>>
      filter == IF IsNone(n.c[3]) THEN <<>> ELSE <<Kw("FILTER", st)>> \o Pa(<<Kw("WHERE", st)>> \o RN(n.c[3], 0, st))
      nulls == IF n.a[2] = "IGNORE" THEN KwSeq(<<"IGNORE", "NULLS">>, st)
               ELSE IF st.alt = 2 /\ ~IsNone(n.c[4]) /\ args[1].k # "Star" THEN KwSeq(<<"RESPECT", "NULLS">>, st) ELSE <<>>
      w == n.c[4]
      over == IF IsNone(w) THEN <<>>
              ELSE <<Kw("OVER", st)>> \o (IF w = DefaultWindow(w.a[1]) /\ w.a[1] # "" /\ st.alt < 2 THEN <<Id(w.a[1], st)>> ELSE Pa(RWin(w, st)))
  IN IF Lev(n, st) = 5 THEN Opd(args[1], 5, st) \o <<"||">> \o Opd(args[2], 6, st)
     ELSE <<nm>> \o Pa(all \o RxList(args, st) \o ROrder(n.c[2], st)) \o filter \o nulls \o over
RType(n, st) ==
  LET name == n.a[1]
      ps == Tail(n.a)
      par(xs) == IF xs = <<>> THEN <<>> ELSE Pa(Join([i \in 1..Len(xs) |-> <<xs[i]>>], <<",">>))
      nm == IF st.kw = "up" THEN name ELSE ToLower(name)
      cs == Pa(RxList(n.c, st))
  IN CASE name \in {"TIME", "TIMESTAMP"} ->
            <<Kw(name, st)>> \o (IF ps[1] = "" THEN <<>> ELSE Pa(<<ps[1]>>))
            \o (IF ps[2] = "TZ" THEN KwSeq(<<"WITH", "TIME", "ZONE">>, st)
                ELSE IF st.alt = 2 THEN KwSeq(<<"WITHOUT", "TIME", "ZONE">>, st) ELSE <<>>)
       [] name = "INTERVAL" -> KwSeq(<<"INTERVAL", ps[1], "TO", ps[2]>>, st)
       [] name = "ROW" -> <<Kw("ROW", st)>> \o cs
       [] name = "ARRAY" /\ st.alt = 1 /\ n.c[1].a[1] \notin {"INTERVAL"} -> RN(n.c[1], 0, st) \o <<Kw("ARRAY", st)>>
       [] name \in {"ARRAY", "MAP", "QDIGEST"} -> <<nm>> \o cs
       [] name = "DECIMAL" /\ ps[2] = "0" /\ st.alt = 1 -> <<nm>> \o (IF ps[1] = "38" THEN <<>> ELSE Pa(<<ps[1]>>))
       [] name = "CHAR" /\ ps[1] = "1" /\ st.alt = 1 -> <<nm>>
       [] name = "DOUBLE" /\ st.alt = 2 -> KwSeq(<<"DOUBLE", "PRECISION">>, st)
       [] OTHER -> <<nm>> \o par(ps)

(* ------------------------------------------------------------------ queries *)
RowWord(st) == IF st.alt = 1 THEN <<Kw("ROWS", st)>> ELSE <<>>
RTail(n, st) ==
  ROrder(n.c[2], st)
  \o (IF n.a[2] = "" THEN <<>> ELSE <<Kw("OFFSET", st), n.a[2]>> \o RowWord(st))
  \o (IF n.a[3] = "" THEN <<>>
      ELSE IF st.alt = 2 THEN KwSeq(<<"FETCH", "FIRST">>, st) \o <<n.a[3]>> \o KwSeq(<<"ROWS", "ONLY">>, st)
      ELSE <<Kw("LIMIT", st), n.a[3]>>)
Clauses(n) == n.c[2].c # <<>> \/ n.a[2] # "" \/ n.a[3] # ""
RWith(n, st) ==
  IF n.c[1].c = <<>> THEN <<>>
  ELSE <<Kw("WITH", st)>> \o
       Join([i \in 1..Len(n.c[1].c) |->
              LET m == n.c[1].c[i]
              IN <<Id(m.a[1], st)>> \o (IF Len(m.a) > 1 THEN Pa(IdsToks(Tail(m.a), st)) ELSE <<>>)
                 \o <<Kw("AS", st)>> \o Pa(RN(m.c[1], 1, st))], <<",">>)
(* operand of a set operation: needs 1 for a left operand of UNION/EXCEPT, 2 for the right one or a left  *)
(* operand of INTERSECT, 3 for the right one of INTERSECT                                                  *)
SetLev(n) == IF Clauses(n) THEN 0 ELSE IF n.k \in {"Union", "Except"} THEN 1 ELSE IF n.k = "Intersect" THEN 2 ELSE 3
SetOpd(n, lvl, st) == LET t == RN(n, 1, st) IN IF SetLev(n) < lvl \/ (st.par # "min" /\ n.k \in SetKinds) THEN Pa(t) ELSE t
RGroup(n, st) == LET q == IF n.a[1] = "DISTINCT" THEN <<Kw("DISTINCT", st)>> ELSE <<>>
                 IN KwSeq(<<"GROUP", "BY">>, st) \o q \o RxList(n.c, st)
RQuery(n, st) ==
  RWith(n, st) \o
  (CASE n.k = "Select" ->
          <<Kw("SELECT", st)>> \o (IF n.a[1] = "DISTINCT" THEN <<Kw("DISTINCT", st)>> ELSE <<>>)
          \o RxList(n.c[3].c, st)
          \o (IF IsNone(n.c[4]) THEN <<>> ELSE <<Kw("FROM", st)>> \o RN(n.c[4], 0, st))
          \o (IF IsNone(n.c[5]) THEN <<>> ELSE <<Kw("WHERE", st)>> \o RN(n.c[5], 0, st))
          \o (IF IsNone(n.c[6]) THEN <<>> ELSE RGroup(n.c[6], st))
          \o (IF IsNone(n.c[7]) THEN <<>> ELSE <<Kw("HAVING", st)>> \o RN(n.c[7], 0, st))
          \o (IF n.c[8].c = <<>> THEN <<>> ELSE <<Kw("WINDOW", st)>> \o RxList(n.c[8].c, st))
     [] n.k = "TableQ" -> <<Kw("TABLE", st)>> \o RN(n.c[3], 0, st)
     [] n.k = "Values" -> <<Kw("VALUES", st)>> \o RxList(n.c[3].c, st)
     [] n.k \in SetKinds ->
          LET lv == IF n.k = "Intersect" THEN 2 ELSE 1
              op == CASE n.k = "Union" -> "UNION" [] n.k = "Intersect" -> "INTERSECT" [] n.k = "Except" -> "EXCEPT"
              q == IF n.a[1] = "ALL" THEN <<Kw("ALL", st)>> ELSE IF st.alt = 1 THEN <<Kw("DISTINCT", st)>> ELSE <<>>
          IN SetOpd(n.c[3], lv, st) \o <<Kw(op, st)>> \o q \o SetOpd(n.c[4], lv + 1, st))
  \o RTail(n, st)

(* ---------------------------------------------------------------- relations *)
(* levels: 1 join, 2 sampled, 3 aliased, 4 primary *)
RelLev(n) == CASE n.k = "Join" -> 1 [] n.k = "Sample" -> 2 [] n.k = "ARel" -> 3 [] OTHER -> 4
RelOpd(n, lvl, st) == LET t == RN(n, 0, st)
                      IN IF n.k \in QueryKinds THEN t
                         ELSE IF RelLev(n) < lvl \/ (st.par # "min" /\ n.k \notin {"Table", "ARel"}) THEN Pa(t) ELSE t
RJoinX(n, st) ==
  LET ty == CASE n.a[1] = "INNER" -> IF st.alt = 1 THEN <<"INNER", "JOIN">> ELSE <<"JOIN">>
              [] n.a[1] = "CROSS" -> <<"CROSS", "JOIN">>
              [] OTHER -> IF st.alt = 1 THEN <<n.a[1], "JOIN">> ELSE <<n.a[1], "OUTER", "JOIN">>
      nat == IF n.a[2] = "NATURAL" THEN <<"NATURAL">> ELSE <<>>
      c == n.c[3]
      crit == CASE c.k = "On" -> <<Kw("ON", st)>> \o RN(c.c[1], 0, st)
                [] c.k = "Using" -> <<Kw("USING", st)>> \o Pa(IdsToks(c.a, st))
                [] OTHER -> <<>>
      rl == IF c.k = "None" THEN 2 ELSE IF st.alt = 1 THEN 1 ELSE 2     \* a join with criteria may be a bare right operand
  IN RelOpd(n.c[1], 1, st) \o KwSeq(nat \o ty, st) \o RelOpd(n.c[2], rl, st) \o crit

(* tokens of n; queries are put in parentheses unless lvl = 1 *)
RN(n, lvl, st) ==
  CASE n.k = "Field" ->
         IF n.c # <<>> THEN Opd(n.c[1], 9, st) \o <<".", Id(n.a[1], st)>>
         ELSE IF Len(n.a) = 2 THEN <<Id(n.a[2], st), ".", Id(n.a[1], st)>> ELSE <<Id(n.a[1], st)>>
    [] n.k = "Var" -> <<Id(n.a[1], st)>>
    [] n.k = "Lit" -> (CASE n.a[1] = "str" -> <<StrTok(n.a[2], st)>>
                         [] n.a[1] = "null" -> <<Kw("NULL", st)>>
                         [] n.a[1] = "bool" -> <<Kw(n.a[2], st)>>
                         [] OTHER -> NumToks(n, st))
    [] n.k \in DOMAIN BinOp -> RBin(n, st)
    [] n.k = "Not" -> IF Lev(n, st) = 4 THEN RNeg(n.c[1], TRUE, st)
                      ELSE <<Kw("NOT", st)>> \o Opd(n.c[1], 3, st)
    [] n.k \in {"Between", "InList", "InQuery", "Like", "IsNull", "Distinct"} -> RNeg(n, FALSE, st)
    [] n.k \in {"Pos", "Neg"} ->
         LET m == n.c[1]
             num == m.k = "Lit" /\ m.a[1] \in {"int", "dec", "dbl"}
         IN <<IF n.k = "Pos" THEN "+" ELSE "-">> \o (IF n.k = "Neg" /\ RN(m, 0, st)[1] # "(" /\ (num \/ st.par # "min") THEN Pa(RN(m, 0, st))
            ELSE LET o == Opd(m, 8, st) IN IF n.k = "Neg" /\ At(o[1], 1) \in DigitSet \cup {"."} THEN Pa(o) ELSE o)
    [] n.k = "Subscript" -> Opd(n.c[1], 9, st) \o <<"[">> \o Opd(n.c[2], 5, st) \o <<"]">>
    [] n.k = "Array" -> <<Kw("ARRAY", st), "[">> \o RxList(n.c, st) \o <<"]">>
    [] n.k = "Row" -> (IF Len(n.c) = 1 \/ st.alt = 1 THEN <<Kw("ROW", st)>> ELSE <<>>) \o Pa(RxList(n.c, st))
    [] n.k = "TypeCons" -> <<IF n.a[1] \in KwDom THEN Kw(n.a[1], st) ELSE n.a[1], StrTok(n.a[2], st)>>
    [] n.k = "Interval" -> LET m == st.alt = 1 /\ At(n.a[1], 1) = "-"
                               v == IF m THEN SubSeq(n.a[1], 2, Len(n.a[1])) ELSE n.a[1]
                           IN <<Kw("INTERVAL", st)>> \o (IF m THEN <<"-">> ELSE IF st.alt = 2 THEN <<"+">> ELSE <<>>)
                              \o <<StrTok(v, [st EXCEPT !.alt = 0]), Kw(n.a[2], st)>>
                              \o (IF n.a[3] = "" THEN <<>> ELSE <<Kw("TO", st), Kw(n.a[3], st)>>)
    [] n.k \in {"Cast", "TryCast"} -> <<Kw(IF n.k = "Cast" THEN "CAST" ELSE "TRY_CAST", st)>>
                                      \o Pa(RN(n.c[1], 0, st) \o <<Kw("AS", st)>> \o RN(n.c[2], 0, st))
    [] n.k = "Type" -> RType(n, st)
    [] n.k = "Case" ->
         <<Kw("CASE", st)>> \o (IF IsNone(n.c[1]) THEN <<>> ELSE RN(n.c[1], 0, st))
         \o FlattenSeq([i \in 1..(Len(n.c) - 2) |-> RN(n.c[i + 2], 0, st)])
         \o (IF IsNone(n.c[2]) THEN <<>> ELSE <<Kw("ELSE", st)>> \o RN(n.c[2], 0, st)) \o <<Kw("END", st)>>
    [] n.k = "When" -> <<Kw("WHEN", st)>> \o RN(n.c[1], 0, st) \o <<Kw("THEN", st)>> \o RN(n.c[2], 0, st)
    [] n.k = "Lambda" -> (IF Len(n.a) = 1 /\ st.alt = 0 THEN <<Id(n.a[1], st)>> ELSE Pa(IdsToks(n.a, st)))
                         \o <<"->">> \o RN(n.c[1], 0, st)
    [] n.k = "Fn" -> RFn(n, st)
    [] n.k = "ListAgg" ->
         <<Kw("LISTAGG", st)>> \o
         Pa(RN(n.c[1], 0, st) \o (IF n.a[1] = "" /\ st.alt = 1 THEN <<>> ELSE <<",", StrTok(n.a[1], st)>>)
            \o (IF n.a[2] = "ERROR" THEN IF st.alt = 2 THEN KwSeq(<<"ON", "OVERFLOW", "ERROR">>, st) ELSE <<>>
                ELSE KwSeq(<<"ON", "OVERFLOW", "TRUNCATE">>, st)
                     \o (IF n.a[3] = "..." /\ st.alt = 1 THEN <<>> ELSE <<StrTok(n.a[3], st)>>)
                     \o KwSeq(IF n.a[4] = "WITH COUNT" THEN <<"WITH", "COUNT">> ELSE <<"WITHOUT", "COUNT">>, st)))
         \o KwSeq(<<"WITHIN", "GROUP">>, st) \o Pa(ROrder(n.c[2], st))
    [] n.k = "Normalize" -> <<Kw("NORMALIZE", st)>> \o Pa(Opd(n.c[1], 5, st)
                                 \o (IF n.a = <<>> THEN <<>> ELSE <<",", n.a[1]>>))
    [] n.k = "DtFn" -> <<Kw(n.a[1], st)>> \o (IF Len(n.a) = 1 \/ (n.a[2] = "3" /\ st.alt = 1) THEN <<>> ELSE Pa(<<n.a[2]>>))
    [] n.k = "Sess" -> <<Kw(n.a[1], st)>>
    [] n.k = "As" -> RN(n.c[1], 0, st) \o (IF st.alt = 1 THEN <<>> ELSE <<Kw("AS", st)>>) \o <<Id(n.a[1], st)>>
    [] n.k = "Star" -> IF n.c # <<>> THEN Opd(n.c[1], 9, st) \o <<".", "*">>
                       ELSE IF n.a # <<>> THEN <<Id(n.a[1], st), ".", "*">> ELSE <<"*">>
    [] n.k = "AStar" -> RN(n.c[1], 0, st) \o <<Kw("AS", st)>> \o Pa(IdsToks(n.a, st))
    [] n.k = "Order" -> RN(n.c[1], 0, st)
         \o (IF n.a[1] = "DESC" THEN <<Kw("DESC", st)>> ELSE IF st.alt = 1 THEN <<Kw("ASC", st)>> ELSE <<>>)
         \o (IF n.a[2] = "FIRST" THEN KwSeq(<<"NULLS", "FIRST">>, st) ELSE IF st.alt = 1 THEN KwSeq(<<"NULLS", "LAST">>, st) ELSE <<>>)
    [] n.k = "Window" -> RWin(n, st)
    [] n.k = "WinDef" -> <<Id(n.a[1], st), Kw("AS", st)>> \o Pa(RWin(n.c[1], st))
    [] n.k = "BUnb" -> KwSeq(<<"UNBOUNDED", n.a[1]>>, st)
    [] n.k = "BCur" -> KwSeq(<<"CURRENT", "ROW">>, st)
    [] n.k = "BOff" -> RN(n.c[1], 0, st) \o <<Kw(n.a[1], st)>>
    [] n.k = "GSet" -> IF Len(n.c) = 1 /\ n.c[1].k # "Row" /\ n.c[1].k \notin QueryKinds /\ st.par = "min" THEN RN(n.c[1], 0, st) ELSE Pa(RxList(n.c, st))
    [] n.k = "Rollup" -> <<Kw("ROLLUP", st)>> \o Pa(RxList(n.c, st))
    [] n.k = "Cube" -> <<Kw("CUBE", st)>> \o Pa(RxList(n.c, st))
    [] n.k = "GSets" -> KwSeq(<<"GROUPING", "SETS">>, st) \o Pa(RxList(n.c, st))
    [] n.k = "Table" -> Join([i \in 1..Len(n.a) |-> <<Id(n.a[i], st)>>], <<".">>)
    [] n.k = "ARel" -> RelOpd(n.c[1], 4, st) \o (IF st.alt = 1 THEN <<>> ELSE <<Kw("AS", st)>>) \o <<Id(n.a[1], st)>>
                       \o (IF Len(n.a) > 1 THEN Pa(IdsToks(Tail(n.a), st)) ELSE <<>>)
    [] n.k = "Join" -> RJoinX(n, st)
    [] n.k = "Unnest" -> <<Kw("UNNEST", st)>> \o Pa(RxList(n.c, st)) \o (IF n.a[1] = "ORD" THEN KwSeq(<<"WITH", "ORDINALITY">>, st) ELSE <<>>)
    [] n.k = "Lateral" -> <<Kw("LATERAL", st)>> \o Pa(RN(n.c[1], 1, st))
    [] n.k = "Sample" -> RelOpd(n.c[1], 3, st) \o KwSeq(<<"TABLESAMPLE", n.a[1]>>, st) \o Pa(RN(n.c[2], 0, st))
    [] n.k \in QueryKinds -> IF lvl = 1 THEN RQuery(n, st) ELSE Pa(RQuery(n, st))
    [] OTHER -> <<"?" \o n.k>>

(* -------------------------------------------------------- tokens to text *)
WordStart(c) == c \in WordSet \cup {"'", "\""}
OpSet == {"<", ">", "=", "!", "-", "|", "/", "*", "+", "."}
MustSep(x, y) == LET a == At(x, Len(x))  b == At(y, 1)
                 IN \/ (a \in WordSet \cup {"."} /\ b \in WordSet \cup {"."})
                    \/ (a \in WordSet /\ b \in {"'", "\""})
                    \/ (a \in {"'", "\""} /\ b \in WordSet)
                    \/ (a = b /\ a \in {"'", "\""})
                    \/ (a \in OpSet /\ b \in OpSet)
SepOf(x, y, i, st) ==
  CASE st.sep = "sp" -> " "
    [] st.sep = "tight" -> IF MustSep(x, y) THEN " " ELSE ""
    [] st.sep = "nl" -> IF (i % 3) = 0 THEN "\n  " ELSE IF (i % 3) = 1 THEN "\t" ELSE " "
    [] st.sep = "com" -> IF (i % 4) = 0 THEN " /* , ( ' */ " ELSE IF (i % 4) = 2 THEN " -- ) \" x\n" ELSE " "
TokText(ts, st) == IF ts = <<>> THEN ""
                   ELSE LET RECURSIVE G(_, _)
                            G(acc, i) == IF i > Len(ts) THEN acc
                                         ELSE G(acc \o SepOf(ts[i - 1], ts[i], i, st) \o ts[i], i + 1)
                        IN G(ts[1], 2)
WhatOf(n) == IF n.k = "Text" THEN n.a[1] ELSE IF n.k = "Type" THEN "type" ELSE IF n.k \in QueryKinds THEN "query" ELSE "expr"
Tokens(what, n, st) == RN(n, IF what = "query" THEN 1 ELSE 0, st)
Render(what, n, st) == TokText(Tokens(what, n, st), st)

Style(par, kw, sep, alt, quo) == [par |-> par, kw |-> kw, sep |-> sep, alt |-> alt, quo |-> quo]
Styles == << Style("min", "up", "sp", 0, FALSE), Style("full", "low", "tight", 1, FALSE), Style("min", "low", "tight", 2, TRUE),
             Style("min", "up", "com", 1, TRUE), Style("full", "up", "nl", 0, TRUE), Style("min", "low", "nl", 1, FALSE),
             Style("full2", "up", "sp", 2, FALSE) >>
=============================================================================
