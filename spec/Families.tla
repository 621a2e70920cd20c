------------------------------ MODULE Families ------------------------------
(* Complete families of trees and texts: all combinations of the parts of one     *)
(* construct.  Each is a set of initial trees; walks and extensions start from it. *)
EXTENDS Templates, Render
Txt(what, s) == N("Text", <<what, s>>, <<>>)
SeqsUpTo(set, k) == UNION {[1..i -> set] : i \in 0..k}
Range1(s) == {s[i] : i \in 1..Len(s)}

(* ------------------------------------------- clauses: present and absent *)
Cte1 == ARelN("na0", <<>>, SelT(0, 2))
Opt(x) == {None, x}
ClauseFamily(zz) ==
  {SelX(q, off, lim, with, order, sel, from, where, group, having, wins) :
     q \in {"ALL", "DISTINCT"}, off \in {"", "2"}, lim \in {"", "3"}, with \in {<<>>, <<Cte1>>}, order \in {<<>>, <<Ord(0, 3)>>},
     sel \in {<<F(0, 1)>>}, from \in Opt(Tab(0, 1)), where \in Opt(F(0, 4)), group \in Opt(GB("ALL", <<GS(<<F(0, 5)>>)>>)),
     having \in Opt(F(0, 6)), wins \in {<<>>, <<N("WinDef", <<"w">>, <<DefaultWindow("")>>)>>}}
  \cup {[q EXCEPT !.a[2] = off, !.a[3] = lim, !.c[1] = List(with), !.c[2] = List(order)] :
     q \in {TabQ(0, 1), Vals(<<F(0, 1)>>), Set2("Union", "ALL", 0), Set2("Union", "DISTINCT", 0), Set2("Intersect", "DISTINCT", 0), Set2("Except", "DISTINCT", 0)},
     off \in {"", "2", "0"}, lim \in {"", "3", "0"}, with \in {<<>>, <<Cte1>>}, order \in {<<>>, <<Ord(0, 3)>>}}

(* ------------------------------------------------------------- grouping *)
GElems == Range1(Templates("g", 0)) \cup {GS(<<X1("Row", 0)>>), GS(<<N("Row", <<>>, <<F(0, 1), F(0, 2), F(0, 3)>>)>>), N("Rollup", <<>>, <<F(0, 1)>>), N("Cube", <<>>, <<X2("Row", 0), F(0, 3)>>),
  N("GSets", <<>>, <<GS(<<>>), GS(<<F(0, 1)>>), GS(<<F(0, 1), F(0, 2)>>), GS(<<X2("Row", 0)>>)>>)}
GroupFamily(zz) == {GB(q, s) : q \in {"ALL", "DISTINCT"}, s \in {x \in SeqsUpTo(GElems, 2) : x # <<>>}}
GSetsFamily(zz) == {N("GSets", <<>>, s) : s \in {x \in SeqsUpTo(Range1(Templates("gs", 0)), 3) : x # <<>>}}

(* -------------------------------------------------------------- windows *)
Bounds(i) == {UnbP, UnbF, Cur, Off("PRECEDING", F(0, i)), Off("FOLLOWING", F(0, i)), Off("PRECEDING", IntL("0"))}
WinsOf(parents, units) ==
  {Win(pa, u, pt, od, s, e) : pa \in parents, u \in units, pt \in {<<>>, <<F(0, 1)>>, <<F(0, 1), F(0, 2)>>},
     od \in {<<>>, <<Ord(0, 3)>>, <<OrdX(0, 3, "DESC", "FIRST"), OrdX(0, 4, "ASC", "FIRST")>>}, s \in Bounds(5), e \in Bounds(6)}
WindowFamily(zz) == WinsOf({"", "w"}, {"RANGE", "ROWS", "GROUPS"})
OrderFamily(zz) == {OrdX(0, 1, d, n) : d \in {"ASC", "DESC"}, n \in {"FIRST", "LAST"}}

(* ---------------------------------------------------------------- calls *)
ArgsN(k) == [i \in 1..k |-> F(0, i)]
MaxOf(f) == IF Functions[f].hi > 4 THEN 4 ELSE Functions[f].hi
CallFamily(zz) ==
  UNION {{Fn(f, ArgsN(k)) : k \in Functions[f].lo..MaxOf(f)} : f \in FnNames}
  \cup {Fn("COUNT", <<N("Star", <<>>, <<>>)>>), Fn("COUNT", <<N("Star", <<"ta0">>, <<>>)>>)}
Aggs == {f \in FnNames : Functions[f].agg}
ModsOf(f, k) ==
  {FnX(f, "RESPECT", ArgsN(k), od, fi, wi) : od \in {<<>>, <<Ord(0, 5)>>, <<OrdX(0, 5, "DESC", "FIRST"), Ord(0, 6)>>}, fi \in Opt(F(0, 7)),
     wi \in {None, DefWin, DefaultWindow(""), Win("", "ROWS", <<F(0, 8)>>, <<Ord(0, 4)>>, Cur, UnbF)}}
  \cup {FnX(f, "IGNORE", ArgsN(k), od, fi, wi) : od \in {<<>>, <<Ord(0, 5)>>}, fi \in Opt(F(0, 7)), wi \in {DefWin, Win("w", "RANGE", <<F(0, 8)>>, <<>>, UnbP, Cur)}}
ModFamily(zz) == UNION {ModsOf(f, Functions[f].hi) : f \in Aggs}
ListAggFamily(zz) ==
  {N("ListAgg", <<s>> \o o, <<F(0, 1), List(od)>>) : s \in {"", ",", "it's", "\n"},
     o \in {<<"ERROR">>} \cup {<<"TRUNCATE", x, y>> : x \in {"", "...", "a'b"}, y \in {"WITH COUNT", "WITHOUT COUNT"}},
     od \in {<<Ord(0, 2)>>, <<OrdX(0, 2, "DESC", "FIRST"), Ord(0, 3)>>}}
ParenlessFamily(zz) == {N("DtFn", <<f, ToString(p)>>, <<>>) : f \in DtNames, p \in 0..12} \cup {N("DtFn", <<"CURRENT_DATE">>, <<>>)}
                   \cup {N("Sess", <<f>>, <<>>) : f \in SessNames}
                   \cup {N("Normalize", f, <<F(0, 1)>>) : f \in {<<>>, <<"NFD">>, <<"NFC">>, <<"NFKD">>, <<"NFKC">>}}
Mixed(s) == Cat([i \in 1..Len(s) |-> IF i % 2 = 0 THEN LoC(At(s, i)) ELSE At(s, i)])
Commas(k) == IF k = 0 THEN "" ELSE Cat(<<"x1">> \o [i \in 1..(k - 1) |-> ", x" \o ToString(i + 1)])
(* calls with every number of arguments and odd spellings and modifiers, valid or not *)
CallTexts(zz) ==
  {Txt("expr", f \o "(" \o Commas(k) \o ")") : f \in FnNames, k \in 0..6}
  \cup UNION {{Txt("expr", s \o "(" \o Commas(Functions[f].lo) \o ")") : s \in {ToLower(f), Mixed(f), "\"" \o f \o "\"", "\"" \o ToLower(f) \o "\"", f \o "X", "x." \o f, "\"" \o f \o "S\""}} : f \in FnNames}
  \cup UNION {{Txt("expr", f \o "(" \o p \o Commas(Functions[f].lo) \o q) : p \in {"", "ALL ", "DISTINCT "},
         q \in {")", " ORDER BY o)", ") FILTER (WHERE y)", ") OVER ()", ") OVER w", ") IGNORE NULLS OVER w", ") RESPECT NULLS OVER w", ") IGNORE NULLS", " ORDER BY o) FILTER (WHERE y) IGNORE NULLS OVER (PARTITION BY z)"}} : f \in FnNames}
  \cup {Txt("expr", f \o q) : f \in FnNames, q \in {"", "(*)", "(x.*)", "(*, a)", "(DISTINCT *)", "(* ORDER BY o)", "(*) FILTER (WHERE y)", "(*) IGNORE NULLS OVER w", "(*) OVER w", "(ORDER BY o)"}}
  \cup {Txt("expr", f \o q) : f \in DtNames \cup SessNames \cup {"CURRENT_DATE"}, q \in {"", "()", "(3)", "(12)", "(13)", "(x)", "(03)", "(-1)"}}

(* ---------------------------------------------------------------- names *)
NameSet == {"x", "X", "aB", "_", "_a1", "select", "SELECT", "table", "order", "date", "DATE", "row", "interval", "a b", " a", "a.b", "a\"b", "\"", "\"\"", "a'b", "'",
            "1", "1a", "a-b", "--", "/*", "a,b", "(", "*", "é", "漢字", "a\nb", "\t", "\\", "a\\b", "%", ";", "$x", "@", "#", "current_date", "CURRENT_DATE", "count", "LISTAGG", "normalize", "if", "null", "NULL", "true",
            "not", "in", "rows", "RANGE", "first", "last", "nulls", "over", "filter", "limit", "offset", "window", "tablesample", "lateral", "unnest", "array", "map", "e1", "E", "U&", "x'y", "interval '1' day", "a/**/b", "{", "$", "a0 b0"}
(* positions of names: <<path, index of the attribute>> *)
NameAttrs(n) ==
  CASE n.k \in {"Field", "As", "AStar", "Star", "Table", "ARel", "Using", "Lambda", "Var", "WinDef"} -> 1..Len(n.a)
    [] n.k = "Window" -> IF n.a[1] = "" THEN {} ELSE {1}
    [] OTHER -> {}
RECURSIVE NamesIn(_)
NamesIn(n) == {n.a[i] : i \in NameAttrs(n)} \cup UNION {NamesIn(n.c[i]) : i \in 1..Len(n.c)}
RECURSIVE Rename(_, _, _)
Rename(n, from, to) ==
  LET is == NameAttrs(n)
  IN [n EXCEPT !.a = [i \in 1..Len(n.a) |-> IF i \in is /\ n.a[i] = from THEN to ELSE n.a[i]],
               !.c = [i \in 1..Len(n.c) |-> Rename(n.c[i], from, to)]]
NameHosts ==
  {F(0, 1), N("Field", <<"a0", "b0">>, <<>>), N("Field", <<"a0">>, <<X2("Subscript", 1)>>), XLambda(0)[2], XLambda(0)[1],
   SelX("ALL", "", "", <<ARelN("n1", <<"k1", "k2">>, SelT(1, 1))>>, <<>>,
        <<N("As", <<"s1">>, <<F(0, 1)>>), N("Star", <<"t1">>, <<>>), N("AStar", <<"u1", "u2">>, <<N("Star", <<"t2">>, <<>>)>>),
          FnX("SUM", "RESPECT", <<F(0, 2)>>, <<>>, None, DefaultWindow("w1"))>>,
        JoinX("INNER", "", ARelN("r1", <<"c1", "c2">>, N("Table", <<"g1", "h1", "i1">>, <<>>)), Tab(0, 4), N("Using", <<"v1", "v2">>, <<>>)),
        None, None, None,
        <<N("WinDef", <<"w1">>, <<Win("", "RANGE", <<F(0, 3)>>, <<>>, UnbP, Cur)>>), N("WinDef", <<"w2">>, <<Win("w1", "ROWS", <<>>, <<>>, UnbP, Cur)>>)>>),
   N("TableQ", <<"", "", "">>, <<List(<<>>), List(<<>>), N("Table", <<"g1", "h1">>, <<>>)>>)}
NameFamily(zz) == UNION {UNION {{Rename(h, x, y) : y \in NameSet \ NamesIn(h)} : x \in NamesIn(h)} : h \in NameHosts}
(* unquoted words, as they are written *)
WordTexts(zz) == LET ws == {k : k \in KwDom} \cup {"x", "X", "aB", "_", "_a1", "x9", "Xx_", "a__", "E1", "x1e5", "e", "date1", "U", "X", "nfd"}
                 Lo(s) == ToLower(s)
             IN UNION {{Txt("expr", w), Txt("expr", Lo(w)), Txt("expr", "t." \o w), Txt("expr", w \o ".c"), Txt("query", "SELECT 1 AS " \o w), Txt("query", "SELECT 1 " \o w),
                        Txt("query", "SELECT 1 FROM " \o w), Txt("query", "SELECT 1 FROM t " \o w), Txt("query", "SELECT 1 FROM t AS " \o w \o " (" \o w \o ")"),
                        Txt("query", "SELECT 1 FROM a." \o w), Txt("query", "WITH " \o w \o " AS (SELECT 1) SELECT 2"), Txt("query", "SELECT sum(a) OVER " \o w),
                        Txt("query", "SELECT 1 FROM t WINDOW " \o w \o " AS ()"), Txt("query", "SELECT 1 FROM a JOIN b USING (" \o w \o ")"), Txt("expr", w \o " -> " \o w \o " + 1"),
                        Txt("query", "SELECT " \o w \o ".*"), Txt("query", "SELECT sum(a) OVER (" \o w \o ")"), Txt("expr", "(" \o w \o ", y) -> y")} : w \in ws}

(* --------------------------------------------------------------- literals *)
StrAlphabet == {"a", "'", "\"", "\\", "\n", " ", "-", "é", "/", "*", ";", "%", "\t", "U", "&"}
StringsUpTo(k) == {Cat(s) : s \in SeqsUpTo(StrAlphabet, k)}
LitHosts(s) == {Strl(s)}
StringFamily(k) == {Strl(s) : s \in StringsUpTo(k)}
MoreStrings == {"漢字", "αβ", "\r\n", "''", "it''s", "a'b'c", "\\0041", "--x", "/* x */", "\"q\"", "  two  spaces ", "\t\ttabs", "line1\n\nline3", "U&'x'", "'--'", "';", "{}", "%s", "{0}", "\\n", "\\'", "null", "TRUE", "1", "é€",
                "a'/**/'b", "x'--", "\n  indented\n    more", "SELECT ' FROM", "'' ''"}
StringHosts(s) == {Strl(s), N("TypeCons", <<"VARCHAR", s>>, <<>>), N("TypeCons", <<"JSON", s>>, <<>>), N("Like", <<>>, <<F(0, 1), Strl(s), Strl(s)>>),
                   N("ListAgg", <<s, "TRUNCATE", s, "WITH COUNT">>, <<F(0, 1), List(<<Ord(0, 2)>>)>>),
                   N("Interval", <<s, "DAY", "">>, <<>>)}
(* texts with blanks and line breaks everywhere a query can hold one *)
NestIn(x, k) == IF k = 0 THEN x
  ELSE CASE k % 4 = 0 -> SelX("ALL", "", "", <<>>, <<Ord(k, 1)>>, <<x, F(k, 2)>>, Tab(k, 1), N("And", <<>>, <<F(k, 3), N("Eq", <<>>, <<x, F(k, 4)>>)>>), None, None, <<>>)
                [] k % 4 = 1 -> N("And", <<>>, <<F(k, 1), N("InQuery", <<>>, <<F(k, 2), SelX("ALL", "", "", <<>>, <<>>, <<IF x.k \in QueryKinds THEN N("As", <<"s">>, <<x>>) ELSE x>>, Tab(k, 1), None, None, None, <<>>)>>)>>)
                [] k % 4 = 2 -> N("Case", <<>>, <<None, x, N("When", <<>>, <<N("Or", <<>>, <<F(k, 1), x>>), x>>)>>)
                [] OTHER -> SelX("ALL", "", "", <<ARelN("n0", <<>>, SelX("ALL", "", "", <<>>, <<>>, <<x>>, None, None, None, None, <<>>))>>, <<>>, <<FnX("SUM", "RESPECT", <<x>>, <<>>, N("Eq", <<>>, <<x, x>>), None)>>,
                       JoinX("LEFT", "", Tab(k, 1), ARelN("r1", <<>>, SelX("ALL", "", "", <<>>, <<>>, <<x>>, Tab(k, 2), N("And", <<>>, <<F(k, 1), x>>), None, None, <<>>)), N("On", <<>>, <<N("And", <<>>, <<x, F(k, 2)>>)>>)), x, GB("ALL", <<GS(<<x>>)>>), x, <<>>)
Multilines == {"a \n b", "\n", " \n", "\n ", "\n\n", "a\n    b\n", "\t\n\t", "x\r\ny", "'\n'", "\"\n\"", "a\n--b\n", "(\n", ",\n,", "\n)", " \n AND \n ", "  "}
MultilineFamily(zz) == UNION {UNION {{NestIn(x, k) : k \in 1..4} \cup {NestIn(NestIn(x, 1), 4), NestIn(NestIn(x, 4), 5)} : x \in {Strl(t), N("Field", <<t>>, <<>>)}} : t \in Multilines}
                       \cup UNION {{NestIn(N("As", <<t>>, <<Strl(t)>>), 0), SelX("ALL", "", "", <<ARelN(t, <<t>>, SelX("ALL", "", "", <<>>, <<>>, <<N("As", <<t>>, <<Strl(t)>>)>>, ARelN(t, <<>>, N("Table", <<t>>, <<>>)), None, None, None, <<>>))>>,
                           <<>>, <<F(0, 1), FnX("SUM", "RESPECT", <<F(0, 2)>>, <<>>, None, DefaultWindow(t))>>, ARelN(t, <<t, "x">>, SelT(0, 1)), None, None, None, <<N("WinDef", <<t>>, <<DefaultWindow("")>>)>>)} : t \in Multilines}
IntervalOK(s) == At(s, 1) # "+"
StringUses(zz) == UNION {{h \in StringHosts(s) : h.k = "Interval" => IntervalOK(s)} : s \in MoreStrings \cup StringsUpTo(1)}
Digits1 == {"0", "1", "7", "9", "10", "00", "007", "100", "120", "2147483647", "2147483648", "9223372036854775807", "9223372036854775808", "12345678901234567890123456789012345678",
            "99999999999999999999999999999999999999", "100000000000000000000"}
Fracs == {"", "0", "00", "5", "50", "05", "25", "123456789", "000001", "000000000000000001"}
Exps == {"0", "1", "10", "-1", "+5", "-10", "22", "007", "300", "-300"}
NumTexts(zz) == {w : w \in Digits1} \cup {w \o "." \o f : w \in Digits1 \cup {""}, f \in Fracs}
            \cup {w \o "E" \o x : w \in {"0", "1", "7", "15", "100", "007", "123456789"}, x \in Exps} \cup {w \o "." \o f \o "E" \o x : w \in {"0", "1", "12", ""}, f \in {"", "0", "5", "50", "05", "123"}, x \in Exps}
            \cup {"1e5", "1.e", "1.5e3", "1_000", ".", "1E", "1E+", "1.2.3", "1..2", "0x10", "1a", "1.5a"}
NumberTexts(zz) == {Txt("expr", s \o t) : s \in {"", "-", "+", "- ", "--", "- -", "-(", "a-", "a -", "a - -", "1+", "NOT "}, t \in NumTexts(0)}
IntDig == {"0", "1", "7", "2147483647", "2147483648", "9223372036854775807", "9223372036854775808", "100000000000000000000", "99999999999999999999999999999999999999"}
NumberFamily(zz) ==
  {N("Lit", <<"int", s, g>>, <<>>) : s \in {"", "-"}, g \in IntDig \ {"0"}} \cup {IntL("0")}
  \cup {N("Lit", <<"dec", s, g, ToString(k)>>, <<>>) : s \in {"", "-"}, g \in {"1", "5", "10", "100", "150", "12345", "12345678901234567890"}, k \in {0, 1, 2, 3, 5, 8, 12, 20}}
  \cup {N("Lit", <<"dec", "", "0", ToString(k)>>, <<>>) : k \in {0, 1, 3}}
  \cup {N("Lit", <<"dbl", s, g, ToString(k)>>, <<>>) : s \in {"", "-"}, g \in {"1", "15", "123", "123456789", "9007199254740993"} \ {"9007199254740993"}, k \in {0 - 300, 0 - 20, 0 - 8, 0 - 7, 0 - 5, 0 - 4, 0 - 3, 0 - 1, 0, 1, 2, 5, 8, 14, 15, 16, 17, 20, 22, 23, 100, 290}}
  \cup {N("Lit", <<"dbl", "", "0", "0">>, <<>>), N("Lit", <<"null">>, <<>>), N("Lit", <<"bool", "TRUE">>, <<>>), N("Lit", <<"bool", "FALSE">>, <<>>)}
NumberUses(zz) == UNION {{l, N("Add", <<>>, <<F(0, 1), l>>), N("Sub", <<>>, <<F(0, 1), l>>), N("Neg", <<>>, <<l>>), N("Pos", <<>>, <<l>>), N("Mul", <<>>, <<l, F(0, 1)>>),
                      N("Subscript", <<>>, <<F(0, 1), l>>), N("Eq", <<>>, <<l, l>>), N("Array", <<>>, <<l, l>>)} : l \in NumberFamily(0)}
UTexts(zz) == {Txt("expr", t) : t \in {"U&'\\0041'", "U&'a\\00e9b'", "U&'\\+0020AC'", "U&'\\\\'", "U&'\\004'", "U&'\\'", "U&'!0041' UESCAPE '!'", "U&'!!' UESCAPE '!'", "U&'\\0041' UESCAPE '!'", "U&'a' UESCAPE ''", "U&'a' UESCAPE 'ab'",
   "U&'\\0027'", "U&'it''s'", "u&'\\0041'", "U &'a'", "U& 'a'", "U&''", "U&'\\6F22\\5b57'", "X'00'", "x'0'", "'a' 'b'", "'a'\n'b'", "'a''b'", "'", "'a", "''", "''''", "'''", "E'a'", "N'a'", "b'1'", "'\\n'", "TRUE", "true", "Null", "NULLS", "tRue", "UNKNOWN",
   "U&'!003b' UESCAPE '!'", "U&'x\\+00000a'", "U&'\\D83D'"}}
TypedTexts(zz) == {Txt("expr", ty \o " " \o v) : ty \in {"DATE", "TIME", "TIMESTAMP", "DECIMAL", "BIGINT", "CHAR", "VARCHAR", "JSON", "DOUBLE", "DOUBLE PRECISION", "REAL", "BOOLEAN", "UUID", "IPADDRESS", "INTEGER", "ARRAY", "MAP", "ROW", "foo", "date", "\"date\"", "TIMESTAMP WITH TIME ZONE", "DECIMAL(3,1)", "interval", "UNKNOWN", "VARBINARY", "QDIGEST", "HyperLogLog"},
                v \in {"'1'", "'2020-01-01'", "''", "'1.5'", "'-1.5'", "'x'", "'.5'", "'5.'", "'1e5'", "U&'\\0031'", "'+7'", "'1.2.3'", "'10:00:00.123'", "'it''s'", "1", "a", "( '1' )"}}
IntervalTexts(zz) == {Txt("expr", "INTERVAL " \o s \o " " \o f) : s \in {"'1'", "-'1'", "+'1'", "'-1'", "-'-1'", "+'-1'", "'+1'", "-'+1'", "'1-2'", "'1 2:3:4.5'", "''", "--'1'", "U&'1'", "1", "- '1'", "'--1'", "'++1'"},
                    f \in {"DAY", "YEAR", "MONTH", "HOUR", "MINUTE", "SECOND", "day", "YEAR TO MONTH", "DAY TO SECOND", "DAY TO HOUR", "MONTH TO YEAR", "WEEK", "", "DAYS", "DAY TO", "YEAR TO YEAR", "QUARTER"}}

(* ------------------------------------------------------------------ types *)
TypeHeads == SimpleTypes \cup {"DECIMAL", "VARCHAR", "CHAR", "TIME", "TIMESTAMP", "ARRAY", "MAP", "ROW", "QDIGEST", "FOO", "DOUBLE PRECISION", "INTERVAL", "INT", "STRING", "TEXT", "NUMERIC", "DEC", "\"ROW\"", "\"TIME\"", "\"ARRAY\""}
TypeArgs == {"", "()", "(0)", "(1)", "(2)", "(3)", "(12)", "(13)", "(38)", "(39)", "(65536)", "(65537)", "(2147483646)", "(2147483647)", "(99999999999)", "(007)", "(-1)", "(1.5)", "(x)", "('1')", "(1,0)", "(1,1)", "(1,2)", "(0,0)", "(38,0)", "(38,38)", "(38,39)",
             "(39,0)", "(10,-1)", "(5,2,1)", "(10,)", "(,2)", "(BIGINT)", "(VARCHAR(5))", "(DECIMAL(39))", "(BIGINT, DATE)", "(BIGINT, 3)", "(3, BIGINT)", "(BIGINT, DATE, REAL)", "(foo)", "(ARRAY(DATE))", "(x BIGINT)", "(DATE))", "((DATE))", "(3", ")"}
TypeTexts(zz) == {Txt("type", h \o a) : h \in TypeHeads, a \in TypeArgs}
  \cup {Txt("type", h \o a) : h \in {"TIME", "TIMESTAMP", "DATE", "BIGINT", "time", "TIME(3)", "TIMESTAMP(12)", "TIME (0)", "\"time\""}, a \in {" WITH TIME ZONE", " WITHOUT TIME ZONE", " WITH TIME", " TIME ZONE", " WITH ZONE", " WITH TIME ZONE (3)", " WITH TIME ZONE ARRAY", " ARRAY", " ARRAY ARRAY", " ARRAY[3]", "[]", "(3) WITH TIME ZONE"}}
  \cup {Txt("type", "INTERVAL " \o f \o t) : f \in {"YEAR", "MONTH", "DAY", "HOUR", "MINUTE", "SECOND", "WEEK"}, t \in {"", " TO YEAR", " TO MONTH", " TO DAY", " TO HOUR", " TO MINUTE", " TO SECOND"}}
  \cup {Txt("type", c \o "(" \o x \o ")") : c \in {"ARRAY", "QDIGEST", "ROW"}, x \in {"DECIMAL(39)", "DECIMAL(38,38)", "TIME(13)", "CHAR(0)", "ROW(DATE)", "ROW()", "MAP(DATE)", "MAP(DATE,DATE)", "INTERVAL DAY TO SECOND", "INTERVAL DAY", "DOUBLE PRECISION", "TIMESTAMP(3) WITH TIME ZONE", "DATE ARRAY", "FOO", "VARCHAR(x)", "bigint, bigint", ""}}
TypeCasts(zz) == {Txt("expr", "CAST(a AS " \o n.a[2] \o ")") : n \in {m \in TypeTexts(0) : Len(m.a[2]) < 24}}

(* --------------------------------------------- what cannot be represented *)
UnsupX == {"EXISTS (SELECT 1)", "a = ALL (SELECT 1)", "a > ANY (SELECT 1)", "a <> SOME (SELECT 1)", "?", "a AT TIME ZONE 'UTC'", "a AT TIME ZONE INTERVAL '1' HOUR", "EXTRACT(YEAR FROM a)", "POSITION('a' IN b)", "SUBSTRING(a FROM 1)", "SUBSTRING(a FROM 1 FOR 2)",
           "TRIM(a)", "GROUPING(a)", "GROUPING(a, b)", "a.b.c", "a.b.c.d", "COUNT(DISTINCT a)", "SUM(DISTINCT a)", "LISTAGG(DISTINCT a) WITHIN GROUP (ORDER BY a)", "X'00'", "CURRENT_PATH", "a IN ()", "f()", "foo(a)", "s.f(a)", "a[1:2]", "a[1, 2]", "CAST(a AS FOO)", "CAST(a AS BIGINT(3))", "ARRAY[]", "ROW()", "()", "a BETWEEN b", "a LIKE", "CASE END", "CASE a END", "CASE WHEN a END", "CASE WHEN a THEN b", "NOT", "a IS", "a IS NOT", "a IS DISTINCT b", "a NOT b", "a = b = c", "a < b < c", "a BETWEEN b AND c BETWEEN d AND e", "a IN b", "a -> b -> c", "x -> (SELECT 1)", "(a, a) -> a", "(1) -> a",
           "SUM(a) WITHIN GROUP (ORDER BY b)", "LISTAGG(a)", "LISTAGG(a, b) WITHIN GROUP (ORDER BY a)", "RUNNING SUM(a)", "FINAL SUM(a)", "MATCH_NUMBER()", "CLASSIFIER()", "PREV(a)", "LAG(a)", "RANK() OVER w", "JSON_EXISTS(a, b)", "TRY(a, b)", "a::bigint", "a ^ b", "a | b", "a & b", "~a", "!a", "a == b", "a ! = b", "a < > b", "a || ", "|| a", "a + ", "* a", "a * * b", "(a", "a)", "(a))", "[a]", "{a}", "a;", "a b", "a, b", "1 2", "'a' b", "a 'b' c", "NULL NULL", "a..b", "a.", ".a", "a.1", "1.a", "a.'b'", "*", "t.*", "a AS b", "NORMALIZE(a, FOO)", "NORMALIZE(a, 'NFD')", "CURRENT_DATE(3)", "CURRENT_USER()", "LOCALTIME(13)", "INTERVAL '1'", "INTERVAL 1 DAY", "DATE 5", "INTERVAL '1' DAY DAY", "a IS NULL NULL", "a IS NOT NOT NULL", "NOT NOT", "COALESCE()", "COALESCE(a)", "IF(a)", "NULLIF(a)", "IF(a, b, c, d)", "SUM(a) OVER", "SUM(a) OVER (w PARTITION BY)", "SUM(a) OVER (ORDER BY)", "SUM(a) OVER (ROWS)", "SUM(a) OVER (ROWS BETWEEN CURRENT ROW)", "SUM(a) OVER (ROWS CURRENT ROW AND CURRENT ROW)", "SUM(a) OVER (ROWS 1)", "SUM(a) FILTER (y)", "SUM(a) FILTER (WHERE)", "SUM(a ORDER BY)", "SUM(a,)", "SUM(,a)", "SUM(a b)", "SUM a", "SUM(a) OVER w w2", "SUM(a) OVER (ROWS BETWEEN 1 PRECEDING AND 1 FOLLOWING EXCLUDE TIES)", "SUM(a) OVER (MEASURES x AS y)",
           "a LIKE b ESCAPE", "a NOT IS NULL", "a IS TRUE", "a ISNULL", "a NOTNULL", "a SIMILAR TO b", "a REGEXP b", "a ILIKE b", "TIMESTAMP 'x' 'y'", "TABLE t", "SELECT 1", "(TABLE t)", "(VALUES 1)", "CAST(a BIGINT)", "CAST(a AS)", "TRY_CAST(a)", "CAST(a AS BIGINT) AS b", "CASE a WHEN b THEN c ELSE END", "", " ", "--", "/*", "/* */", "a /* b", "a -- b", "a --\n b", "\"a", "\"\"", "`a`", "a\\b", "@a", "#a", "$1", "a$b", ":a"}
UnsupQ == {"SELECT", "SELECT FROM t", "SELECT a,", "SELECT ,a", "SELECT a FROM", "SELECT a FROM t,", "SELECT a FROM t, u", "SELECT a FROM t WHERE", "SELECT a WHERE b FROM t", "SELECT a FROM t WHERE b WHERE c", "SELECT a FROM t GROUP BY", "SELECT a FROM t GROUP BY ROLLUP()", "SELECT a FROM t GROUP BY ()", "SELECT a FROM t GROUP BY GROUPING SETS ()", "SELECT a FROM t HAVING", "SELECT a HAVING b GROUP BY c", "SELECT a ORDER BY b LIMIT", "SELECT a LIMIT b", "SELECT a LIMIT -1", "SELECT a LIMIT 1.5", "SELECT a LIMIT ALL", "SELECT a LIMIT ?", "SELECT a OFFSET ?", "SELECT a LIMIT 1 OFFSET 2", "SELECT a LIMIT 1 LIMIT 2", "SELECT a OFFSET 1 OFFSET 2", "SELECT a LIMIT 1 ORDER BY b", "SELECT a OFFSET 1 ORDER BY b", "SELECT a FETCH FIRST ROW ONLY", "SELECT a FETCH NEXT 3 ROWS ONLY", "SELECT a FETCH FIRST 3 ROWS WITH TIES", "SELECT a FETCH FIRST 3", "SELECT a FETCH FIRST ? ROWS ONLY", "SELECT a LIMIT 1 FETCH FIRST ROW ONLY", "SELECT a OFFSET 1 ROW LIMIT 2", "SELECT a OFFSET 2 ROWS FETCH NEXT ROW ONLY",
           "WITH x AS (SELECT 1)", "WITH RECURSIVE x AS (SELECT 1) SELECT 2", "WITH x (a) AS (SELECT 1) SELECT 2", "WITH x () AS (SELECT 1) SELECT 2", "WITH x AS SELECT 1 SELECT 2", "WITH x AS (SELECT 1), SELECT 2", "WITH x AS (SELECT 1) WITH y AS (SELECT 2) SELECT 3", "(WITH x AS (SELECT 1) SELECT 2)", "(WITH x AS (SELECT 1) SELECT 2) UNION SELECT 3", "SELECT 1 UNION (WITH x AS (SELECT 1) SELECT 2)", "SELECT 1 UNION WITH x AS (SELECT 1) SELECT 2", "WITH x AS (WITH y AS (SELECT 1) SELECT 2) SELECT 3", "SELECT 1 INTERSECT ALL SELECT 2", "SELECT 1 EXCEPT ALL SELECT 2", "SELECT 1 EXCEPT DISTINCT SELECT 2", "SELECT 1 INTERSECT DISTINCT SELECT 2", "SELECT 1 UNION", "UNION SELECT 1", "SELECT 1 UNION UNION SELECT 2", "SELECT 1 MINUS SELECT 2", "SELECT 1 UNION ALL DISTINCT SELECT 2", "(SELECT 1 LIMIT 1) LIMIT 2", "(SELECT 1 ORDER BY a) ORDER BY b", "(SELECT 1 LIMIT 1) ORDER BY b", "(SELECT 1 OFFSET 1) LIMIT 2", "(SELECT 1) LIMIT 2", "((SELECT 1)) LIMIT 2", "((SELECT 1 LIMIT 2))", "(SELECT 1 UNION SELECT 2) LIMIT 3", "(SELECT 1 LIMIT 1) UNION (SELECT 2 LIMIT 2) LIMIT 3", "SELECT 1 LIMIT 1 UNION SELECT 2", "SELECT 1 ORDER BY a UNION SELECT 2",
           "SELECT a FROM t TABLESAMPLE BERNOULLI", "SELECT a FROM t TABLESAMPLE BERNOULLI (10) (20)", "SELECT a FROM t TABLESAMPLE FOO (10)", "SELECT a FROM t TABLESAMPLE BERNOULLI (10) TABLESAMPLE SYSTEM (20)", "SELECT a FROM (t TABLESAMPLE BERNOULLI (10)) TABLESAMPLE SYSTEM (20)", "SELECT a FROM t TABLESAMPLE BERNOULLI (10) x", "SELECT a FROM t x TABLESAMPLE BERNOULLI (10)", "SELECT a FROM t MATCH_RECOGNIZE (PATTERN (A) DEFINE A AS TRUE)", "SELECT a FROM t JOIN u", "SELECT a FROM t LEFT JOIN u", "SELECT a FROM t CROSS JOIN u ON a", "SELECT a FROM t NATURAL JOIN u ON a", "SELECT a FROM t NATURAL CROSS JOIN u", "SELECT a FROM t JOIN u ON a USING (b)", "SELECT a FROM t JOIN u USING ()", "SELECT a FROM t JOIN u USING (a.b)", "SELECT a FROM t JOIN u ON", "SELECT a FROM t OUTER JOIN u ON a", "SELECT a FROM t INNER OUTER JOIN u ON a", "SELECT a FROM t LEFT OUTER JOIN u ON a", "SELECT a FROM t FULL JOIN u USING (a)", "SELECT a FROM JOIN u", "SELECT a FROM t JOIN ON a", "SELECT a FROM t JOIN u JOIN v ON a ON b", "SELECT a FROM t JOIN (u JOIN v ON a) ON b", "SELECT a FROM t JOIN u ON a JOIN v ON b", "SELECT a FROM t CROSS JOIN u CROSS JOIN v", "SELECT a FROM t CROSS JOIN (u CROSS JOIN v)",
           "SELECT a FROM UNNEST()", "SELECT a FROM UNNEST(x) WITH", "SELECT a FROM UNNEST(x) WITH ORDINALITY", "SELECT a FROM UNNEST(x) ORDINALITY", "SELECT a FROM LATERAL t", "SELECT a FROM LATERAL (t)", "SELECT a FROM LATERAL (SELECT 1) l", "SELECT a FROM TABLE(f(x))", "SELECT a FROM ONLY t", "SELECT a FROM a.b.c.d", "SELECT a FROM (t)", "SELECT a FROM ((t))", "SELECT a FROM (t) x", "SELECT a FROM (t x) y", "SELECT a FROM (t JOIN u ON a) x", "SELECT a FROM t x y", "SELECT a FROM t AS", "SELECT a FROM t ()", "SELECT a FROM t x ()", "SELECT a FROM t (b)", "SELECT a FROM t FOR VERSION AS OF 1", "SELECT a FROM SELECT 1", "SELECT a FROM (SELECT 1)", "SELECT a FROM ((SELECT 1))", "SELECT a FROM ((SELECT 1) UNION SELECT 2)", "SELECT a FROM (VALUES 1) x", "SELECT a FROM (TABLE t)", "SELECT a FROM VALUES 1", "TABLE", "TABLE t t", "TABLE t LIMIT 1", "TABLE (t)", "TABLE a.b.c", "VALUES", "VALUES ()", "VALUES 1", "VALUES (1), (2)", "VALUES (1, 2), (3, 4)", "VALUES 1 LIMIT 1", "VALUES ROW(1)", "VALUES 1,",
           "SELECT a.b.* FROM t", "SELECT a.* b FROM t", "SELECT a.* AS b FROM t", "SELECT a.* AS (b) FROM t", "SELECT a.* AS () FROM t", "SELECT * AS (b) FROM t", "SELECT *, a FROM t", "SELECT * a", "SELECT * * FROM t", "SELECT (a).* FROM t", "SELECT f(a).* FROM t", "SELECT lower(a).* FROM t", "SELECT a AS b AS c", "SELECT a b c", "SELECT a AS 'b'", "SELECT a AS b.c", "SELECT DISTINCT ALL a", "SELECT ALL a", "SELECT ALL DISTINCT a", "SELECT DISTINCT ON (a) b", "SELECT DISTINCT", "SELECT ALL", "SELECT ALL FROM t", "SELECT TOP 5 a", "SELECT a INTO b", "SELECT a FROM t FOR UPDATE", "SELECT a FROM t WINDOW w AS (), w AS ()", "SELECT a FROM t WINDOW w AS (), w2 AS (w)", "SELECT a FROM t WINDOW w", "SELECT a FROM t WINDOW w AS", "SELECT a FROM t WINDOW AS ()", "SELECT a FROM t WINDOW w AS () WHERE b", "SELECT a FROM t QUALIFY b", "SELECT a;", "SELECT a;;", "SELECT a; SELECT b", ";", "SELECT a ;", "SELECT a) ", "(SELECT a", "((SELECT a)", "(SELECT a));", "DELETE FROM t", "INSERT INTO t SELECT 1", "INSERT INTO t VALUES 1", "UPDATE t SET a = 1", "CREATE TABLE t AS SELECT 1", "DROP TABLE t", "SHOW TABLES", "EXPLAIN SELECT 1", "USE x", "DESCRIBE t", "SET SESSION a = 1", "CALL f()", "EXECUTE x", "PREPARE x FROM SELECT 1", "COMMIT", "ANALYZE t", "a", "1", "", "SELECT a ORDER BY", "SELECT a ORDER BY b ASC DESC", "SELECT a ORDER BY b NULLS", "SELECT a ORDER BY b NULLS FIRST LAST", "SELECT a ORDER BY b, ", "SELECT a ORDER a", "SELECT a GROUP a", "SELECT a GROUP BY ALL b", "SELECT a GROUP BY DISTINCT b", "SELECT a GROUP BY ALL", "SELECT a GROUP BY b, ()", "SELECT a GROUP BY (b, c), d", "SELECT a GROUP BY ((b, c))", "SELECT a GROUP BY (b)", "SELECT a GROUP BY CUBE(b), ROLLUP(c)", "SELECT a GROUP BY CUBE b", "SELECT a GROUP BY GROUPING SETS (b, (c, d), ())", "SELECT a GROUP BY GROUPING SETS b", "SELECT a GROUP BY GROUPING SETS (CUBE(b))", "SELECT a GROUP BY ROLLUP((b, c), d)", "SELECT a GROUP BY b HAVING c HAVING d"}
Wraps == {<<"", "">>, <<"(", ")">>, <<"1 + ", "">>, <<"NOT ", "">>, <<"COALESCE(a, ", ")">>, <<"CASE WHEN ", " THEN 1 END">>}
UnsupTexts(zz) == {Txt("expr", w[1] \o x \o w[2]) : w \in Wraps, x \in UnsupX} \cup {Txt("query", q) : q \in UnsupQ}
  \cup {Txt("query", "SELECT " \o x \o " FROM t") : x \in UnsupX} \cup {Txt("query", "SELECT 1 FROM t WHERE " \o x) : x \in UnsupX}
  \cup {Txt("query", "SELECT 1 FROM (" \o q \o ") x") : q \in UnsupQ} \cup {Txt("expr", "a IN (" \o q \o ")") : q \in UnsupQ} \cup {Txt("query", "WITH x AS (" \o q \o ") SELECT 1") : q \in UnsupQ}
  \cup {Txt("query", q \o " UNION " \o q) : q \in UnsupQ} \cup {Txt("query", "(" \o q \o ")") : q \in UnsupQ} \cup {Txt("expr", x \o " AND " \o x) : x \in UnsupX} \cup {Txt("query", q \o " LIMIT 4") : q \in UnsupQ} \cup {Txt("query", q \o " trailing") : q \in UnsupQ}

(* ------------------------------------------------- what a caller spells *)
(* programs over the objects 1 to 3 *)
PyRef(i) == N("PyRef", <<ToString(i)>>, <<>>)
PyV(a) == N("PyVal", a, <<>>)
PyB(op, l, r) == N("PyBin", <<op>>, <<l, r>>)
PyU(op, x) == N("PyUn", <<op>>, <<x>>)
BinOps == {"+", "-", "*", "/", "%", "**", "==", "!=", "<", "<=", ">", ">=", "&", "|"}
UnOps == {"+", "-", "~"}
Values1 == {<<"int", "", "0">>, <<"int", "", "1">>, <<"int", "-", "5">>, <<"int", "", "2147483648">>, <<"dec", "", "150", "2">>, <<"dec", "-", "5", "1">>, <<"dec", "", "0", "1">>, <<"dbl", "", "15", "-1">>, <<"dbl", "-", "1", "22">>, <<"dbl", "", "0", "0">>,
            <<"bool", "TRUE">>, <<"bool", "FALSE">>, <<"str", "">>, <<"str", "it's">>, <<"str", "1">>, <<"str", "a">>, <<"str", "NULL">>}
NoValues == {<<"none">>, <<"list">>, <<"tuple">>, <<"dict">>, <<"object">>, <<"nan">>, <<"inf">>}
PyVals == {PyV(a) : a \in Values1 \cup NoValues}
OneOps == {PyB(op, PyRef(1), r) : op \in BinOps, r \in PyVals \cup {PyRef(1), PyRef(2), PyRef(3)}} \cup {PyU(op, PyRef(i)) : op \in UnOps, i \in 1..3}
(* constructors over Python values, wherever an expression is stored *)
RECURSIVE WrapPlaces(_, _)
WrapPlaces(n, path) ==      \* the places below n at which a plain value is made a literal
  LET kid(i) == IF n.k \in QueryKinds \/ n.c[i].k \in {"None", "Type"} \cup QueryKinds THEN {}
                ELSE IF n.c[i].k \in {"List", "Window", "BOff", "When"} THEN WrapPlaces(n.c[i], Append(path, i))
                ELSE IF n.k \in {"Row", "As", "Order", "Star", "AStar", "Field"} \/ (n.k = "Subscript" /\ i = 1) \/ (n.k = "Fn" /\ i > 1) \/ (n.k = "Lambda") \/ n.c[i].k = "Order" THEN {}
                ELSE {Append(path, i)}
  IN UNION {kid(i) : i \in 1..Len(n.c)}
RECURSIVE Calls1(_, _)
FnArgs(n) == IF n.k = "Fn" THEN {p \in WrapPlaces(n, <<>>) : p[1] = 1} ELSE {p \in WrapPlaces(n, <<>>) : ~(n.k = "ListAgg" /\ p[1] = 2)}
MayOmit(n, p) == (n.k = "Like" /\ p = <<3>>) \/ (n.k = "Case" /\ p = <<1>>) \/ (n.k = "Fn" /\ p[2] > 1)      \* None there means: none
Calls1(ts, i) == IF i > Len(ts) THEN {} ELSE {Put(ts[i], x[1], x[2]) : x \in {y \in FnArgs(ts[i]) \X PyVals : ~(MayOmit(ts[i], y[1]) /\ y[2].a[1] = "none")}} \cup Calls1(ts, i + 1)
MadeOps(zz) == Calls1(Templates("x", 0), 1) \cup UNION {{Put(Fn(f, ArgsN(k)), <<1, 1, i>>, v) : i \in 1..k, v \in {PyV(<<"int", "", "1">>), PyV(<<"str", "a">>), PyV(<<"list">>)}} : <<f, k>> \in UNION {{<<g, m>> : m \in {j \in Functions[g].lo..MaxOf(g) : j > 0}} : g \in FnNames}}
Programs(zz) == OneOps \cup {PyB(o1, PyB(o2, PyRef(1), PyRef(2)), r) : o1 \in BinOps, o2 \in BinOps, r \in {PyRef(3), PyV(<<"int", "", "7">>)}}
  \cup {PyB(o1, PyRef(1), PyB(o2, PyRef(2), r)) : o1 \in BinOps, o2 \in BinOps, r \in {PyRef(3), PyV(<<"str", "a">>)}}
  \cup {PyU(u, PyB(o, PyRef(1), PyRef(2))) : u \in UnOps, o \in BinOps} \cup {PyB(o, PyU(u, PyRef(1)), PyU(v, PyRef(2))) : u \in UnOps, v \in UnOps, o \in BinOps} \cup {PyU(u, PyU(v, PyRef(1))) : u \in UnOps, v \in UnOps}

Programs3(zz) == {PyB(o1, PyB(o2, PyRef(1), PyRef(2)), PyB(o3, PyRef(3), v)) : o1 \in BinOps, o2 \in BinOps, o3 \in BinOps, v \in {PyRef(1), PyV(<<"int", "", "7">>)}}
  \cup {PyB(o1, PyB(o2, PyB(o3, PyRef(1), PyRef(2)), PyRef(3)), PyV(<<"str", "a">>)) : o1 \in BinOps, o2 \in BinOps, o3 \in BinOps}
  \cup {PyB(o1, PyRef(1), PyB(o2, PyRef(2), PyB(o3, PyRef(3), PyV(<<"str", "a">>)))) : o1 \in BinOps, o2 \in BinOps, o3 \in BinOps}

(* --------------------------------------- what can and what cannot be built *)
TyRaw(n, a) == N("Type", <<n>> \o a, <<>>)
Nums == {"-1", "0", "1", "2", "12", "13", "37", "38", "39", "65536", "65537", "2147483646", "2147483647"}
FlatTypes(zz) == {TyRaw(n, <<>>) : n \in SimpleTypes \cup {"VARCHAR", "FOO", "INT", "", "STRING", "BIG INT", "DOUBLE PRECISION"}} \cup {TyRaw("DECIMAL", <<p, s>>) : p \in Nums, s \in Nums}
  \cup {TyRaw(n, <<p>>) : n \in {"VARCHAR", "CHAR", "BIGINT", "DATE", "DOUBLE", "UNKNOWN", "JSON"}, p \in Nums} \cup {TyRaw(n, <<"3">>) : n \in SimpleTypes} \cup {TyRaw(n, <<p, z>>) : n \in {"TIME", "TIMESTAMP"}, p \in Nums \cup {""}, z \in {"", "TZ"}}
  \cup {TyRaw("INTERVAL", <<f, t>>) : f \in {"YEAR", "MONTH", "DAY", "HOUR", "SECOND", "DECADE"}, t \in {"YEAR", "MONTH", "DAY", "HOUR", "SECOND"}}
SomeTypes == {Ty("BIGINT", <<>>), Ty("DECIMAL", <<"39", "0">>), Ty("DECIMAL", <<"5", "6">>), Ty("TIME", <<"13", "">>), Ty("FOO", <<>>), Ty("CHAR", <<"3">>), TyN("ARRAY", <<>>)}
ValidityFamily(zz) ==
  FlatTypes(0) \cup {TyN(n, s) : n \in {"ARRAY", "QDIGEST", "MAP", "ROW"}, s \in {x \in SeqsUpTo(SomeTypes, 2) : x # <<>>}} \cup {TyN("ARRAY", <<>>), TyN("MAP", <<>>), TyN("QDIGEST", <<>>)}
  \cup {TyN("ARRAY", <<TyN("MAP", <<Ty("DATE", <<>>), t>>)>>) : t \in FlatTypes(0)} \cup {N("Cast", <<>>, <<F(0, 1), t>>) : t \in {x \in FlatTypes(0) : x.a[1] # "UNKNOWN"}}
JoinValidity(zz) == {JoinX(t, nat, l, Tab(0, 2), c) : t \in {"INNER", "LEFT", "RIGHT", "FULL", "CROSS"}, nat \in {"", "NATURAL"}, l \in {Tab(0, 1), JoinX("CROSS", "", Tab(0, 3), Tab(0, 4), None)},
                             c \in {None, OnC(F(0, 5)), OnC(N("Lit", <<"bool", "FALSE">>, <<>>)), N("Using", <<"a0">>, <<>>), N("Using", <<"a0", "b0">>, <<>>)}}
Family(name) ==
  CASE name = "clauses" -> ClauseFamily(0)
    [] name = "groups" -> GroupFamily(0) \cup GSetsFamily(0)
    [] name = "windows" -> WindowFamily(0)
    [] name = "windefs" -> {N("WinDef", <<"w1">>, <<w>>) : w \in WinsOf({"", "w"}, {"RANGE", "GROUPS"})}
    [] name = "orders" -> OrderFamily(0)
    [] name = "calls" -> CallFamily(0) \cup ListAggFamily(0) \cup ParenlessFamily(0)
    [] name = "mods" -> ModFamily(0)
    [] name = "calltexts" -> CallTexts(0)
    [] name = "names" -> NameFamily(0)
    [] name = "words" -> WordTexts(0)
    [] name = "strings2" -> StringFamily(2) \cup StringUses(0)
    [] name = "multiline" -> MultilineFamily(0)
    [] name = "strings3" -> StringFamily(3)
    [] name = "numbertexts" -> NumberTexts(0)
    [] name = "numbers" -> NumberUses(0)
    [] name = "littexts" -> UTexts(0) \cup TypedTexts(0) \cup IntervalTexts(0)
    [] name = "typetexts" -> TypeTexts(0) \cup TypeCasts(0)
    [] name = "programs" -> Programs(0)
    [] name = "programs3" -> Programs3(0)
    [] name = "makes" -> MadeOps(0)
    [] name = "validtypes" -> ValidityFamily(0)
    [] name = "validjoins" -> JoinValidity(0)
    [] name = "unsup" -> UnsupTexts(0)
    [] OTHER -> {}
FamilyNames == {"clauses", "groups", "windows", "windefs", "orders", "calls", "mods", "calltexts", "names", "words", "strings2", "strings3", "multiline", "numbertexts", "numbers", "littexts", "typetexts", "unsup", "validtypes", "validjoins", "programs", "programs3", "makes"}
=============================================================================
