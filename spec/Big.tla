--------------------------------- MODULE Big ---------------------------------
(* Trees that are big in one respect: every list of every building block made long, *)
(* every building block put into itself many times over, and leaves with long or     *)
(* unusual texts.                                                                    *)
EXTENDS Families

(* the building blocks again, with the names of other leaves *)
Deepest == 40
Again1(sort) == TLCEval([d \in 0..Deepest |-> Templates(sort, d)])

(* --------------------------------------------------------------- long lists *)
ManyKinds == {"List", "Array", "Row", "InList", "GSet", "Rollup", "Cube", "GSets", "GroupBy", "Unnest", "Case"}
RECURSIVE ManyPaths(_, _)
ManyPaths(n, path) == (IF (n.k \in ManyKinds \/ (n.k = "Type" /\ n.a = <<"ROW">>)) /\ n.c # <<>> /\ n.c[Len(n.c)].k # "None" THEN {path} ELSE {})
                      \cup UNION {ManyPaths(n.c[i], Append(path, i)) : i \in 1..Len(n.c)}
Fresh(n, i) == IF n.k = "WinDef" THEN [n EXCEPT !.a = <<"x" \o ToString(i)>>] ELSE n       \* named once
(* the list at the path made m long, with the last items of the same list elsewhere *)
Stretch(ts, j, path, m) ==
  LET t == ts[0][j]
      l == Get(t, path)
      more == [i \in 1..(m - Len(l.c)) |-> LET o == Get(ts[1 + ((i - 1) % Deepest)][j], path) IN Fresh(o.c[Len(o.c)], i)]
  IN IF Len(l.c) >= m THEN t ELSE Put(t, path, [l EXCEPT !.c = l.c \o more])
StretchFamily(sort, ms) == LET ts == Again1(sort)
                           IN UNION {UNION {{Stretch(ts, j, p, m) : m \in ms} : p \in ManyPaths(ts[0][j], <<>>)} : j \in 1..Len(ts[0])}
(* lists of names *)
NameList(m) == [i \in 1..m |-> "n" \o ToString(i)]
LongNames(m) ==
  {JoinX("FULL", "", Tab(0, 1), Tab(0, 2), N("Using", NameList(m), <<>>)), ARelN("r", NameList(m), Tab(0, 2)),
   N("Lambda", NameList(m), <<F(0, 1)>>), SelX("ALL", "", "", <<>>, <<>>, <<N("AStar", NameList(m), <<N("Star", <<"t">>, <<>>)>>)>>, Tab(0, 1), None, None, None, <<>>),
   SelX("ALL", "", "", <<ARelN("c", NameList(m), SelT(0, 2))>>, <<>>, <<F(0, 1)>>, Tab(0, 1), None, None, None, <<>>)}

(* ---------------------------------------------------------------- deep nests *)
SlotsLike(t, sort) == SelectSeq(Slots(t), LAMBDA x : x[2] = sort)
RECURSIVE Nested(_, _, _, _)
Nested(ts, j, path, m) == IF m = 0 THEN ts[0][j] ELSE Put(ts[m][j], path, Nested(ts, j, path, m - 1))
NestFamily(sort, m) ==
  LET ts == Again1(sort)
  IN {n \in UNION {LET ss == SlotsLike(ts[0][j], sort) IN {Nested(ts, j, ss[i][1], m) : i \in 1..Len(ss)} : j \in 1..Len(ts[0])} : WF(n)}
(* two building blocks in turn *)
RECURSIVE Turned(_, _, _, _, _, _)
Turned(ts, j, p, k, q, m) == IF m = 0 THEN ts[0][j] ELSE Put(ts[m][j], p, Turned(ts, k, q, j, p, m - 1))
LogicRange == {j \in 1..Len(Templates("x", 0)) : Templates("x", 0)[j].k \in {"Neg", "Not", "IsNull", "Add", "Sub", "Mul", "Mod", "Eq", "Distinct", "And", "Or", "Between", "Like", "Subscript", "Case", "InList"}}
TurnFamily(m) ==
  LET ts == Again1("x")
      jp == UNION {{<<j, SlotsLike(ts[0][j], "x")[i][1]>> : i \in 1..Len(SlotsLike(ts[0][j], "x"))} : j \in LogicRange}
  IN {n \in {Turned(ts, x[1][1], x[1][2], x[2][1], x[2][2], m) : x \in {y \in jp \X jp : (y[1][1] + y[2][1]) % 3 = 0 /\ y[1][1] # y[2][1]}} : WF(n)}

(* ------------------------------------------------------------- unusual texts *)
RECURSIVE TimesOf(_, _)
TimesOf(s, m) == IF m = 0 THEN "" ELSE IF m = 1 THEN s ELSE TimesOf(s, m \div 2) \o TimesOf(s, m - (m \div 2))
OddTexts == {TimesOf("x", m) : m \in {8, 31, 32, 63, 64, 65, 127, 128, 129, 255, 256, 300}} \cup {TimesOf("ab ", 50), TimesOf("'", 40), TimesOf("\"", 40), TimesOf("é漢", 60), TimesOf("\n", 12), TimesOf("a\n", 30), TimesOf(" ", 33), TimesOf("--", 20)}
            \cup {"é", "ß", "İ", "ŉ", "ﬁ", "ǅ", "Σς", "i̇", "К", "٣", "²", "½", "１", "ａ", "　", "\f", "é", "€", "‘q’", "“q”", "–", "−1", "א", "한", "ー", "ſ", "K", "😀", "a𝔸b"}
OddNums == {N("Lit", <<"int", s, TimesOf("9", m)>>, <<>>) : s \in {"", "-"}, m \in {2, 5, 9, 10, 15, 16, 17, 18, 19, 20, 38, 39, 60}}
           \cup {N("Lit", <<"int", s, "1" \o TimesOf("0", m)>>, <<>>) : s \in {"", "-"}, m \in {1, 2, 3, 6, 9, 15, 16, 18, 19, 22, 38, 50}}
           \cup {N("Lit", <<"dec", s, "12345" \o TimesOf("6", m), p>>, <<>>) : s \in {"", "-"}, m \in {1, 12, 24, 33}, p \in {"1", "3", "6", "10"}}
           \cup {N("Lit", <<"dec", "", d, p>>, <<>>) : d \in {"1", "10", "7"}, p \in {"1", "3", "6", "7", "8", "20", "38"}}
           \cup {N("Lit", <<"dbl", s, d, p>>, <<>>) : s \in {"", "-"}, d \in {"1", "12345", "9007199"}, p \in {"1", "15", "16", "17", "21", "22", "-1", "-4", "-5", "-7", "100", "-100", "300"}}
TextHosts(s) ==
  {Strl(s), N("Eq", <<>>, <<F(0, 1), Strl(s)>>), N("Like", <<>>, <<Strl(s), Strl("p"), Strl("e")>>), N("TypeCons", <<"VARCHAR", s>>, <<>>), N("TypeCons", <<"JSON", s>>, <<>>),
   N("ListAgg", <<s, "TRUNCATE", s, "WITH COUNT">>, <<F(0, 1), List(<<Ord(0, 2)>>)>>), N("InList", <<>>, <<F(0, 1), Strl(s), Strl(s)>>), Fn("CONCAT", <<Strl(s), Strl("t")>>)}
NameHosts2(s) == {N("Field", <<s>>, <<>>), N("Field", <<s, "T" \o s>>, <<>>), N("Lambda", <<s>>, <<N("Var", <<s>>, <<>>)>>), N("Table", <<s, s, "t">>, <<>>), ARelN(s, <<s, "k">>, Tab(0, 1)),
                  SelX("ALL", "", "", <<ARelN(s, <<s>>, SelT(0, 1))>>, <<>>, <<N("As", <<s>>, <<F(0, 1)>>), N("Star", <<s>>, <<>>)>>, N("Table", <<s>>, <<>>), None, None, None, <<N("WinDef", <<s>>, <<Win("", "RANGE", <<>>, <<>>, UnbP, Cur)>>)>>)}
NumHosts(x) == (IF x.a[1] = "dbl" THEN {} ELSE {N("Sample", <<"SYSTEM">>, <<Tab(0, 1), x>>)}) \cup {x, N("Mul", <<>>, <<F(0, 1), x>>), N("Sub", <<>>, <<x, F(0, 1)>>), N("Neg", <<>>, <<x>>), N("Array", <<>>, <<x, x>>), N("Subscript", <<>>, <<F(0, 1), x>>),
                SelX("ALL", "", "", <<>>, <<N("Order", <<"ASC", "LAST">>, <<x>>)>>, <<x>>, None, None, GB("ALL", <<GS(<<x>>)>>), None, <<>>),
                FnX("SUM", "RESPECT", <<x>>, <<>>, None, Win("", "ROWS", <<>>, <<>>, Off("PRECEDING", x), Off("FOLLOWING", x)))}
CountHosts(s) == {SelX("ALL", s, s, <<>>, <<>>, <<F(0, 1)>>, None, None, None, None, <<>>), SetX("Except", "DISTINCT", s, "", <<>>, Sel1(0, 1), Sel1(0, 2)), [Vals(<<F(0, 1)>>) EXCEPT !.a = <<"", "", s>>], [TabQ(0, 1) EXCEPT !.a = <<"", s, "1">>]}
Counts == {"2147483647", "2147483648", "9223372036854775807", "9223372036854775808", "100", "1000", "12345678901234567890"}
RECURSIVE Takes(_)
Takes(n) == (n.k = "Fn" => Len(n.c[1].c) <= Functions[n.a[1]].hi) /\ \A i \in 1..Len(n.c) : Takes(n.c[i])
BigNames == {"longx", "longq", "longr", "longw", "longg", "longty", "longn", "nestx", "nestq", "nestr", "nestty", "turnx", "oddtexts", "oddnames", "oddnums"}
Bigs(name) ==
  CASE name = "longx" -> StretchFamily("x", {5, 9, 17, 40})
    [] name = "longq" -> StretchFamily("q", {5, 17})
    [] name = "longr" -> StretchFamily("r", {5, 17})
    [] name = "longw" -> StretchFamily("w", {5, 17})
    [] name = "longg" -> StretchFamily("g", {5, 17, 40})
    [] name = "longty" -> StretchFamily("ty", {5, 17, 40})
    [] name = "longn" -> UNION {LongNames(m) : m \in {5, 17, 40}}
    [] name = "nestx" -> NestFamily("x", 4) \cup NestFamily("x", 9)
    [] name = "nestq" -> NestFamily("q", 4) \cup NestFamily("q", 7)
    [] name = "nestr" -> NestFamily("r", 4) \cup NestFamily("r", 7)
    [] name = "nestty" -> NestFamily("ty", 9)
    [] name = "turnx" -> TurnFamily(6)
    [] name = "oddtexts" -> UNION {TextHosts(s) : s \in OddTexts}
    [] name = "oddnames" -> UNION {NameHosts2(s) : s \in OddTexts}
    [] OTHER -> UNION {NumHosts(x) : x \in OddNums} \cup UNION {CountHosts(s) : s \in Counts}
BigOf(name) == {n \in Bigs(name) : Takes(n)}
=============================================================================
