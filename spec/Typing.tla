-------------------------------- MODULE Typing --------------------------------
(* Behaviours about data types: common supertypes of pairs and triples, and trees    *)
(* whose columns are given types of all kinds.                                       *)
EXTENDS Calls, Families, Walk, Infer

SuperE(mode, ts) == [E0 EXCEPT !.op = "super", !.mode = mode, !.tree = List(ts), !.cl = <<"super">>]
TypedE(o) == [E0 EXCEPT !.op = "dtype", !.o = o, !.cl = <<"typed">>]
InferE(n) == [E0 EXCEPT !.op = "infer", !.tree = n, !.cl = <<"infers">>]      \* built, asked, and let go
MadeE(n) == Make(n, <<"typable">>)

TySeq == TLCEval(SetToSeq(AllTys))
SuperPlan(n) == FlattenSeq([i \in 1..Len(TySeq) |-> <<SuperE("super", <<n, TySeq[i]>>), SuperE("arith", <<n, TySeq[i]>>)>>])
RECURSIVE RandTys(_, _)
RandTys(r, k) == IF k = 0 THEN <<>> ELSE <<TySeq[Pick(r, Len(TySeq))]>> \o RandTys(Rnd(r), k - 1)
(* neighbours: types that combine with n, and any others *)
Near(n) == TLCEval(SetToSeq({t \in AllTys : Super(n, t).k # "None"}))
ReducePlan(n, r, many) ==
  LET near == Near(n)
      three(k) == LET s == Rnd(Rnd(1 + ((r % 1000003) + (k * 7919))))
                      t == near[Pick(s, Len(near))]
                      u == IF k % 4 = 0 THEN TySeq[Pick(Rnd(s), Len(TySeq))] ELSE near[Pick(Rnd(s), Len(near))]
                  IN <<SuperE("reduce", <<n, t, u>>), SuperE("reduce", <<u, n, t>>), SuperE("reduce", <<t, u, n>>), SuperE("reduce", <<t, n, u, UnkT, n>>)>>
  IN FlattenSeq([k \in 1..many |-> three(k)]) \o <<SuperE("reduce", <<>>), SuperE("reduce", <<n>>)>>

(* ------------------------------------------------------ typed expressions *)
TyGroups == TLCEval(<<SetToSeq({Plain(x) : x \in Integrals \cup Floats} \cup DecTys({<<5, 2>>, <<3, 0>>, <<38, 38>>, <<20, 1>>})),
            SetToSeq(VarTys({0, 5, 65537}) \cup CharTys({1, 5, 65536})),
            SetToSeq(TimelikeTys({"", "0", "3", "12"}) \cup {Plain("DATE"), DayT, YearT}),
            SetToSeq({ArrayT(t) : t \in TinyTys} \cup {ArrayT(ArrayT(Plain("INTEGER"))), Plain("INTEGER"), UnkT}),
            SetToSeq({Plain("HYPERLOGLOG"), Plain("P4HYPERLOGLOG"), Plain("TDIGEST"), TyN0("QDIGEST", <<>>, <<DoubleT>>), MapT(VarcharT, BigintT), MapT(CharT(2), DoubleT), RowT(<<BigintT, VarcharT>>), RowT(<<DoubleT, CharT(3)>>)}),
            SetToSeq({Plain("BOOLEAN"), Plain("VARBINARY"), Plain("JSON"), Plain("UUID"), Plain("IPADDRESS"), VarcharT}), TySeq>>)
LitLeaves == <<N("Lit", <<"null">>, <<>>), IntL("7"), IntL("2147483648"), N("Lit", <<"int", "-", "2147483648">>, <<>>), N("Lit", <<"dec", "", "150", "2">>, <<>>), N("Lit", <<"dec", "", "5", "3">>, <<>>), N("Lit", <<"dec", "", "0", "1">>, <<>>),
               N("Lit", <<"dbl", "", "15", "-1">>, <<>>), N("Lit", <<"bool", "TRUE">>, <<>>), Strl("abc"), Strl("")>>
LeafOf(g, s, f) ==
  LET r == Pick(s, 10)  grp == TyGroups[IF Pick(Rnd(s), 5) = 1 THEN Len(TyGroups) ELSE g]  t == grp[Pick(Rnd(Rnd(s)), Len(grp))]
  IN IF r = 1 THEN f ELSE IF r = 2 THEN LitLeaves[Pick(Rnd(s), Len(LitLeaves))] ELSE IF t = UnkT THEN f ELSE IF r = 3 THEN N("TryCast", <<>>, <<f, t>>) ELSE N("Cast", <<>>, <<f, t>>)
RECURSIVE Leaved(_, _, _)
Leaved(n, g, s) ==
  IF n.k = "Field" /\ n.c = <<>> /\ Len(n.a) = 1 THEN LeafOf(g, s, n)
  ELSE [n EXCEPT !.c = [i \in 1..Len(n.c) |-> Leaved(n.c[i], g, Rnd(1 + ((((s % 1000003) * 31) + (i * 7919)) % 2147483000)))]]
DtypePlan(n, r, k) ==
  FlattenSeq([j \in 1..k |-> LET s == Rnd(Rnd(1 + ((r % 1000003) + (j * 104729)))) IN <<MadeE(Leaved(n, Pick(s, Len(TyGroups)), Rnd(s))), TypedE(j)>>])
  \o (IF WhatOf(n) = "expr" THEN <<PyOp(N("Array", <<>>, <<PyRef(1), PyRef(2)>>), <<>>), TypedE(1), TypedE(k)>> ELSE <<>>)
Casted(i, t) == IF t = UnkT THEN F(0, i) ELSE N("Cast", <<>>, <<F(0, i), t>>)
Bins(l, r) == <<N("Add", <<>>, <<l, r>>), N("Sub", <<>>, <<l, r>>), N("Mul", <<>>, <<l, r>>), N("Div", <<>>, <<l, r>>), N("Mod", <<>>, <<l, r>>), Fn("CONCAT", <<l, r>>), Fn("COALESCE", <<l, r>>), Fn("IF", <<F(0, 1), l, r>>),
  N("Array", <<>>, <<l, r>>), N("Case", <<>>, <<None, r, N("When", <<>>, <<F(0, 1), l>>)>>), N("Row", <<>>, <<l, r>>), Fn("NULLIF", <<l, r>>)>>
TableTys == TLCEval(SetToSeq(FlatTys \cup {ArrayT(t) : t \in TinyTys} \cup {ArrayT(ArrayT(t)) : t \in {Plain("INTEGER"), VarcharT}} \cup {MapT(VarcharT, DoubleT), RowT(<<BigintT>>)}))
PairPlan(n) == LET ms == FlattenSeq([i \in 1..Len(TableTys) |-> Bins(Casted(1, n), Casted(2, TableTys[i]))])
               IN [j \in 1..Len(ms) |-> InferE(ms[j])]
FewArgs(f) == Functions[f].lo <= 3 /\ Functions[f].lo > 0
FnPlan(n) == LET fs == SetToSeq({f \in FnNames : FewArgs(f)})
                 ms == FlattenSeq([i \in 1..Len(fs) |-> LET lo == Functions[fs[i]].lo IN
                          [j \in 1..lo |-> Fn(fs[i], [x \in 1..lo |-> IF x = j THEN Casted(1, n) ELSE F(0, x)])]
                          \o (IF MaxOf(fs[i]) > lo THEN <<Fn(fs[i], [x \in 1..(lo + 1) |-> IF x = 1 THEN Casted(1, n) ELSE IntL("1")])>> ELSE <<>>)])
             IN [j \in 1..Len(ms) |-> InferE(ms[j])]
TimeTexts == {"", "x", "2020-01-01", "2020-01-01 10:00", "2020-01-01 10:00:00", "2020-01-01 10:00:00.1", "2020-01-01 10:00:00.123456789012", "2020-1-1", "2020-01-01 10:00:00.123 UTC", "2020-01-01 10:00:00.123+08:00", "2020-01-01 10:00 America/Los_Angeles",
  "2020-01-01 UTC", "-2020-01-01 00:00:00.000", "10:00", "10:00:00", "10:00:00.12", "10:00:00.123456 -08:00", "10:00 +01:00", " 10:00:00.1 ", "1:2:3.4567", "2001-02-03 04:05:06.7.89"}
DecTexts == {"0", "1", "-1", "+12", "1.50", "-0.5", ".5", "0.05", "00012.300", "99999999999999999999999999999999999999", "0.00000000000000000000000000000000000001", "12345678901234567890.123456789012345678"}
TypedTextLits == {N("TypeCons", <<n, s>>, <<>>) : n \in Timelikes, s \in TimeTexts} \cup {N("TypeCons", <<"DECIMAL", s>>, <<>>) : s \in DecTexts} \cup {N("TypeCons", <<"CHAR", s>>, <<>>) : s \in {"", "a", "it's", "abc  "}}
  \cup {N("TypeCons", <<n, "1">>, <<>>) : n \in (SimpleTypes \ {"UNKNOWN"}) \cup {"VARCHAR"}}
  \cup {N("Lit", <<"int", sg, d>>, <<>>) : sg \in {"", "-"}, d \in {"1", "127", "128", "32768", "65536", "999999999", "1000000000", "2147483647", "2147483648", "2147483649", "2147483650", "2999999999", "3000000000", "9999999999", "9223372036854775807"}}
  \cup {N("Lit", <<"dec", sg, d, sc>>, <<>>) : sg \in {"", "-"}, d \in {"1", "12", "123", "1230", "99999999999999999999"}, sc \in {"1", "2", "3", "5", "20", "38"}}
  \cup {N("Interval", <<"1", f, "">>, <<>>) : f \in {"YEAR", "MONTH", "DAY", "HOUR", "MINUTE", "SECOND"}}
  \cup {N("DtFn", <<f, p>>, <<>>) : f \in {"CURRENT_TIME", "CURRENT_TIMESTAMP", "LOCALTIME", "LOCALTIMESTAMP"}, p \in {"0", "3", "12"}}
=============================================================================
