--------------------------------- MODULE Near ---------------------------------
(* Small trees with something special about them: every building block with every  *)
(* operand replaced by a value that code is tempted to treat specially, with        *)
(* operands that are the same, with names that coincide, and every tree one change  *)
(* away from a building block.                                                      *)
EXTENDS Equality, Families

Special(zz) ==
  {Strl(s) : s \in {"", " ", "\\", "%", "_", "'", "a0", "NULL", "1", "*", "day", "\n"}}
  \cup {N("Lit", a, <<>>) : a \in {<<"int", "", "0">>, <<"int", "", "1">>, <<"int", "-", "1">>, <<"int", "", "9223372036854775808">>, <<"dec", "", "0", "1">>, <<"dec", "", "10", "1">>, <<"dec", "-", "100", "2">>,
            <<"dbl", "", "0", "0">>, <<"dbl", "", "1", "0">>, <<"dbl", "-", "1", "3">>, <<"null">>, <<"bool", "TRUE">>, <<"bool", "FALSE">>}}
  \cup {N("Field", a, <<>>) : a \in {<<"a0", "a0">>, <<"x0", "t">>, <<"y0", "x0">>, <<"b0", "a0">>, <<"a0", "b0">>, <<"NULL">>, <<"A0">>, <<"w">>, <<"current_date">>, <<"a0 ">>, <<"">>} \ {<<"">>}}
  \cup {N("TypeCons", <<"VARCHAR", "">>, <<>>), N("TypeCons", <<"DECIMAL", "0">>, <<>>), N("TypeCons", <<"DOUBLE", "1">>, <<>>), N("Interval", <<"0", "DAY", "">>, <<>>), N("Interval", <<"-1", "SECOND", "">>, <<>>),
        N("Array", <<>>, <<F(0, 1)>>), N("Row", <<>>, <<F(0, 1)>>), N("Row", <<>>, <<F(0, 1), F(0, 1)>>), Fn("NOW", <<>>), Fn("COUNT", <<N("Star", <<>>, <<>>)>>), N("DtFn", <<"CURRENT_DATE">>, <<>>), N("Lambda", <<>>, <<F(0, 1)>>),
        Vals(<<IntL("1")>>), TabQ(0, 1), SelT(0, 1)}
InSlots(t, ps, m) == FoldLeft(LAMBDA x, p : Put(x, p, m), t, ps)
XSlots(t) == LET ss == SelectSeq(Slots(t), LAMBDA x : x[2] = "x" /\ Get(t, x[1]).c = <<>>) IN [i \in 1..Len(ss) |-> ss[i][1]]
LeavesIn(t) ==
  LET ps == TLCEval(XSlots(t))
  IN UNION {{Put(t, ps[i], m) : m \in Special(0)} : i \in 1..Len(ps)}
     \cup (IF Len(ps) < 2 THEN {} ELSE {InSlots(t, ps, m) : m \in Special(0)})
     \cup {Put(t, ps[x[1]], Get(t, ps[x[2]])) : x \in {y \in (1..Len(ps)) \X (1..Len(ps)) : y[1] # y[2]}}
     \cup {Rename(t, x[1], x[2]) : x \in {y \in NamesIn(t) \X NamesIn(t) : y[1] # y[2]}}
LeafFamily(sort) == LET ts == TLCEval(Templates(sort, 0)) IN UNION {LeavesIn(ts[i]) : i \in 1..Len(ts)}
RECURSIVE Listed(_)
Listed(n) == (n.k \in {"Select", "Values"} => n.c[3].c # <<>>) /\ (n.k = "Fn" => n.c[1].c # <<>> \/ Functions[n.a[1]].lo = 0) /\ \A i \in 1..Len(n.c) : Listed(n.c[i])
MutFamily(sort) == LET ts == TLCEval(Templates(sort, 0)) IN {n \in UNION {Mutants(ts[i]) : i \in 1..Len(ts)} : Listed(n)}
NearSorts == <<"x", "q", "r", "w", "ty", "o", "g", "sel">>
LeafName(i) == "leaf" \o NearSorts[i]
NearName(i) == "near" \o NearSorts[i]
NearNames == {LeafName(i) : i \in 1..Len(NearSorts)} \cup {NearName(i) : i \in 1..Len(NearSorts)}
NearOf(name) == LET i == CHOOSE j \in 1..Len(NearSorts) : name \in {LeafName(j), NearName(j)}
                IN IF name = LeafName(i) THEN LeafFamily(NearSorts[i]) ELSE MutFamily(NearSorts[i])
(* these trees need not be anything that SQL can express: then any answer will do *)
NearTexts(w, t1, t2) == <<Parse0(w, t1, <<"tree">>), Parse0(w, t2, <<"tree">>)>>
NearPrints(n, w) == <<Make(n, <<"possible">>), Sql(w, 1, "compact", 4, 0, <<"mayread">>), Sql(w, 1, "pretty", 4, 0, <<"mayread">>)>>
=============================================================================
