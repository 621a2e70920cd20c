------------------------------ MODULE Grammar ------------------------------
(* Tokens -> tree: the part of Trino's grammar that can be represented,         *)
(* by recursive descent.  Every parser takes the tokens and a position and      *)
(* gives [n, p]: the node and the position after it, p = 0 when it fails.       *)
(* A parser started at position 0 fails, so failures propagate.                 *)
(* Text that Trino accepts but that trees cannot represent is rejected.         *)
EXTENDS Lex, Ast, Catalogue, Integers

R(n, p) == [n |-> n, p |-> p]
Fail == R(None, 0)
OK(n, p) == IF p = 0 THEN Fail ELSE R(n, p)

K(ts, p) == IF p >= 1 /\ p <= Len(ts) THEN ts[p].u ELSE "<EOF>"
TT(ts, p) == IF p >= 1 /\ p <= Len(ts) THEN ts[p].t ELSE "eof"
Is(ts, p, u) == p > 0 /\ K(ts, p) = u
Is2(ts, p, u, v) == Is(ts, p, u) /\ Is(ts, p + 1, v)
(* position after the token u, 0 when it is not there *)
Sk(ts, p, u) == IF p > 0 /\ K(ts, p) = u THEN p + 1 ELSE 0
(* position after the token u if it is there *)
May(ts, p, u) == IF p > 0 /\ K(ts, p) = u THEN p + 1 ELSE p

IsIdent(ts, p) == p > 0 /\ \/ TT(ts, p) = "q"
                           \/ TT(ts, p) = "w" /\ (K(ts, p) = "" \/ K(ts, p) \in NonReserved)
Ident(ts, p) == IF IsIdent(ts, p) THEN R(ts[p].v, p + 1) ELSE R("", 0)

(* ---------------------------------------------------------------- literals *)
RECURSIVE StripZ(_)
StripZ(s) == IF Len(s) > 1 /\ At(s, 1) = "0" THEN StripZ(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE StripTrail(_)
StripTrail(s) == IF Len(s) > 1 /\ At(s, Len(s)) = "0" THEN StripTrail(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE IndexOf(_, _, _)
IndexOf(s, c, i) == IF i > Len(s) THEN 0 ELSE IF At(s, i) = c THEN i ELSE IndexOf(s, c, i + 1)
DigitVal(c) == (CHOOSE i \in 1..10 : DigitSeq[i] = c) - 1
RECURSIVE NatOf(_)
NatOf(s) == IF s = "" THEN 0 ELSE 10 * NatOf(SubSeq(s, 1, Len(s) - 1)) + DigitVal(At(s, Len(s)))
IntOf(s) == IF At(s, 1) = "-" THEN 0 - NatOf(SubSeq(s, 2, Len(s)))
            ELSE IF At(s, 1) = "+" THEN NatOf(SubSeq(s, 2, Len(s))) ELSE NatOf(s)
Canon(s) == IF s = "" THEN "0" ELSE StripZ(s)      \* canonical digits of an integer
Sg(sign, digits) == IF digits = "0" THEN "" ELSE sign

IntLit(sign, s) == N("Lit", <<"int", Sg(sign, Canon(s)), Canon(s)>>, <<>>)
DecLit(sign, s) ==
  LET d == IndexOf(s, ".", 1)
      w == SubSeq(s, 1, d - 1)
      f == SubSeq(s, d + 1, Len(s))
      g == Canon(w \o f)
  IN N("Lit", <<"dec", Sg(sign, g), g, ToString(Len(f))>>, <<>>)
(* a decimal has 38 digits at most *)
DecFits(s) == LET d == IndexOf(s, ".", 1)
                  w == IF d = 0 THEN s ELSE SubSeq(s, 1, d - 1)
                  f == IF d = 0 THEN "" ELSE SubSeq(s, d + 1, Len(s))
                  z == Canon(w)
              IN (IF z = "0" THEN 0 ELSE Len(z)) + Len(f) <= 38
(* the value digits * 10^exp with no trailing zero digit *)
DblLit(sign, s) ==
  LET e == IndexOf(s, "E", 1)
      m == SubSeq(s, 1, e - 1)
      x == IntOf(SubSeq(s, e + 1, Len(s)))
      d == IndexOf(m, ".", 1)
      w == IF d = 0 THEN m ELSE SubSeq(m, 1, d - 1)
      f == IF d = 0 THEN "" ELSE SubSeq(m, d + 1, Len(m))
      g == Canon(w \o f)
      h == StripTrail(g)
      y == x - Len(f) + (Len(g) - Len(h))
  IN IF h = "0" THEN N("Lit", <<"dbl", "", "0", "0">>, <<>>)
     ELSE N("Lit", <<"dbl", sign, h, ToString(y)>>, <<>>)
NumLit(ts, p, sign) ==
  CASE TT(ts, p) = "i" -> R(IntLit(sign, ts[p].v), p + 1)
    [] TT(ts, p) = "d" -> IF ~DecFits(ts[p].v) THEN Fail ELSE R(DecLit(sign, ts[p].v), p + 1)
    [] TT(ts, p) = "e" -> R(DblLit(sign, ts[p].v), p + 1)
    [] OTHER -> Fail

HexVal(c) == IF c \in DigitSet THEN DigitVal(c)
             ELSE CASE c \in {"a","A"} -> 10 [] c \in {"b","B"} -> 11 [] c \in {"c","C"} -> 12
                    [] c \in {"d","D"} -> 13 [] c \in {"e","E"} -> 14 [] c \in {"f","F"} -> 15
                    [] OTHER -> 0 - 1
(* The specification's alphabet for escaped code points. *)
UniTab == <<  <<10,"\n">>, <<32," ">>, <<39,"'">>, <<59, ";">>, <<65,"A">>, <<92,"\\">>, <<97,"a">>, <<233,"é">>, <<945,"α">>,
              <<946,"β">>, <<8364,"€">>, <<23383,"字">>, <<28450,"漢">> >>
UniChar(n) == IF n >= 48 /\ n <= 57 THEN DigitSeq[n - 47]
              ELSE IF n >= 65 /\ n <= 90 THEN UpperSeq[n - 64]
              ELSE IF n >= 97 /\ n <= 122 THEN LowerSeq[n - 96]
              ELSE IF \E i \in 1..Len(UniTab) : UniTab[i][1] = n
                   THEN UniTab[CHOOSE i \in 1..Len(UniTab) : UniTab[i][1] = n][2]
              ELSE "?"
RECURSIVE HexNum(_)
HexNum(s) == IF s = "" THEN 0 ELSE 16 * HexNum(SubSeq(s, 1, Len(s) - 1)) + HexVal(At(s, Len(s)))
AllHex(s) == \A i \in 1..Len(s) : HexVal(At(s, i)) >= 0
(* U&'..' with escape e: [v, ok] *)
RECURSIVE DecodeU(_, _)
DecodeU(s, e) ==
  IF s = "" THEN [v |-> "", ok |-> TRUE]
  ELSE IF At(s, 1) # e
       THEN LET r == DecodeU(SubSeq(s, 2, Len(s)), e) IN [v |-> At(s, 1) \o r.v, ok |-> r.ok]
  ELSE IF At(s, 2) = e
       THEN LET r == DecodeU(SubSeq(s, 3, Len(s)), e) IN [v |-> e \o r.v, ok |-> r.ok]
  ELSE LET plus == At(s, 2) = "+"
           i == IF plus THEN 3 ELSE 2
           j == IF plus THEN 8 ELSE 5
           h == SubSeq(s, i, j)
                  c == HexNum(h)
       IN IF Len(s) < j \/ ~AllHex(h) THEN [v |-> "", ok |-> FALSE]
          ELSE IF c > 1114111 \/ (c >= 55296 /\ c <= 57343) THEN [v |-> "", ok |-> FALSE]      \* not a character
          ELSE LET r == DecodeU(SubSeq(s, j + 1, Len(s)), e)
               IN [v |-> UniChar(c) \o r.v, ok |-> r.ok]
(* a string: n is the characters *)
Str(ts, p) ==
  IF TT(ts, p) = "s" THEN R(ts[p].v, p + 1)
  ELSE IF TT(ts, p) = "us"
  THEN LET esc == Is(ts, p + 1, "UESCAPE") /\ TT(ts, p + 2) = "s"
           e == IF esc THEN ts[p + 2].v ELSE "\\"
           d == DecodeU(ts[p].v, e)
       IN IF Is(ts, p + 1, "UESCAPE") /\ ~esc THEN R("", 0)
          ELSE IF Len(e) # 1 \/ e \in DigitSet \cup {"a","b","c","d","e","f","A","B","C","D","E","F","+","'"," "}
               THEN R("", 0)
          ELSE IF d.ok THEN R(d.v, IF esc THEN p + 3 ELSE p + 1) ELSE R("", 0)
  ELSE R("", 0)

IntervalFields == {"YEAR", "MONTH", "DAY", "HOUR", "MINUTE", "SECOND"}
RECURSIVE StripC(_, _)
StripC(s, c) == IF At(s, 1) = c THEN StripC(SubSeq(s, 2, Len(s)), c) ELSE s
IntervalP(ts, p) ==           \* p is after INTERVAL
  LET minus == Is(ts, p, "-")
      p1 == IF minus \/ Is(ts, p, "+") THEN p + 1 ELSE p
      s == Str(ts, p1)
      f == K(ts, s.p)
      two == Is(ts, s.p + 1, "TO")
      t == K(ts, s.p + 2)
      v == StripC(s.n, "+")
      w == IF ~minus THEN v ELSE IF At(v, 1) = "-" THEN StripC(v, "-") ELSE "-" \o v
  IN IF s.p = 0 \/ f \notin IntervalFields THEN Fail
     ELSE IF two THEN IF t \in IntervalFields
                      THEN R(N("Interval", <<w, f, t>>, <<>>), s.p + 3) ELSE Fail
     ELSE R(N("Interval", <<w, f, "">>, <<>>), s.p + 1)

(* which types can a TypeCons have, with which text *)
IsDecimalText(s) == LET t == IF At(s, 1) \in {"-", "+"} THEN SubSeq(s, 2, Len(s)) ELSE s
                        d == IndexOf(t, ".", 1)
                        u == IF d = 0 THEN t ELSE SubSeq(t, 1, d - 1) \o SubSeq(t, d + 1, Len(t))
                    IN u # "" /\ (\A i \in 1..Len(u) : At(u, i) \in DigitSet) /\ DecFits(t)
Exponent(s) == IndexOf(s, "e", 1) > 0 \/ IndexOf(s, "E", 1) > 0
TypeConsOK(ty, s) == \/ ty \in SimpleTypes \cup {"VARCHAR", "CHAR", "TIME", "TIMESTAMP"}
                     \/ ty = "DECIMAL" /\ (IsDecimalText(s) \/ Exponent(s))

(* ------------------------------------------------------------------- types *)
NatIn(s, lo, hi) == Len(s) <= 9 /\ NatOf(s) >= lo /\ NatOf(s) <= hi
TypeNode(name, a, c) == N("Type", <<name>> \o a, c)
(* a generic type: name (upper case), number parameters ns, type parameters cs  *)
(* (exactly one of the two is not empty, unless both are)                        *)
MkType(name, ns, cs) ==
  LET n1 == IF Len(ns) >= 1 THEN Canon(ns[1]) ELSE ""
      n2 == IF Len(ns) >= 2 THEN Canon(ns[2]) ELSE ""
      plain == Len(ns) = 0 /\ Len(cs) = 0
      bad == [ok |-> FALSE, n |-> None]
      good(n) == [ok |-> TRUE, n |-> n]
  IN CASE name \in SimpleTypes -> IF plain THEN good(TypeNode(name, <<>>, <<>>)) ELSE bad
       [] name = "DECIMAL" ->
            LET pr == IF n1 = "" THEN "38" ELSE n1
                sc == IF n2 = "" THEN "0" ELSE n2
            IN IF Len(cs) = 0 /\ Len(ns) <= 2 /\ NatIn(pr, 1, 38) /\ NatIn(sc, 0, NatOf(pr))
               THEN good(TypeNode(name, <<pr, sc>>, <<>>)) ELSE bad
       [] name = "VARCHAR" ->
            IF plain THEN good(TypeNode(name, <<>>, <<>>))
            ELSE IF Len(cs) = 0 /\ Len(ns) = 1 /\ (Len(n1) <= 9 \/ (Len(n1) = 10 /\ n1 \in {"2147483646"}))
                 THEN good(TypeNode(name, <<n1>>, <<>>)) ELSE bad
       [] name = "CHAR" ->
            LET l == IF n1 = "" THEN "1" ELSE n1
            IN IF Len(cs) = 0 /\ Len(ns) <= 1 /\ NatIn(l, 0, 65536) THEN good(TypeNode(name, <<l>>, <<>>)) ELSE bad
       [] name \in {"TIME", "TIMESTAMP"} ->
            IF Len(cs) = 0 /\ Len(ns) <= 1 /\ (n1 = "" \/ NatIn(n1, 0, 12))
            THEN good(TypeNode(name, <<n1, "">>, <<>>)) ELSE bad
       [] name \in {"ARRAY", "QDIGEST"} ->
            IF Len(ns) = 0 /\ Len(cs) = 1 THEN good(TypeNode(name, <<>>, cs)) ELSE bad
       [] name = "MAP" -> IF Len(ns) = 0 /\ Len(cs) = 2 THEN good(TypeNode(name, <<>>, cs)) ELSE bad
       [] OTHER -> bad

RECURSIVE P(_, _, _)
RECURSIVE TypeSuffix(_, _), TypeList(_, _, _)
TypeList(ts, p, acc) ==
  LET r == P("type", ts, p)
  IN IF r.p = 0 THEN [ns |-> acc, p |-> 0]
     ELSE IF Is(ts, r.p, ",") THEN TypeList(ts, r.p + 1, Append(acc, r.n))
     ELSE [ns |-> Append(acc, r.n), p |-> r.p]
RECURSIVE IntList(_, _, _)
IntList(ts, p, acc) ==
  IF TT(ts, p) # "i" THEN [ns |-> acc, p |-> 0]
  ELSE IF Is(ts, p + 1, ",") THEN IntList(ts, p + 2, Append(acc, ts[p].v))
  ELSE [ns |-> Append(acc, ts[p].v), p |-> p + 1]
TypeSuffix(ts, r) ==
  IF r.p = 0 THEN Fail
  ELSE IF Is(ts, r.p, "ARRAY")
       THEN IF Is(ts, r.p + 1, "[") THEN Fail      \* explicit sizes cannot be represented
            ELSE TypeSuffix(ts, R(TypeNode("ARRAY", <<>>, <<r.n>>), r.p + 1))
  ELSE r
DateTimeType(ts, p, name) ==      \* p is after TIME or TIMESTAMP
  LET par == Is(ts, p, "(")
      prec == IF par THEN ts[p + 1].v ELSE ""
      p1 == IF ~par THEN p
            ELSE IF TT(ts, p + 1) = "i" THEN Sk(ts, p + 2, ")") ELSE 0
      zone == Is2(ts, p1, "WITH", "TIME") /\ Is(ts, p1 + 2, "ZONE")
      nozone == Is2(ts, p1, "WITHOUT", "TIME") /\ Is(ts, p1 + 2, "ZONE")
      p2 == IF p1 # 0 /\ (zone \/ nozone) THEN p1 + 3 ELSE p1
      n1 == IF prec = "" THEN "" ELSE Canon(prec)
  IN IF p2 = 0 \/ ~(n1 = "" \/ NatIn(n1, 0, 12)) THEN Fail
     ELSE R(TypeNode(name, <<n1, IF zone THEN "TZ" ELSE "">>, <<>>), p2)
Type0(ts, p) ==
  IF p = 0 THEN Fail
  ELSE IF Is2(ts, p, "ROW", "(")
       THEN LET l == TypeList(ts, p + 2, <<>>)
            IN OK(TypeNode("ROW", <<>>, l.ns), Sk(ts, l.p, ")"))
  ELSE IF Is(ts, p, "INTERVAL") /\ K(ts, p + 1) \in IntervalFields
       THEN LET f == K(ts, p + 1)  t == K(ts, p + 3)
            IN IF Is(ts, p + 2, "TO") /\ <<f, t>> \in {<<"YEAR", "MONTH">>, <<"DAY", "SECOND">>}
               THEN R(TypeNode("INTERVAL", <<f, t>>, <<>>), p + 4) ELSE Fail
  ELSE IF K(ts, p) \in {"TIME", "TIMESTAMP"} THEN DateTimeType(ts, p + 1, K(ts, p))
  ELSE IF Is2(ts, p, "DOUBLE", "PRECISION") THEN R(TypeNode("DOUBLE", <<>>, <<>>), p + 2)
  ELSE IF ~IsIdent(ts, p) THEN Fail
  ELSE LET name == ToUpper(ts[p].v)
           par == Is(ts, p + 1, "(")
           ints == par /\ TT(ts, p + 2) = "i"
           il == IntList(ts, p + 2, <<>>)
           tl == TypeList(ts, p + 2, <<>>)
           ns == IF ints THEN il.ns ELSE <<>>
           cs == IF par /\ ~ints THEN tl.ns ELSE <<>>
           e == IF ~par THEN p + 1 ELSE Sk(ts, IF ints THEN il.p ELSE tl.p, ")")
           m == MkType(name, ns, cs)
       IN IF e = 0 \/ ~m.ok THEN Fail ELSE R(m.n, e)
Type(ts, p) == TypeSuffix(ts, Type0(ts, p))

(* ------------------------------------------------------------- expressions *)
RECURSIVE PList(_, _, _, _)
RECURSIVE OrLoop(_, _), AndLoop(_, _), CatLoop(_, _), AddLoop(_, _), MulLoop(_, _), PostLoop(_, _)
RECURSIVE Whens(_, _, _), QTermLoop(_, _), QIntLoop(_, _), RelLoop(_, _)

(* one or more items of a kind, separated by commas: n is a List *)
PList(kind, ts, p, acc) ==
  LET r == P(kind, ts, p)
  IN IF r.p = 0 THEN Fail
     ELSE IF Is(ts, r.p, ",") THEN PList(kind, ts, r.p + 1, Append(acc, r.n))
     ELSE R(List(Append(acc, r.n)), r.p)
L(kind, ts, p) == IF p = 0 THEN Fail ELSE PList(kind, ts, p, <<>>)
(* identifiers separated by commas: n is a sequence of names *)
RECURSIVE Names(_, _, _)
Names(ts, p, acc) ==
  LET r == Ident(ts, p)
  IN IF r.p = 0 THEN R(acc, 0)
     ELSE IF Is(ts, r.p, ",") THEN Names(ts, r.p + 1, Append(acc, r.n))
     ELSE R(Append(acc, r.n), r.p)
(* '(' names ')' *)
ParenNames(ts, p) == LET r == Names(ts, Sk(ts, p, "("), <<>>)
                     IN IF Sk(ts, p, "(") = 0 THEN R(<<>>, 0) ELSE R(r.n, Sk(ts, r.p, ")"))

Bin(k, l, r) == N(k, <<>>, <<l, r>>)
Un(k, x) == N(k, <<>>, <<x>>)

Expr(ts, p) == IF p = 0 THEN Fail ELSE OrLoop(ts, P("and", ts, p))
OrLoop(ts, l) ==
  IF l.p # 0 /\ Is(ts, l.p, "OR")
  THEN LET r == P("and", ts, l.p + 1) IN OrLoop(ts, OK(Bin("Or", l.n, r.n), r.p))
  ELSE l
And1(ts, p) == IF p = 0 THEN Fail ELSE AndLoop(ts, P("not", ts, p))
AndLoop(ts, l) ==
  IF l.p # 0 /\ Is(ts, l.p, "AND")
  THEN LET r == P("not", ts, l.p + 1) IN AndLoop(ts, OK(Bin("And", l.n, r.n), r.p))
  ELSE l
Not1(ts, p) == IF p = 0 THEN Fail
               ELSE IF Is(ts, p, "NOT") THEN LET r == P("not", ts, p + 1) IN OK(Un("Not", r.n), r.p)
               ELSE P("pred", ts, p)

CmpOf == "=" :> "Eq" @@ "<>" :> "Ne" @@ "!=" :> "Ne" @@ "<" :> "Lt" @@ "<=" :> "Le" @@ ">" :> "Gt" @@ ">=" :> "Ge"
Neg1(neg, n) == IF neg THEN Un("Not", n) ELSE n
IsQueryStart(ts, p) == K(ts, p) \in {"SELECT", "WITH", "VALUES", "TABLE"}
RECURSIVE FirstInside(_, _)
FirstInside(ts, p) == IF Is(ts, p, "(") THEN FirstInside(ts, p + 1) ELSE p
Pred(ts, p) ==
  LET v == P("cat", ts, p)
      k0 == K(ts, v.p)
      neg == k0 = "NOT"
      q == IF neg THEN v.p + 1 ELSE v.p
      k == K(ts, q)
  IN IF v.p = 0 THEN Fail
     ELSE IF k0 \in DOMAIN CmpOf
          THEN LET r == P("cat", ts, v.p + 1) IN OK(Bin(CmpOf[k0], v.n, r.n), r.p)
     ELSE IF k = "BETWEEN"
          THEN LET lo == P("cat", ts, q + 1)  hi == P("cat", ts, Sk(ts, lo.p, "AND"))
               IN OK(Neg1(neg, N("Between", <<>>, <<v.n, lo.n, hi.n>>)), hi.p)
     ELSE IF k = "IN" /\ Is(ts, q + 1, "(")
          THEN LET l == L("expr", ts, q + 2)
                   le == Sk(ts, l.p, ")")
                   s == IF IsQueryStart(ts, FirstInside(ts, q + 2)) THEN P("query", ts, q + 2) ELSE Fail
                   se == Sk(ts, s.p, ")")
               IN IF le # 0 THEN R(Neg1(neg, N("InList", <<>>, <<v.n>> \o l.n.c)), le)
                  ELSE OK(Neg1(neg, N("InQuery", <<>>, <<v.n, s.n>>)), se)
     ELSE IF k = "LIKE"
          THEN LET pat == P("cat", ts, q + 1)
                   esc == P("cat", ts, pat.p + 1)
               IN IF pat.p # 0 /\ Is(ts, pat.p, "ESCAPE")
                  THEN OK(Neg1(neg, N("Like", <<>>, <<v.n, pat.n, esc.n>>)), esc.p)
                  ELSE OK(Neg1(neg, N("Like", <<>>, <<v.n, pat.n, None>>)), pat.p)
     ELSE IF k0 = "IS"
          THEN LET n2 == Is(ts, v.p + 1, "NOT")
                   q2 == IF n2 THEN v.p + 2 ELSE v.p + 1
                   r == P("cat", ts, q2 + 2)
               IN IF Is(ts, q2, "NULL") THEN R(Neg1(n2, Un("IsNull", v.n)), q2 + 1)
                  ELSE IF Is2(ts, q2, "DISTINCT", "FROM")
                       THEN OK(Neg1(n2, Bin("Distinct", v.n, r.n)), r.p)
                  ELSE Fail
     ELSE IF neg THEN Fail
     ELSE v

FnNode(name, nulls, args, order, filter, win) ==
  N("Fn", <<name, nulls>>, <<List(args), List(order), filter, win>>)
Call(name, args) == FnNode(name, "RESPECT", args, <<>>, None, None)

Cat1(ts, p) == IF p = 0 THEN Fail ELSE CatLoop(ts, P("add", ts, p))
CatLoop(ts, l) ==
  IF l.p # 0 /\ Is(ts, l.p, "||")
  THEN LET r == P("add", ts, l.p + 1) IN CatLoop(ts, OK(Call("CONCAT", <<l.n, r.n>>), r.p))
  ELSE l
Add1(ts, p) == IF p = 0 THEN Fail ELSE AddLoop(ts, P("mul", ts, p))
AddLoop(ts, l) ==
  IF l.p # 0 /\ K(ts, l.p) \in {"+", "-"}
  THEN LET r == P("mul", ts, l.p + 1)
       IN AddLoop(ts, OK(Bin(IF K(ts, l.p) = "+" THEN "Add" ELSE "Sub", l.n, r.n), r.p))
  ELSE l
Mul1(ts, p) == IF p = 0 THEN Fail ELSE MulLoop(ts, P("unary", ts, p))
MulLoop(ts, l) ==
  IF l.p # 0 /\ K(ts, l.p) \in {"*", "/", "%"}
  THEN LET r == P("unary", ts, l.p + 1)
           k == K(ts, l.p)
       IN MulLoop(ts, OK(Bin(IF k = "*" THEN "Mul" ELSE IF k = "/" THEN "Div" ELSE "Mod", l.n, r.n), r.p))
  ELSE l
Unary(ts, p) ==
  IF p = 0 THEN Fail
  ELSE IF Is(ts, p, "-") /\ TT(ts, p + 1) \in {"i", "d", "e"} THEN P("primary", ts, p)
  ELSE IF K(ts, p) \in {"+", "-"}
       THEN LET r == P("unary", ts, p + 1) IN OK(Un(IF K(ts, p) = "+" THEN "Pos" ELSE "Neg", r.n), r.p)
  ELSE P("primary", ts, p)

Primary(ts, p) == IF p = 0 THEN Fail ELSE PostLoop(ts, P("prim0", ts, p))
PostLoop(ts, l) ==
  IF l.p = 0 THEN Fail
  ELSE IF Is(ts, l.p, "[")
       THEN LET i == P("cat", ts, l.p + 1)
            IN PostLoop(ts, OK(Bin("Subscript", l.n, i.n), Sk(ts, i.p, "]")))
  ELSE IF Is(ts, l.p, ".") /\ IsIdent(ts, l.p + 1)
       THEN LET name == ts[l.p + 1].v
            IN IF l.n.k # "Field" THEN PostLoop(ts, R(N("Field", <<name>>, <<l.n>>), l.p + 2))
               ELSE IF Len(l.n.a) = 1 /\ l.n.c = <<>>
                    THEN PostLoop(ts, R(N("Field", <<name, l.n.a[1]>>, <<>>), l.p + 2))
               ELSE Fail            \* longer names cannot be represented
  ELSE l

(* variables of a lambda replace the unqualified fields of that name *)
RECURSIVE Bindv(_, _)
Bindv(n, names) ==
  IF n.k = "Field" /\ Len(n.a) = 1 /\ n.c = <<>> /\ \E i \in 1..Len(names) : names[i] = n.a[1]
  THEN N("Var", <<n.a[1]>>, <<>>)
  ELSE [n EXCEPT !.c = [i \in 1..Len(n.c) |-> Bindv(n.c[i], names)]]
Dup(s) == \E i \in 1..Len(s) : \E j \in 1..(i - 1) : s[i] = s[j]
LambdaBody(ts, p, names) ==
  LET b == P("expr", ts, p)
  IN IF b.p = 0 \/ Dup(names) THEN Fail
     ELSE R(N("Lambda", names, <<Bindv(b.n, names)>>), b.p)
(* is there a lambda "( names ) ->" at p *)
ParenLambda(ts, p) == LET e == IF Is2(ts, p, "(", ")") THEN p + 2 ELSE ParenNames(ts, p).p
                      IN IF e # 0 /\ Is(ts, e, "->") THEN e + 1 ELSE 0

(* '(' at p: lambda, query, row or parenthesized expression *)
Paren(ts, p) ==
  LET lam == ParenLambda(ts, p)
      names == IF Is2(ts, p, "(", ")") THEN <<>> ELSE ParenNames(ts, p).n
      e == L("expr", ts, p + 1)
      ee == Sk(ts, e.p, ")")
      s == IF IsQueryStart(ts, FirstInside(ts, p)) THEN P("query", ts, p + 1) ELSE Fail
      se == Sk(ts, s.p, ")")
  IN IF lam # 0 THEN LambdaBody(ts, lam, names)
     ELSE IF ee # 0 THEN IF Len(e.n.c) = 1 THEN R(e.n.c[1], ee) ELSE R(N("Row", <<>>, e.n.c), ee)
     ELSE OK(s.n, se)

Whens(ts, p, acc) ==
  IF Is(ts, p, "WHEN")
  THEN LET c == P("expr", ts, p + 1)  v == P("expr", ts, Sk(ts, c.p, "THEN"))
       IN IF v.p = 0 THEN R(acc, 0) ELSE Whens(ts, v.p, Append(acc, Bin("When", c.n, v.n)))
  ELSE R(acc, IF Len(acc) = 0 THEN 0 ELSE p)
CaseP(ts, p) ==          \* p is after CASE
  LET simple == ~Is(ts, p, "WHEN")
      o == IF simple THEN P("expr", ts, p) ELSE R(None, p)
      w == Whens(ts, o.p, <<>>)
      els == w.p # 0 /\ Is(ts, w.p, "ELSE")
      e == IF els THEN P("expr", ts, w.p + 1) ELSE R(None, w.p)
      z == Sk(ts, e.p, "END")
  IN IF o.p = 0 THEN Fail ELSE OK(N("Case", <<>>, <<o.n, e.n>> \o w.n), z)

CastP(ts, p, k) ==       \* p is after CAST
  LET e == P("expr", ts, Sk(ts, p, "("))
      t == P("type", ts, Sk(ts, e.p, "AS"))
      z == Sk(ts, t.p, ")")
  IN IF t.p # 0 /\ t.n.a[1] = "UNKNOWN" THEN Fail ELSE OK(N(k, <<>>, <<e.n, t.n>>), z)

(* A word that starts a clause here rather than being an alias *)
ClauseAt(ts, p) ==
  \/ Is(ts, p, "LIMIT") /\ (TT(ts, p + 1) = "i" \/ Is(ts, p + 1, "ALL"))
  \/ Is(ts, p, "OFFSET") /\ TT(ts, p + 1) = "i"
  \/ Is(ts, p, "FETCH") /\ K(ts, p + 1) \in {"FIRST", "NEXT"}
  \/ Is(ts, p, "WINDOW") /\ IsIdent(ts, p + 1) /\ Is(ts, p + 2, "AS")
  \/ Is(ts, p, "TABLESAMPLE") /\ K(ts, p + 1) \in {"BERNOULLI", "SYSTEM"} /\ Is(ts, p + 2, "(")
  \/ Is(ts, p, "MATCH_RECOGNIZE") /\ Is(ts, p + 1, "(")
  \/ Is2(ts, p, "AT", "TIME") /\ Is(ts, p + 2, "ZONE")
(* ALL is a quantifier when an item and the end of the item follow it, a name otherwise *)
ItemEnd == {",", ")", "<EOF>", ";", "FROM", "WHERE", "GROUP", "HAVING", "WINDOW", "ORDER", "OFFSET", "LIMIT", "FETCH", "UNION",
            "EXCEPT", "INTERSECT", "ON"}
Quant(kind, ts, p) ==
  IF p = 0 THEN R("ALL", 0)
  ELSE IF Is(ts, p, "DISTINCT") THEN R("DISTINCT", p + 1)
  ELSE LET r == P(kind, ts, p + 1)
       IN IF Is(ts, p, "ALL") /\ r.p # 0 /\ K(ts, r.p) \in ItemEnd THEN R("ALL", p + 1) ELSE R("ALL", p)

(* ORDER BY items *)
OrderBy(ts, p) == IF Is2(ts, p, "ORDER", "BY") THEN L("sort", ts, p + 2) ELSE OK(List(<<>>), p)

OverP(ts, p) ==          \* p is after OVER
  IF Is(ts, p, "(") THEN LET w == P("winspec", ts, p + 1) IN OK(w.n, Sk(ts, w.p, ")"))
  ELSE LET i == Ident(ts, p) IN OK(DefaultWindow(i.n), i.p)
FilterP(ts, p) == IF Is2(ts, p, "FILTER", "(") /\ Is(ts, p + 2, "WHERE")
                  THEN LET e == P("expr", ts, p + 3) IN OK(e.n, Sk(ts, e.p, ")"))
                  ELSE OK(None, p)
OverAt(ts, p) == Is(ts, p, "OVER") /\ (Is(ts, p + 1, "(") \/ IsIdent(ts, p + 1))

(* what follows the arguments of a call *)
CallTail(ts, name, st) ==     \* st = [args, order, p, star]
  LET f == FilterP(ts, st.p)
      nt == Is(ts, f.p + 1, "NULLS") /\ K(ts, f.p) \in {"IGNORE", "RESPECT"} /\ OverAt(ts, f.p + 2) /\ ~st.star
      q == IF nt THEN f.p + 2 ELSE f.p
      nulls == IF nt THEN K(ts, f.p) ELSE "RESPECT"
      o == IF OverAt(ts, q) THEN OverP(ts, q + 1) ELSE OK(None, q)
      fn == Functions[name]
      plain == st.order = <<>> /\ IsNone(f.n) /\ IsNone(o.n) /\ ~nt
  IN IF st.p = 0 \/ f.p = 0 \/ o.p = 0 THEN Fail
     ELSE IF name \notin FnNames THEN Fail
     ELSE IF Len(st.args) < fn.lo \/ Len(st.args) > fn.hi THEN Fail
     ELSE IF ~fn.agg /\ ~plain THEN Fail
     ELSE IF name = "COUNT" /\ st.args[1].k = "Star" /\ (st.order # <<>> \/ nulls # "RESPECT") THEN Fail
     ELSE R(FnNode(name, nulls, st.args, st.order, f.n, o.n), o.p)
CallP(ts, p) ==          \* identifier '(' at p
  LET name == ToUpper(ts[p].v)
      star == Is2(ts, p + 2, "*", ")")
      lstar == IsIdent(ts, p + 2) /\ Is2(ts, p + 3, ".", "*") /\ Is(ts, p + 5, ")")
      q == Quant("expr", ts, p + 2)
      a == IF Is(ts, q.p, ")") \/ Is2(ts, q.p, "ORDER", "BY") THEN R(List(<<>>), q.p)
           ELSE L("expr", ts, q.p)
      o == IF a.p = 0 THEN Fail ELSE P("orderby", ts, a.p)
  IN IF star THEN CallTail(ts, name, [args |-> <<N("Star", <<>>, <<>>)>>, order |-> <<>>, p |-> p + 4, star |-> TRUE])
     ELSE IF lstar THEN CallTail(ts, name, [args |-> <<N("Star", <<ts[p + 2].v>>, <<>>)>>, order |-> <<>>,
                                            p |-> p + 6, star |-> TRUE])
     ELSE IF q.n = "DISTINCT" THEN Fail
     ELSE CallTail(ts, name, [args |-> a.n.c, order |-> o.n.c, p |-> Sk(ts, o.p, ")"), star |-> FALSE])

ListAggP(ts, p) ==       \* p is after LISTAGG
  LET q == Quant("expr", ts, Sk(ts, p, "("))
      e == P("expr", ts, IF Sk(ts, p, "(") = 0 THEN 0 ELSE q.p)
      sep == e.p # 0 /\ Is(ts, e.p, ",")
      s == IF sep THEN Str(ts, e.p + 1) ELSE R("", e.p)
      ov == s.p # 0 /\ Is2(ts, s.p, "ON", "OVERFLOW")
      err == ov /\ Is(ts, s.p + 2, "ERROR")
      tr == ov /\ Is(ts, s.p + 2, "TRUNCATE")
      fill == tr /\ TT(ts, s.p + 3) \in {"s", "us"}
      fs == IF fill THEN Str(ts, s.p + 3) ELSE R("...", s.p + 3)
      cnt == IF Is2(ts, fs.p, "WITH", "COUNT") THEN "WITH COUNT"
             ELSE IF Is2(ts, fs.p, "WITHOUT", "COUNT") THEN "WITHOUT COUNT" ELSE ""
      z == IF ~ov THEN s.p ELSE IF err THEN s.p + 3 ELSE IF tr /\ cnt # "" THEN fs.p + 2 ELSE 0
      c == Sk(ts, z, ")")
      w == IF c # 0 /\ Is2(ts, c, "WITHIN", "GROUP") /\ Is(ts, c + 2, "(") THEN c + 3 ELSE 0
      o == IF w # 0 /\ Is2(ts, w, "ORDER", "BY") THEN L("sort", ts, w + 2) ELSE Fail
      a == <<s.n>> \o (IF tr THEN <<"TRUNCATE", fs.n, cnt>> ELSE <<"ERROR">>)
  IN IF q.n = "DISTINCT" \/ e.p = 0 \/ s.p = 0 THEN Fail
     ELSE OK(N("ListAgg", a, <<e.n, o.n>>), Sk(ts, o.p, ")"))

Forms == {"NFD", "NFC", "NFKD", "NFKC"}
NormalizeP(ts, p) ==     \* p is after NORMALIZE
  LET e == P("cat", ts, Sk(ts, p, "("))
      f == e.p # 0 /\ Is(ts, e.p, ",")
      form == K(ts, e.p + 1)
  IN IF e.p = 0 THEN Fail
     ELSE IF f THEN IF form \in Forms THEN OK(N("Normalize", <<form>>, <<e.n>>), Sk(ts, e.p + 2, ")")) ELSE Fail
     ELSE OK(N("Normalize", <<>>, <<e.n>>), Sk(ts, e.p, ")"))

DtP(ts, p) ==
  LET name == K(ts, p)
      par == Is(ts, p + 1, "(")
  IN IF ~par THEN R(N("DtFn", <<name, "3">>, <<>>), p + 1)
     ELSE IF TT(ts, p + 2) = "i" /\ NatIn(ts[p + 2].v, 0, 12)
          THEN OK(N("DtFn", <<name, Canon(ts[p + 2].v)>>, <<>>), Sk(ts, p + 3, ")"))
     ELSE Fail

Prim0(ts, p) ==
  LET k == K(ts, p)
      t == TT(ts, p)
      intv == IntervalP(ts, p + 1)
      str == Str(ts, p)
      tstr == Str(ts, p + 1)
  IN IF p = 0 THEN Fail
     ELSE CASE k = "(" -> Paren(ts, p)
       [] t = "op" /\ k = "-" -> NumLit(ts, p + 1, "-")
       [] t \in {"i", "d", "e"} -> NumLit(ts, p, "")
       [] t \in {"s", "us"} -> OK(N("Lit", <<"str", str.n>>, <<>>), str.p)
       [] k = "NULL" -> R(N("Lit", <<"null">>, <<>>), p + 1)
       [] k \in {"TRUE", "FALSE"} -> R(N("Lit", <<"bool", k>>, <<>>), p + 1)
       [] k = "INTERVAL" /\ intv.p # 0 -> intv
       [] k = "DOUBLE" /\ Is(ts, p + 1, "PRECISION") /\ TT(ts, p + 2) \in {"s", "us"} ->
            LET s2 == Str(ts, p + 2) IN OK(N("TypeCons", <<"DOUBLE", s2.n>>, <<>>), s2.p)
       [] IsIdent(ts, p) /\ TT(ts, p + 1) \in {"s", "us"} ->
            LET ty == ToUpper(ts[p].v)
            IN IF tstr.p # 0 /\ TypeConsOK(ty, tstr.n) THEN R(N("TypeCons", <<ty, tstr.n>>, <<>>), tstr.p) ELSE Fail
       [] k = "ROW" /\ Is(ts, p + 1, "(") ->
            LET l == L("expr", ts, p + 2) IN OK(N("Row", <<>>, l.n.c), Sk(ts, l.p, ")"))
       [] k = "LISTAGG" -> ListAggP(ts, p + 1)
       [] k = "NORMALIZE" -> NormalizeP(ts, p + 1)
       [] k = "CASE" -> CaseP(ts, p + 1)
       [] k = "CAST" -> CastP(ts, p + 1, "Cast")
       [] k = "TRY_CAST" /\ Is(ts, p + 1, "(") -> CastP(ts, p + 1, "TryCast")
       [] k = "ARRAY" /\ Is(ts, p + 1, "[") ->
            LET l == L("expr", ts, p + 2) IN OK(N("Array", <<>>, l.n.c), Sk(ts, l.p, "]"))
       [] k = "CURRENT_DATE" -> R(N("DtFn", <<"CURRENT_DATE">>, <<>>), p + 1)
       [] k \in DtNames -> DtP(ts, p)
       [] k \in SessNames -> R(N("Sess", <<k>>, <<>>), p + 1)
       [] IsIdent(ts, p) /\ Is(ts, p + 1, "->") -> LambdaBody(ts, p + 2, <<ts[p].v>>)
       [] IsIdent(ts, p) /\ Is(ts, p + 1, "(") -> CallP(ts, p)
       [] IsIdent(ts, p) -> R(N("Field", <<ts[p].v>>, <<>>), p + 1)
       [] OTHER -> Fail

(* -------------------------------------------------- ordering and windows *)
SortItem(ts, p) ==
  LET e == P("expr", ts, p)
      d == IF e.p # 0 /\ K(ts, e.p) \in {"ASC", "DESC"} THEN K(ts, e.p) ELSE "ASC"
      q == IF e.p # 0 /\ K(ts, e.p) \in {"ASC", "DESC"} THEN e.p + 1 ELSE e.p
      nl == Is(ts, q, "NULLS") /\ K(ts, q + 1) \in {"FIRST", "LAST"}
  IN OK(N("Order", <<d, IF nl THEN K(ts, q + 1) ELSE "LAST">>, <<e.n>>),
        IF e.p = 0 THEN 0 ELSE IF nl THEN q + 2 ELSE q)
BoundP(ts, p) ==
  LET e == P("expr", ts, p)
  IN IF p = 0 THEN Fail
     ELSE IF Is(ts, p, "UNBOUNDED") /\ K(ts, p + 1) \in {"PRECEDING", "FOLLOWING"}
          THEN R(N("BUnb", <<K(ts, p + 1)>>, <<>>), p + 2)
     ELSE IF Is2(ts, p, "CURRENT", "ROW") THEN R(N("BCur", <<>>, <<>>), p + 2)
     ELSE IF e.p # 0 /\ K(ts, e.p) \in {"PRECEDING", "FOLLOWING"}
          THEN R(N("BOff", <<K(ts, e.p)>>, <<e.n>>), e.p + 1)
     ELSE Fail
Units == {"RANGE", "ROWS", "GROUPS"}
WinBody(ts, p1, parent) ==
  LET pt == IF Is2(ts, p1, "PARTITION", "BY") THEN L("expr", ts, p1 + 2) ELSE OK(List(<<>>), p1)
      o == P("orderby", ts, pt.p)
      framed == o.p # 0 /\ K(ts, o.p) \in Units
      unit == IF framed THEN K(ts, o.p) ELSE "RANGE"
      btw == framed /\ Is(ts, o.p + 1, "BETWEEN")
      dflt == DefaultWindow("")
      s == IF ~framed THEN OK(dflt.c[3], o.p) ELSE BoundP(ts, IF btw THEN o.p + 2 ELSE o.p + 1)
      e == IF ~btw THEN OK(dflt.c[4], s.p) ELSE BoundP(ts, Sk(ts, s.p, "AND"))
  IN IF p1 = 0 \/ pt.p = 0 \/ o.p = 0 THEN Fail
     ELSE OK(N("Window", <<parent, unit>>, <<pt.n, o.n, s.n, e.n>>), e.p)
(* a first word is the parent if the rest is a window then; a ')' follows every window *)
WinSpec(ts, p) ==
  LET a == IF IsIdent(ts, p) THEN WinBody(ts, p + 1, ts[p].v) ELSE Fail
  IN IF a.p # 0 /\ Is(ts, a.p, ")") THEN a ELSE WinBody(ts, p, "")

(* ------------------------------------------------------------------ queries *)
AliasAt(ts, p) == IsIdent(ts, p) /\ ~ClauseAt(ts, p)

SelItem(ts, p) ==
  LET pr == P("primary", ts, p)
      star == pr.p # 0 /\ Is2(ts, pr.p, ".", "*")
      st == IF pr.n.k = "Field" THEN N("Star", <<pr.n.a[1]>>, <<>>) ELSE N("Star", <<>>, <<pr.n>>)
      cols == IF star /\ Is(ts, pr.p + 2, "AS") THEN ParenNames(ts, pr.p + 3) ELSE R(<<>>, 0)
      e == P("expr", ts, p)
      al == IF Is(ts, e.p, "AS") THEN Ident(ts, e.p + 1)
            ELSE IF AliasAt(ts, e.p) THEN Ident(ts, e.p) ELSE R("", e.p)
      has == Is(ts, e.p, "AS") \/ AliasAt(ts, e.p)
  IN IF p = 0 THEN Fail
     ELSE IF Is(ts, p, "*") THEN R(N("Star", <<>>, <<>>), p + 1)
     ELSE IF star
          THEN IF pr.n.k = "Field" /\ (Len(pr.n.a) # 1 \/ pr.n.c # <<>>) THEN Fail
               ELSE IF Is(ts, pr.p + 2, "AS") THEN OK(N("AStar", cols.n, <<st>>), cols.p)
               ELSE R(st, pr.p + 2)
     ELSE IF e.p = 0 THEN Fail
     ELSE IF has THEN OK(N("As", <<al.n>>, <<e.n>>), al.p) ELSE e

GSetP(ts, p) ==
  LET e == P("expr", ts, p)
      l == IF Is2(ts, p, "(", ")") THEN R(List(<<>>), p + 1) ELSE L("expr", ts, p + 1)
      z == Sk(ts, l.p, ")")
  IN IF p = 0 THEN Fail
     ELSE IF Is(ts, p, "(") /\ z # 0 /\ (e.p = 0 \/ e.p <= z) THEN R(N("GSet", <<>>, l.n.c), z)
     ELSE OK(N("GSet", <<>>, <<e.n>>), e.p)
GElem(ts, p) ==
  LET l == L("expr", ts, p + 2)
      g == L("gset", ts, p + 3)
  IN IF p = 0 THEN Fail
     ELSE IF Is2(ts, p, "ROLLUP", "(") THEN OK(N("Rollup", <<>>, l.n.c), Sk(ts, l.p, ")"))
     ELSE IF Is2(ts, p, "CUBE", "(") THEN OK(N("Cube", <<>>, l.n.c), Sk(ts, l.p, ")"))
     ELSE IF Is2(ts, p, "GROUPING", "SETS") /\ Is(ts, p + 2, "(") THEN OK(N("GSets", <<>>, g.n.c), Sk(ts, g.p, ")"))
     ELSE GSetP(ts, p)

WinDef(ts, p) ==
  LET i == Ident(ts, p)
      w == IF i.p # 0 /\ Is2(ts, i.p, "AS", "(") THEN P("winspec", ts, i.p + 2) ELSE Fail
  IN OK(N("WinDef", <<i.n>>, <<w.n>>), Sk(ts, w.p, ")"))
WinNames(l) == [i \in 1..Len(l.c) |-> l.c[i].a[1]]

NamedQ(ts, p) ==
  LET i == Ident(ts, p)
      cols == IF Is(ts, i.p, "(") THEN ParenNames(ts, i.p) ELSE R(<<>>, i.p)
      q == IF Is2(ts, cols.p, "AS", "(") THEN P("query", ts, cols.p + 2) ELSE Fail
  IN IF i.p = 0 \/ cols.p = 0 THEN Fail
     ELSE OK(N("ARel", <<i.n>> \o cols.n, <<q.n>>), Sk(ts, q.p, ")"))

Query(ts, p) ==
  IF p = 0 THEN Fail
  ELSE IF Is(ts, p, "WITH")
       THEN LET w == L("namedq", ts, p + 1)
                q == P("qnowith", ts, w.p)
            IN IF Is(ts, p + 1, "RECURSIVE") THEN Fail
               ELSE OK([q.n EXCEPT !.c[1] = w.n], q.p)
  ELSE P("qnowith", ts, p)

QNoWith(ts, p) ==
  LET q == P("qterm", ts, p)
      o == P("orderby", ts, q.p)
      off == Is(ts, o.p, "OFFSET") /\ TT(ts, o.p + 1) = "i"
      p1 == IF ~off THEN o.p
            ELSE IF K(ts, o.p + 2) \in {"ROW", "ROWS"} THEN o.p + 3 ELSE o.p + 2
      lim == Is(ts, p1, "LIMIT")
      fet == Is(ts, p1, "FETCH")
      lall == lim /\ Is(ts, p1 + 1, "ALL")
      ln == lim /\ TT(ts, p1 + 1) = "i"
      fn == fet /\ TT(ts, p1 + 2) = "i"
      p2 == IF lim THEN IF lall \/ ln THEN p1 + 2 ELSE 0
            ELSE IF fet THEN LET a == IF K(ts, p1 + 1) \in {"FIRST", "NEXT"} THEN p1 + 2 ELSE 0
                                 b == IF a # 0 /\ fn THEN a + 1 ELSE a
                             IN IF K(ts, b) \in {"ROW", "ROWS"} /\ b # 0 THEN Sk(ts, b + 1, "ONLY") ELSE 0
            ELSE p1
      offv == IF off THEN Canon(ts[o.p + 1].v) ELSE ""
      limv == IF ln THEN Canon(ts[p1 + 1].v) ELSE IF fet THEN IF fn THEN Canon(ts[p1 + 2].v) ELSE "1" ELSE ""
      clauses == o.n.c # <<>> \/ off \/ lim \/ fet
      inner == q.n.c[2].c # <<>> \/ q.n.a[2] # "" \/ q.n.a[3] # ""
  IN IF q.p = 0 \/ o.p = 0 \/ p2 = 0 THEN Fail
     ELSE IF clauses /\ inner THEN Fail      \* constraints on a constrained query cannot be represented
     ELSE IF ~clauses THEN R(q.n, p2)
     ELSE R([q.n EXCEPT !.a[2] = offv, !.a[3] = limv, !.c[2] = o.n], p2)

SetQ(k, quant, l, r) == N(k, <<quant, "", "">>, <<List(<<>>), List(<<>>), l, r>>)
SQuant(ts, p) == IF K(ts, p) \in {"ALL", "DISTINCT"} THEN R(K(ts, p), p + 1) ELSE R("DISTINCT", p)
QTerm(ts, p) == IF p = 0 THEN Fail ELSE QTermLoop(ts, P("qint", ts, p))
QTermLoop(ts, l) ==
  IF l.p # 0 /\ K(ts, l.p) \in {"UNION", "EXCEPT"}
  THEN LET s == SQuant(ts, l.p + 1)
           r == P("qint", ts, s.p)
           k == IF K(ts, l.p) = "UNION" THEN "Union" ELSE "Except"
       IN IF k = "Except" /\ s.n = "ALL" THEN Fail
          ELSE QTermLoop(ts, OK(SetQ(k, s.n, l.n, r.n), r.p))
  ELSE l
QInt(ts, p) == IF p = 0 THEN Fail ELSE QIntLoop(ts, P("qprim", ts, p))
QIntLoop(ts, l) ==
  IF l.p # 0 /\ Is(ts, l.p, "INTERSECT")
  THEN LET s == SQuant(ts, l.p + 1)
           r == P("qprim", ts, s.p)
       IN IF s.n = "ALL" THEN Fail ELSE QIntLoop(ts, OK(SetQ("Intersect", s.n, l.n, r.n), r.p))
  ELSE l

QName(ts, p) ==           \* up to three name parts: n is a Table
  LET a == Ident(ts, p)
      b == IF a.p # 0 /\ Is(ts, a.p, ".") THEN Ident(ts, a.p + 1) ELSE R("", 0)
      c == IF b.p # 0 /\ Is(ts, b.p, ".") THEN Ident(ts, b.p + 1) ELSE R("", 0)
      hasb == a.p # 0 /\ Is(ts, a.p, ".")
      hasc == b.p # 0 /\ Is(ts, b.p, ".")
  IN IF a.p = 0 \/ (hasb /\ b.p = 0) \/ (hasc /\ c.p = 0) THEN Fail
     ELSE IF hasc THEN IF Is(ts, c.p, ".") THEN Fail ELSE R(N("Table", <<a.n, b.n, c.n>>, <<>>), c.p)
     ELSE IF hasb THEN R(N("Table", <<a.n, b.n>>, <<>>), b.p)
     ELSE R(N("Table", <<a.n>>, <<>>), a.p)

OptClause(ts, p, kw) == IF p = 0 THEN Fail ELSE IF Is(ts, p, kw) THEN P("expr", ts, p + 1) ELSE R(None, p)
SelectP(ts, p) ==         \* p is after SELECT
  LET q == Quant("sel", ts, p)
      s == L("sel", ts, q.p)
      f == IF s.p # 0 /\ Is(ts, s.p, "FROM") THEN P("rel", ts, s.p + 1) ELSE OK(None, s.p)
      w == OptClause(ts, f.p, "WHERE")
      grouped == w.p # 0 /\ Is2(ts, w.p, "GROUP", "BY")
      gq == Quant("gelem", ts, w.p + 2)
      gl == L("gelem", ts, gq.p)
      g == IF grouped THEN OK(N("GroupBy", <<gq.n>>, gl.n.c), gl.p) ELSE OK(None, w.p)
      h == OptClause(ts, g.p, "HAVING")
      win == IF h.p # 0 /\ Is(ts, h.p, "WINDOW") /\ IsIdent(ts, h.p + 1) /\ Is(ts, h.p + 2, "AS")
             THEN L("windef", ts, h.p + 1) ELSE OK(List(<<>>), h.p)
  IN IF s.p = 0 \/ win.p = 0 \/ Dup(WinNames(win.n)) THEN Fail
     ELSE IF f.p # 0 /\ Is(ts, f.p, ",") /\ ~IsNone(f.n) THEN Fail      \* only one relation
     ELSE R(N("Select", <<q.n, "", "">>, <<List(<<>>), List(<<>>), s.n, f.n, w.n, g.n, h.n, win.n>>), win.p)

QPrim(ts, p) ==
  IF p = 0 THEN Fail
  ELSE CASE Is(ts, p, "SELECT") -> SelectP(ts, p + 1)
    [] Is(ts, p, "TABLE") ->
         LET t == QName(ts, p + 1)
         IN OK(N("TableQ", <<"", "", "">>, <<List(<<>>), List(<<>>), t.n>>), t.p)
    [] Is(ts, p, "VALUES") ->
         LET l == L("expr", ts, p + 1)
         IN OK(N("Values", <<"", "", "">>, <<List(<<>>), List(<<>>), l.n>>), l.p)
    [] Is(ts, p, "(") -> LET q == P("qnowith", ts, p + 1) IN OK(q.n, Sk(ts, q.p, ")"))
    [] OTHER -> Fail

(* ---------------------------------------------------------------- relations *)
(* [ty, p]: join type at p, p = 0 when there is none *)
JoinAt(ts, p) ==
  LET k == K(ts, p)
      o == May(ts, p + 1, "OUTER")
  IN CASE Is(ts, p, "JOIN") -> [ty |-> "INNER", p |-> p + 1]
       [] Is2(ts, p, "INNER", "JOIN") -> [ty |-> "INNER", p |-> p + 2]
       [] k \in {"LEFT", "RIGHT", "FULL"} /\ Is(ts, o, "JOIN") -> [ty |-> k, p |-> o + 1]
       [] OTHER -> [ty |-> "", p |-> 0]
CritP(ts, p) ==
  LET e == P("expr", ts, p + 1)
      u == ParenNames(ts, p + 1)
  IN IF Is(ts, p, "ON") THEN OK(N("On", <<>>, <<e.n>>), e.p)
     ELSE IF Is(ts, p, "USING") THEN OK(N("Using", u.n, <<>>), u.p)
     ELSE Fail
JoinN(ty, nat, l, r, c) == N("Join", <<ty, nat>>, <<l, r, c>>)
Rel(ts, p) == IF p = 0 THEN Fail ELSE RelLoop(ts, P("sampled", ts, p))
RelLoop(ts, l) ==
  LET j == JoinAt(ts, l.p)
      nj == JoinAt(ts, l.p + 1)
      r == P("rel", ts, j.p)
      c == CritP(ts, r.p)
      x == P("sampled", ts, l.p + 2)
      nr == P("sampled", ts, nj.p)
  IN IF l.p = 0 THEN Fail
     ELSE IF Is2(ts, l.p, "CROSS", "JOIN") THEN RelLoop(ts, OK(JoinN("CROSS", "", l.n, x.n, None), x.p))
     ELSE IF Is(ts, l.p, "NATURAL") THEN
          IF nj.p = 0 THEN Fail ELSE RelLoop(ts, OK(JoinN(nj.ty, "NATURAL", l.n, nr.n, None), nr.p))
     ELSE IF j.p # 0 THEN
          IF r.p = 0 THEN Fail ELSE RelLoop(ts, OK(JoinN(j.ty, "", l.n, r.n, c.n), c.p))
     ELSE l
Sampled(ts, p) ==
  LET a == P("aliased", ts, p)
      e == P("expr", ts, a.p + 3)
  IN IF a.p = 0 THEN Fail
     ELSE IF Is(ts, a.p, "MATCH_RECOGNIZE") THEN Fail
     ELSE IF Is(ts, a.p, "TABLESAMPLE") /\ K(ts, a.p + 1) \in {"BERNOULLI", "SYSTEM"} /\ Is(ts, a.p + 2, "(")
          THEN OK(N("Sample", <<K(ts, a.p + 1)>>, <<a.n, e.n>>), Sk(ts, e.p, ")"))
     ELSE a
Aliased(ts, p) ==
  LET r == P("relprim", ts, p)
      as == Is(ts, r.p, "AS")
      i == IF as THEN Ident(ts, r.p + 1) ELSE IF AliasAt(ts, r.p) THEN Ident(ts, r.p) ELSE R("", 0)
      has == as \/ AliasAt(ts, r.p)
      cols == IF Is(ts, i.p, "(") THEN ParenNames(ts, i.p) ELSE R(<<>>, i.p)
  IN IF r.p = 0 THEN Fail
     ELSE IF ~has THEN r
     ELSE IF i.p = 0 THEN Fail
     ELSE OK(N("ARel", <<i.n>> \o cols.n, <<r.n>>), cols.p)
RelPrim(ts, p) ==
  LET q == IF IsQueryStart(ts, FirstInside(ts, p)) THEN P("query", ts, p + 1) ELSE Fail
      qe == Sk(ts, q.p, ")")
      r == P("rel", ts, p + 1)
      u == L("expr", ts, p + 2)
      ue == Sk(ts, u.p, ")")
      ord == Is2(ts, ue, "WITH", "ORDINALITY")
      lq == P("query", ts, p + 2)
  IN IF p = 0 THEN Fail
     ELSE IF Is(ts, p, "(") THEN IF qe # 0 THEN R(q.n, qe) ELSE OK(r.n, Sk(ts, r.p, ")"))
     ELSE IF Is2(ts, p, "UNNEST", "(")
          THEN OK(N("Unnest", <<IF ord THEN "ORD" ELSE "">>, u.n.c), IF ue = 0 THEN 0 ELSE IF ord THEN ue + 2 ELSE ue)
     ELSE IF Is2(ts, p, "LATERAL", "(") THEN OK(N("Lateral", <<>>, <<lq.n>>), Sk(ts, lq.p, ")"))
     ELSE QName(ts, p)

P(kind, ts, p) ==
  CASE kind = "expr" -> Expr(ts, p)
    [] kind = "pred" -> Pred(ts, p)
    [] kind = "prim0" -> Prim0(ts, p)
    [] kind = "qterm" -> QTerm(ts, p)
    [] kind = "aliased" -> Aliased(ts, p)
    [] kind = "relprim" -> RelPrim(ts, p)
    [] kind = "and" -> And1(ts, p)
    [] kind = "not" -> Not1(ts, p)
    [] kind = "cat" -> Cat1(ts, p)
    [] kind = "add" -> Add1(ts, p)
    [] kind = "mul" -> Mul1(ts, p)
    [] kind = "unary" -> Unary(ts, p)
    [] kind = "primary" -> Primary(ts, p)
    [] kind = "query" -> Query(ts, p)
    [] kind = "qnowith" -> QNoWith(ts, p)
    [] kind = "qint" -> QInt(ts, p)
    [] kind = "qprim" -> QPrim(ts, p)
    [] kind = "rel" -> Rel(ts, p)
    [] kind = "sampled" -> Sampled(ts, p)
    [] kind = "winspec" -> WinSpec(ts, p)
    [] kind = "orderby" -> OrderBy(ts, p)
    [] kind = "type" -> Type(ts, p)
    [] kind = "sort" -> SortItem(ts, p)
    [] kind = "sel" -> SelItem(ts, p)
    [] kind = "gelem" -> GElem(ts, p)
    [] kind = "gset" -> GSetP(ts, p)
    [] kind = "windef" -> WinDef(ts, p)
    [] kind = "namedq" -> NamedQ(ts, p)

(* ------------------------------------------------------------ whole texts *)
Accept(n) == [ok |-> TRUE, n |-> n]
Reject == [ok |-> FALSE, n |-> None]
Whole(r, ts) == IF r.p = Len(ts) + 1 THEN Accept(r.n) ELSE Reject
NoBad(ts) == \A i \in 1..Len(ts) : ts[i].t \notin {"bad", "bq", "di", "b"}
ParseExpr(s) == LET ts == Lex(s) IN IF NoBad(ts) /\ Len(ts) > 0 THEN Whole(P("expr", ts, 1), ts) ELSE Reject
ParseType(s) == LET ts == Lex(s) IN IF NoBad(ts) /\ Len(ts) > 0 THEN Whole(P("type", ts, 1), ts) ELSE Reject
ParseQuery(s) ==
  LET ts == Lex(s)
      us == IF Len(ts) > 0 /\ K(ts, Len(ts)) = ";" THEN SubSeq(ts, 1, Len(ts) - 1) ELSE ts
  IN IF NoBad(ts) /\ Len(us) > 0 THEN Whole(P("query", us, 1), us) ELSE Reject
Parse(what, s) == CASE what = "expr" -> ParseExpr(s)
                    [] what = "type" -> ParseType(s)
                    [] what = "query" -> ParseQuery(s)
=============================================================================
