------------------------------- MODULE System -------------------------------
(* The library as a state machine.  The state is the sequence of objects a caller  *)
(* holds (trees and texts, in the order they were obtained); every call is an      *)
(* action which reads some of them and adds what it returns.  Holds(c, h, e) says  *)
(* when the observed call e, made in state h, satisfies clause c of its contract;  *)
(* Effect(h, e) is the state after it.  e.cl lists the clauses a call is held to.  *)
EXTENDS Layout, Scope

Tree(what, n) == [t |-> "tree", what |-> what, n |-> n, s |-> "", m |-> ""]
Text(what, n, s, m) == [t |-> "text", what |-> what, n |-> n, s |-> s, m |-> m]   \* n: what it is a text of
Gone == [t |-> "gone", what |-> "", n |-> None, s |-> "", m |-> ""]

(* the window definitions of a query are a mapping: their order does not count *)
RECURSIVE AsMap(_)
InSet(list) == {list[i] : i \in 1..Len(list)}
AsMap(n) ==         \* the window definitions as an order-free value: kept in a set under one key
  LET m == [k |-> n.k, a |-> n.a, c |-> [i \in 1..Len(n.c) |-> AsMap(n.c[i])]]
  IN IF n.k = "List" /\ n.c # <<>> /\ n.c[1].k = "WinDef" THEN [k |-> "Map", a |-> <<>>, c |-> <<InSet(m.c)>>] ELSE m
SameTree(n, m) == n = m \/ AsMap(n) = AsMap(m)


Same(a, b) == a = b \/ Norm(a) = Norm(b)
Live(h, o) == o <= Len(h) /\ h[o].t # "gone"

(* text that may be rejected although a tree for it exists: lambdas over queries, *)
(* and decimals written with an exponent                                                          *)
RECURSIVE MayReject(_)
MayReject(n) == \/ n.k = "Lambda" /\ Has(n.c[1], QueryKinds)
                \/ n.k = "TypeCons" /\ n.a[1] = "DECIMAL" /\ Exponent(n.a[2])
                \/ \E i \in 1..Len(n.c) : MayReject(n.c[i])

(* ------------------------------------------------------------- visitors *)
(* what a visitor is shown below n: every expression, relation, window, ordering  *)
(* and grouping node, and the variables that a lambda declares                      *)
RECURSIVE Visited(_)
Visited(n) ==
  LET kids == FlattenSeq([i \in 1..Len(n.c) |-> Visited(n.c[i])])
  IN CASE n.k \in {"None", "Using", "Type"} -> <<>>
       [] n.k \in {"List", "WinDef", "On"} -> kids
       [] n.k = "Lambda" -> <<n>> \o [i \in 1..Len(n.a) |-> N("Var", <<n.a[i]>>, <<>>)] \o kids
       [] OTHER -> <<n>> \o kids
Times(x, s) == Len(SelectSeq(s, LAMBDA y : y = x))
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Times(s[i], s) = Times(s[i], t)

(* ------------------------------------------------- what a caller spells *)
(* Python expressions over objects (PyRef), values (PyVal), operators (PyBin, PyUn) *)
(* and constructors (every other node): the tree they spell, None when the caller    *)
(* must be told that they spell nothing.                                             *)
PyBins == [x \in {"+", "-", "*", "/", "%", "==", "!=", "<", "<=", ">", ">=", "&", "|"} |->
  CASE x = "+" -> "Add" [] x = "-" -> "Sub" [] x = "*" -> "Mul" [] x = "/" -> "Div" [] x = "%" -> "Mod" [] x = "==" -> "Eq" [] x = "!=" -> "Ne"
    [] x = "<" -> "Lt" [] x = "<=" -> "Le" [] x = ">" -> "Gt" [] x = ">=" -> "Ge" [] x = "&" -> "And" [] OTHER -> "Or"]
RECURSIVE Spelled(_, _)
Spelled(h, n) ==
  LET kids == [i \in 1..Len(n.c) |-> IF n.c[i].k = "None" THEN None ELSE Spelled(h, n.c[i])]
      fails == \E i \in 1..Len(n.c) : n.c[i].k # "None" /\ kids[i].k = "None"
  IN IF fails THEN None
     ELSE CASE n.k = "PyRef" -> h[IntOf(n.a[1])].n
            [] n.k = "PyVal" -> IF n.a[1] \in {"none", "list", "tuple", "dict", "object", "nan", "inf"} THEN None ELSE N("Lit", n.a, <<>>)
            [] n.k = "PyUn" -> N(CASE n.a[1] = "+" -> "Pos" [] n.a[1] = "-" -> "Neg" [] OTHER -> "Not", <<>>, kids)
            [] n.k = "PyBin" -> IF n.a[1] = "**" THEN N("Fn", <<"POWER", "RESPECT">>, <<List(kids), List(<<>>), None, None>>) ELSE N(PyBins[n.a[1]], <<>>, kids)
            [] OTHER -> [n EXCEPT !.c = kids]
RECURSIVE RefsIn(_)
RefsIn(n) == IF n.k = "PyRef" THEN {IntOf(n.a[1])} ELSE UNION {RefsIn(n.c[i]) : i \in 1..Len(n.c)}

(* what can be built at all *)
InRange(t, lo, hi) == IntOf(t) >= lo /\ IntOf(t) <= hi
ValidType(n) ==        \* all parameters are given
  LET k == n.a[1]  ps == Tail(n.a)
  IN CASE k \in SimpleTypes -> ps = <<>> /\ n.c = <<>>
       [] k = "DECIMAL" -> Len(ps) = 2 /\ InRange(ps[1], 1, 38) /\ InRange(ps[2], 0, IntOf(ps[1]))
       [] k = "VARCHAR" -> ps = <<>> \/ InRange(ps[1], 0, 2147483646)
       [] k = "CHAR" -> InRange(ps[1], 0, 65536)
       [] k \in {"TIME", "TIMESTAMP"} -> ps[1] = "" \/ InRange(ps[1], 0, 12)
       [] k = "INTERVAL" -> ps \in {<<"YEAR", "MONTH">>, <<"DAY", "SECOND">>}
       [] k \in {"ARRAY", "QDIGEST"} -> Len(n.c) = 1
       [] k = "MAP" -> Len(n.c) = 2
       [] k = "ROW" -> n.c # <<>>
       [] OTHER -> FALSE
RECURSIVE Buildable(_)
Buildable(n) ==
  /\ \A i \in 1..Len(n.c) : Buildable(n.c[i])
  /\ CASE n.k = "Join" -> IF n.a[1] = "CROSS" THEN n.a[2] = "" /\ n.c[3].k = "None" ELSE (n.a[2] = "NATURAL") # (n.c[3].k # "None")
       [] n.k = "Type" -> ValidType(n)
       [] OTHER -> TRUE

(* some text denotes n *)
Expressible(w, n) == LET r == Parse(w, Render(w, n, Styles[1])) IN r.ok /\ Same(r.n, n)
Escaped(s) == FoldLeft(LAMBDA a, i : a \o (LET x == At(s, i) IN CASE x = "\n" -> "\\n" [] x = "\t" -> "\\t" [] x = "\r" -> "\\r" [] OTHER -> x), "", [i \in 1..Len(s) |-> i])
Mode(e) == e.mode \o ToString(e.sp)
RECURSIVE Holds(_, _, _)
Holds(c, h, e) ==
  CASE c = "tree" ->                    \* parse: exactly the tree the grammar denotes, or a rejection
         LET r == Parse(e.what, e.text) IN IF r.ok THEN (e.ok /\ e.n = r.n) \/ (~e.ok /\ MayReject(r.n)) ELSE ~e.ok
    [] c = "built" -> e.ok /\ e.n = e.tree                     \* build: the tree that was asked for
    [] c = "reads" ->                   \* sql: the text denotes the tree it was printed from
         e.ok /\ LET r == Parse(h[e.o].what, e.text) IN r.ok /\ Same(r.n, h[e.o].n)
    [] c = "possible" -> Expressible(WhatOf(e.tree), e.tree) => e.ok /\ e.n = e.tree
    [] c = "mayread" -> Expressible(h[e.o].what, h[e.o].n) => Holds("reads", h, e)
    [] c = "tokens" -> e.ok /\ Raw(e.text) = Raw(h[e.ref].s)     \* the same tokens as another text
    [] c = "same" -> e.ok /\ e.text = h[e.ref].s                 \* the very same text
    [] c = "fix" -> e.ok /\ Same(e.n, h[e.o].n)                   \* reparse: an equal tree
    [] c = "equal" -> e.ok /\ e.b = (IF e.ref # 0 /\ SameTree(h[e.o].n, h[e.ref].n) THEN "TRUE" ELSE "FALSE")   \* nothing else equals a tree
    [] c = "valid" -> IF Buildable(e.tree) THEN e.ok /\ e.n = e.tree ELSE ~e.ok      \* built exactly when it can be
    [] c = "visits" -> e.ok /\ SameBag(e.log, Visited(h[e.o].n)) /\ e.n = h[e.o].n   \* every node once, and the tree is as before
    [] c = "spelled" -> LET n == Spelled(h, e.tree) IN IF n.k = "None" THEN ~e.ok ELSE e.ok /\ e.n = n
    [] c = "again" -> e.ok /\ \A i \in 1..Len(h) : (h[i].t = "text" /\ h[i].m = Mode(e) /\ SameTree(h[i].n, h[e.o].n)) => h[i].s = e.text
    [] c = "laid" -> e.ok /\ e.text = Laid(h[e.o].n, e.mode, e.sp)     \* line by line
    [] c = "typable" -> Typable(e.tree) => e.ok /\ e.n = e.tree
    [] c = "typed" -> e.ok /\ e.n = TypeOf(h[e.o].n)          \* the type inferred for a tree
    [] c = "infers" -> Typable(e.tree) => e.ok /\ e.n = TypeOf(e.tree)
    [] c = "scoped" ->                  \* the tree with the types of its references, and its columns
         LET r == Resolved(h[e.o].n, e.tree)
         IN IF ~r.ok THEN ~e.ok ELSE ~Typable(r.n) \/ ~Rectangular(r.n) \/ (e.ok /\ e.n = List(<<r.n, OutCols(r.sc)>>))
    [] c = "told" ->                    \* the schema command: a line for each column, when there are any
         LET r == Resolved(h[e.o].n, List(<<>>))
             col(i) == r.sc.cols[i]
             line(i) == LET m == e.n.c[i] IN m.a[1] = (IF col(i).nm = <<>> THEN "<none>" ELSE col(i).nm[1])
                                             /\ (IF col(i).ty = UnkT THEN m.a[2] = "<unknown>" ELSE LET t == Parse("type", m.a[2]) IN t.ok /\ t.n = col(i).ty)
         IN IF ~r.ok THEN ~e.ok ELSE ~Typable(r.n) \/ ~Rectangular(r.n) \/ (e.ok /\ (IF r.sc.cols = <<>> THEN e.n = N("Line", <<"Unknown schema", "">>, <<>>)
                                                                                 ELSE e.n.k = "List" /\ Len(e.n.c) = Len(r.sc.cols) /\ \A i \in 1..Len(e.n.c) : line(i)))
    [] c = "shown" ->                   \* the tree command: the whole tree, after it has been resolved
         IF e.what # "query" THEN e.ok /\ e.n = h[e.o].n
         ELSE LET r == Resolved(h[e.o].n, List(<<>>)) IN IF ~r.ok THEN ~e.ok ELSE ~Typable(r.n) \/ ~Rectangular(r.n) \/ (e.ok /\ SameTree(e.n, h[e.o].n))
    [] c = "leaves" ->                  \* the antlr-tree command: every token, in order (and rules without any)
         e.ok /\ SelectSeq(e.n.a, LAMBDA x : x \notin {"joinType", "windowSpecification"}) = LET ts == Raw(e.text) IN [i \in 1..Len(ts) |-> Escaped(ts[i])] \o (IF e.what = "query" THEN <<>> ELSE <<"<EOF>">>)
    [] c = "super" -> LET t == CASE e.mode = "super" -> Super(e.tree.c[1], e.tree.c[2]) [] e.mode = "arith" -> Arithmetic(e.tree.c[1], e.tree.c[2]) [] OTHER -> Common(e.tree.c)
                      IN IF t.k = "None" THEN ~e.ok ELSE e.ok /\ e.n = t
    [] OTHER -> FALSE

(* Known findings (known-findings.txt): the observations that are wrong in exactly  *)
(* the recorded way.  "sample-double": a DOUBLE literal as the percentage of a       *)
(* TABLESAMPLE is printed without its exponent, and reads as the decimal it equals.  *)
DblAsDec(n) ==      \* the decimal with one digit after the point at least
  LET e == IntOf(n.a[4])
      z == IF e >= 0 THEN e + 1 ELSE 0
      f == IF e >= 0 THEN 1 ELSE 0 - e
  IN IF n.a[3] = "0" THEN N("Lit", <<"dec", "", "0", "1">>, <<>>)
     ELSE N("Lit", <<"dec", n.a[2], n.a[3] \o Zeros(z), ToString(f)>>, <<>>)
RECURSIVE SamplesAsPrinted(_)
SamplesAsPrinted(n) ==
  LET m == [n EXCEPT !.c = [i \in 1..Len(n.c) |-> SamplesAsPrinted(n.c[i])]]
  IN IF m.k = "Sample" /\ m.c[2].k = "Lit" /\ m.c[2].a[1] = "dbl" THEN [m EXCEPT !.c[2] = DblAsDec(m.c[2])] ELSE m
Finding(c, h, e) ==
  CASE c \in {"reads", "mayread"} /\ e.ok -> LET r == Parse(h[e.o].what, e.text)
                             IN IF r.ok /\ Same(SamplesAsPrinted(r.n), SamplesAsPrinted(h[e.o].n)) THEN "sample-double" ELSE ""
    [] c = "fix" /\ e.ok -> IF Same(SamplesAsPrinted(e.n), SamplesAsPrinted(h[e.o].n)) THEN "sample-double" ELSE ""
    [] OTHER -> ""

Effect(h, e) ==
  CASE e.op \in {"parse", "load", "build", "reparse", "pyop"} ->
         Append(h, IF e.ok THEN Tree(WhatOf(e.n), e.n) ELSE Gone)
    [] e.op \in {"sql", "cli", "str"} -> Append(h, IF e.ok THEN Text(e.what, h[e.o].n, e.text, Mode(e)) ELSE Gone)
    [] e.op = "poke" -> [h EXCEPT ![e.o] = Gone]       \* the caller's own doing
    [] OTHER -> h

(* a call on an object that was never obtained says nothing *)
Applies(h, e) ==
  CASE e.op \in {"sql", "equals", "visit", "str", "reparse", "cli", "poke", "dtype", "scope", "schema", "shown", "antlr"} -> Live(h, e.o) /\ (e.ref = 0 \/ Live(h, e.ref))
    [] e.op = "pyop" -> \A i \in RefsIn(e.tree) : Live(h, i)
    [] OTHER -> TRUE
(* nothing that a caller holds ever changes, unless the caller changes it: snap is what all of them look like after the call *)
Frozen(h, e) == LET after == Effect(h, e)
                IN Len(e.snap) = Len(after) /\ \A i \in 1..Len(after) : after[i].t = "tree" => e.snap[i] = after[i].n
Failed(h, e) == IF Applies(h, e) THEN SelectSeq(e.cl, LAMBDA c : ~Holds(c, h, e)) \o (IF e.snap # <<>> /\ ~Frozen(h, e) THEN <<"frozen">> ELSE <<>>) ELSE <<>>
=============================================================================
