-------------------------------- MODULE Ast --------------------------------
(* Abstract trees of SQL.  A node is [k, a, c]: kind, attributes (strings),     *)
(* children (nodes).  An absent child is None, a list of children is a List.    *)
(*                                                                              *)
(* Expressions                                                                  *)
(*  Lit a=<<"null">> | <<"bool",TRUE/FALSE>> | <<"int",sign,digits>>            *)
(*        | <<"dec",sign,digits,scale>> | <<"dbl",sign,digits,exp>>             *)
(*        | <<"str",content>>                                                   *)
(*  Field a=<<name>> | <<name,table>> | a=<<name>> c=<<base>>                   *)
(*  Star a=<<>>|<<table>>|c=<<base>>   AStar a=aliases c=<<Star>>               *)
(*  As a=<<alias>> c=<<e>>   Lambda a=names c=<<body>>   Var a=<<name>>         *)
(*  Pos Neg Not IsNull c=<<e>>   Add Sub Mul Div Mod Eq Ne Gt Ge Lt Le And Or   *)
(*  Distinct c=<<l,r>>   Between c=<<v,lo,hi>>   Array Row c=values             *)
(*  InList c=<<v,e..>>   InQuery c=<<v,query>>   Like c=<<v,pat,escape|None>>   *)
(*  TypeCons a=<<type,value>>   Interval a=<<value,from,to>>                    *)
(*  Cast TryCast c=<<e,Type>>   Subscript c=<<v,index>>                         *)
(*  Case c=<<operand|None, else|None, When..>>   When c=<<cond,value>>          *)
(*  Fn a=<<NAME,nulls>> c=<<List args, List orderby, filter|None, window|None>> *)
(*  ListAgg a=<<sep,"ERROR">>|<<sep,"TRUNCATE",filler,count>> c=<<e,List order>>*)
(*  Normalize a=<<>>|<<form>> c=<<e>>   DtFn a=<<name,precision>>|<<name>>      *)
(*  Sess a=<<name>>                                                             *)
(* Types  Type a=<<NAME,params..>> c=element types                              *)
(* Queries: a=<<quantifier,offset,limit>>, c[1]=List with, c[2]=List orderby    *)
(*  Select c=<<.., List select, from, where, groupby, having, List windows>>    *)
(*  Union Intersect Except c=<<.., left, right>>   TableQ c=<<.., Table>>       *)
(*  Values c=<<.., List exprs>>                                                 *)
(* Relations: Table a=name parts   ARel a=<<alias,columns..>> c=<<rel>>         *)
(*  Join a=<<type,natural>> c=<<l,r,None|On c=<<e>>|Using a=names>>             *)
(*  Unnest a=<<"ORD"|"">> c=arrays   Lateral c=<<query>>                        *)
(*  Sample a=<<type>> c=<<rel,percentage>>                                      *)
(* GroupBy a=<<quantifier>> c=groups; GSet Cube Rollup c=values; GSets c=GSets  *)
(* Order a=<<direction,nulls>> c=<<e>>                                          *)
(* Window a=<<parent,unit>> c=<<List partitions, List order, start, end>>       *)
(* WinDef a=<<name>> c=<<Window>>                                               *)
(* BUnb a=<<dir>>   BCur   BOff a=<<dir>> c=<<e>>                               *)
EXTENDS Naturals, Sequences, TLC

N(k, a, c) == [k |-> k, a |-> a, c |-> c]
None == N("None", <<>>, <<>>)
List(c) == N("List", <<>>, c)
IsNone(n) == n.k = "None"

QueryKinds == {"Select", "TableQ", "Values", "Union", "Intersect", "Except"}
SetKinds == {"Union", "Intersect", "Except"}
RelKinds == QueryKinds \cup {"Table", "ARel", "Join", "Unnest", "Lateral", "Sample"}
CmpKinds == {"Eq", "Ne", "Gt", "Ge", "Lt", "Le"}
ArithKinds == {"Add", "Sub", "Mul", "Div", "Mod"}

DefaultWindow(parent) ==
  N("Window", <<parent, "RANGE">>,
    <<List(<<>>), List(<<>>), N("BUnb", <<"PRECEDING">>, <<>>), N("BCur", <<>>, <<>>)>>)

(* Not(Eq) and Ne (and the other way round) are one predicate *)
RECURSIVE Norm(_)
Norm(n) ==
  LET m == [n EXCEPT !.c = [i \in 1..Len(n.c) |-> Norm(n.c[i])]]
  IN  IF m.k = "Not" /\ m.c[1].k = "Eq" THEN [m.c[1] EXCEPT !.k = "Ne"]
      ELSE IF m.k = "Not" /\ m.c[1].k = "Ne" THEN [m.c[1] EXCEPT !.k = "Eq"]
      ELSE m

RECURSIVE Size(_)
RECURSIVE SizeSum(_, _)
SizeSum(c, i) == IF i > Len(c) THEN 0 ELSE Size(c[i]) + SizeSum(c, i + 1)
Size(n) == (IF n.k \in {"None", "List"} THEN 0 ELSE 1) + SizeSum(n.c, 1)

(* does a node of one of the kinds K occur in n *)
RECURSIVE Has(_, _)
Has(n, K) == n.k \in K \/ \E i \in 1..Len(n.c) : Has(n.c[i], K)

(* a compact, injective text form of a node, for reports *)
RECURSIVE Show(_)
RECURSIVE ShowC(_, _)
ShowA(a) == LET RECURSIVE F(_) F(i) == IF i > Len(a) THEN ""
                                       ELSE (IF i > 1 THEN "," ELSE "") \o a[i] \o F(i + 1)
            IN F(1)
ShowC(c, i) == IF i > Len(c) THEN ""
               ELSE (IF i > 1 THEN " " ELSE "") \o Show(c[i]) \o ShowC(c, i + 1)
Show(n) == IF n.k = "None" THEN "-"
           ELSE n.k \o (IF n.a # <<>> THEN "{" \o ShowA(n.a) \o "}" ELSE "")
                    \o (IF n.c # <<>> THEN "(" \o ShowC(n.c, 1) \o ")" ELSE "")

(* path of the first difference between two trees, "" when they are the same *)
RECURSIVE Diff(_, _, _)
RECURSIVE DiffC(_, _, _, _)
DiffC(x, y, i, path) == IF i > Len(x) THEN ""
                        ELSE LET d == Diff(x[i], y[i], path \o "." \o ToString(i))
                             IN IF d # "" THEN d ELSE DiffC(x, y, i + 1, path)
Diff(x, y, path) ==
  IF x = y THEN ""
  ELSE IF x.k # y.k \/ x.a # y.a \/ Len(x.c) # Len(y.c)
       THEN path \o ": " \o Show(x) \o " / " \o Show(y)
  ELSE DiffC(x.c, y.c, 1, path)
=============================================================================
