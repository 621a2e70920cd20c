-------------------------------- MODULE Scope --------------------------------
(* Names: which column a reference denotes, and the columns of a query.              *)
(* A column is [nm, src, ty]: its name, the relation it can be qualified by (each    *)
(* <<>> when there is none) and its type.  A scope is the columns of a FROM clause,  *)
(* the names of its relations, and those of its relations (<<>>: without a name)     *)
(* that have more columns than are known.  References look through a chain of        *)
(* scopes, the innermost first.  A table is [id, quals, cte, cols, part]: quals are   *)
(* its schema and catalogue, as far as known.                                        *)
(* The resolved tree has the type of every column reference, star, query and UNNEST  *)
(* as the last child, and of queries just WITH, SELECT and FROM.                       *)
EXTENDS Infer

ColOf(nm, src, ty) == [nm |-> nm, src |-> src, ty |-> ty]
ScopeOf(cols, ids, part) == [cols |-> cols, ids |-> ids, part |-> part]
NoScope == ScopeOf(<<>>, {}, {})
Wrong == [ok |-> FALSE, n |-> None, sc |-> NoScope]
Right(n, sc) == [ok |-> TRUE, n |-> n, sc |-> sc]
TypesOf(cols) == [i \in 1..Len(cols) |-> cols[i].ty]
AllOK(rs) == \A i \in 1..Len(rs) : rs[i].ok
Nodes(rs) == [i \in 1..Len(rs) |-> rs[i].n]
Only(cols, keep(_)) == SelectSeq(cols, keep)

(* ------------------------------------------------------------ the columns *)
(* the columns of a relation under its one name *)
Sourced(sc, id) ==
  ScopeOf([i \in 1..Len(sc.cols) |-> [sc.cols[i] EXCEPT !.src = id]], IF id = <<>> THEN {} ELSE {id[1]}, IF sc.part = {} THEN {} ELSE {id})
(* under new names, when there are as many of them as columns; of a relation with unknown columns, just the names *)
CanRename(sc, names) == sc.part # {} \/ Len(names) = Len(sc.cols)
Renamed(sc, names) ==
  IF sc.part # {} THEN ScopeOf([i \in 1..Len(names) |-> ColOf(<<names[i]>>, <<>>, UnkT)], {}, {})
  ELSE ScopeOf([i \in 1..Len(names) |-> [sc.cols[i] EXCEPT !.nm = <<names[i]>>]], {}, {})

(* the column that <<name>> or <<name, relation>> denotes: its type, UNKNOWN when there is none, None when it is ambiguous *)
RECURSIVE Denoted(_, _)
Denoted(a, ch) ==
  IF ch = <<>> THEN UnkT
  ELSE LET here == Only(ch[1].cols, LAMBDA x : x.nm = <<a[1]>> /\ (Len(a) = 1 \/ x.src = <<a[2]>>))
       IN IF Len(here) > 1 THEN None
          ELSE IF Len(here) = 1 THEN here[1].ty
          ELSE IF (IF Len(a) = 2 THEN a[2] \in ch[1].ids ELSE ch[1].part # {}) THEN UnkT    \* it may be one that is not known
          ELSE Denoted(a, Tail(ch))
Unknowns == ScopeOf(<<>>, {}, {<<>>})
RECURSIVE StarCols(_, _)       \* s is resolved
StarCols(s, ch) ==
  IF s.c # <<>> THEN LET t == TypeOf(s.c[1])
                     IN IF NameOf(t) = "ROW" THEN ScopeOf([i \in 1..Len(t.c) |-> ColOf(<<>>, <<>>, t.c[i])], {}, {}) ELSE Unknowns
  ELSE IF s.a = <<>> THEN ch[1]
  ELSE IF ch = <<>> THEN Unknowns
  ELSE IF s.a[1] \in ch[1].ids
       THEN ScopeOf(Only(ch[1].cols, LAMBDA x : x.src = s.a), {s.a[1]}, ch[1].part \cap {s.a})
  ELSE StarCols(s, Tail(ch))
RowOr(sc) == IF sc.part # {} THEN UnkT ELSE RowT(TypesOf(sc.cols))
OneOrRow(sc) == IF sc.part # {} THEN UnkT ELSE IF Len(sc.cols) = 1 THEN sc.cols[1].ty ELSE RowT(TypesOf(sc.cols))
Fields(t) == IF NameOf(t) = "ROW" THEN t.c ELSE <<t>>
Typed(n, t) == [n EXCEPT !.c = Append(n.c, t)]

(* ------------------------------------------------------------- the tables *)
Denotes(a, e) ==        \* a: <<name>>, <<schema, name>> or <<catalogue, schema, name>>
  /\ e.id = a[Len(a)]
  /\ Len(a) > 1 => ~e.cte /\ \A i \in 1..(Len(a) - 1) : i <= Len(e.quals) => e.quals[i] = a[Len(a) - i]
TableScope(a, tabs) ==
  LET id == <<a[Len(a)]>>
      found == Only(tabs, LAMBDA e : Denotes(a, e))
      cols == FlattenSeq([i \in 1..Len(found) |-> [j \in 1..Len(found[i].cols) |-> [found[i].cols[j] EXCEPT !.src = id]]])
  IN ScopeOf(cols, {id[1]}, IF cols = <<>> \/ (\E i \in 1..Len(tabs) : tabs[i].id = id[1] /\ tabs[i].part) THEN {id} ELSE {})
RECURSIVE Lateral1(_)
Lateral1(n) == n.k \in {"Unnest", "Lateral"} \/ (n.k \in {"ARel", "Sample"} /\ Lateral1(n.c[1]))

(* ----------------------------------------------------------------- joins *)
Named(cols, nm) == Only(cols, LAMBDA x : x.nm = <<nm>>)
JoinNames(n, l, r) ==
  IF n.c[3].k = "Using" THEN n.c[3].a
  ELSE IF n.a[2] = "NATURAL" THEN LET both == Only(l.cols, LAMBDA x : x.nm # <<>> /\ Named(r.cols, x.nm[1]) # <<>>) IN [i \in 1..Len(both) |-> both[i].nm[1]]
  ELSE <<>>
JoinClear(names, l, r) == \A i \in 1..Len(names) : Len(Named(l.cols, names[i])) <= 1 /\ Len(Named(r.cols, names[i])) <= 1
Joined(names, l, r) ==
  LET rest(cols) == Only(cols, LAMBDA x : \A i \in 1..Len(names) : x.nm # <<names[i]>>)
  IN ScopeOf([i \in 1..Len(names) |-> ColOf(<<names[i]>>, <<>>, Common(TypesOf(Named(l.cols, names[i]) \o Named(r.cols, names[i]))))] \o rest(l.cols) \o rest(r.cols),
             l.ids \cup r.ids, l.part \cup r.part)
Elements(t) == CASE NameOf(t) = "MAP" -> t.c [] NameOf(t) = "ARRAY" -> Fields(t.c[1]) [] OTHER -> <<UnkT>>

(* -------------------------------------------------------------- resolution *)
RECURSIVE ResX(_, _, _)
RECURSIVE ResQ(_, _, _)
RECURSIVE ResR(_, _, _)
RECURSIVE ResWith(_, _, _, _)
ResX(n, ch, tabs) ==        \* expressions, in a chain of scopes
  LET kids == TLCEval([i \in 1..Len(n.c) |-> ResX(n.c[i], ch, tabs)])
      m == [n EXCEPT !.c = Nodes(kids)]
  IN CASE n.k \in {"None", "Type"} -> Right(n, NoScope)
       [] n.k \in QueryKinds -> ResQ(n, tabs, ch)
       [] n.k = "Field" /\ n.c = <<>> -> LET t == Denoted(n.a, ch) IN IF t.k = "None" THEN Wrong ELSE Right(Typed(n, t), NoScope)
       [] ~AllOK(kids) -> Wrong
       [] n.k = "Field" -> Right(Typed(m, UnkT), NoScope)
       [] n.k = "Star" -> Right(Typed(m, RowOr(StarCols(m, ch))), NoScope)
       [] OTHER -> Right(m, NoScope)
ResWith(list, done, tabs, ch) ==
  IF list = <<>> THEN [ok |-> TRUE, ns |-> done, tabs |-> tabs]
  ELSE LET w == ResR(Head(list), tabs, ch)
           id == Head(list).a[1]
       IN IF ~w.ok THEN [ok |-> FALSE, ns |-> <<>>, tabs |-> <<>>]
          ELSE ResWith(Tail(list), Append(done, w.n), Append(Only(tabs, LAMBDA e : e.id # id), [id |-> id, quals |-> <<>>, cte |-> TRUE, cols |-> w.sc.cols, part |-> w.sc.part # {}]), ch)
(* the columns of a select item *)
ItemCols(v, ch) ==
  LET s == IF v.k = "AStar" THEN v.c[1] ELSE v
  IN IF s.k = "Star" THEN LET cols == StarCols([s EXCEPT !.c = SubSeq(s.c, 1, Len(s.c) - 1)], ch)
                          IN IF v.k = "Star" THEN Right(None, cols) ELSE IF CanRename(cols, v.a) THEN Right(None, Renamed(cols, v.a)) ELSE Wrong
     ELSE Right(None, ScopeOf(<<ColOf(IF v.k \in {"As", "Field"} THEN <<v.a[1]>> ELSE <<>>, <<>>, TypeOf(v))>>, {}, {}))
Parts(rs) == IF \E i \in 1..Len(rs) : rs[i].sc.part # {} THEN {<<>>} ELSE {}
ColsOf(rs) == FlattenSeq([i \in 1..Len(rs) |-> rs[i].sc.cols])
ResQ(n, tabs, ch) ==        \* queries, in the chain of the scopes around them
  LET w == ResWith(n.c[1].c, <<>>, tabs, ch)
  IN IF ~w.ok THEN Wrong
     ELSE CASE n.k = "Select" ->
            LET from == IF n.c[4].k = "None" THEN Right(None, NoScope) ELSE ResR(n.c[4], w.tabs, ch)
                inner == <<from.sc>> \o ch
                items == TLCEval([i \in 1..Len(n.c[3].c) |-> ResX(n.c[3].c[i], inner, w.tabs)])
                outs == TLCEval([i \in 1..Len(items) |-> ItemCols(items[i].n, inner)])
                sc == Sourced(ScopeOf(ColsOf(outs), {}, Parts(outs)), <<>>)
            IN IF ~from.ok \/ ~AllOK(items) THEN Wrong ELSE IF ~AllOK(outs) THEN Wrong
               ELSE Right(N("Select", <<>>, <<List(w.ns), List(Nodes(items)), from.n, OneOrRow(sc)>>), sc)
       [] n.k = "TableQ" ->
            LET t == TableScope(n.c[3].a, w.tabs) IN Right(N("TableQ", <<>>, <<List(w.ns), n.c[3], OneOrRow(t)>>), Sourced(t, <<>>))
       [] n.k = "Values" ->
            LET es == TLCEval([i \in 1..Len(n.c[3].c) |-> ResX(n.c[3].c[i], <<NoScope>> \o ch, w.tabs)])
                rows == [i \in 1..Len(es) |-> Fields(TypeOf(es[i].n))]
                width == SetMin0({Len(rows[i]) : i \in 1..Len(rows)})
            IN IF ~AllOK(es) THEN Wrong
               ELSE Right(N("Values", <<>>, <<List(w.ns), List(Nodes(es)), Common([i \in 1..Len(es) |-> TypeOf(es[i].n)])>>),
                          ScopeOf([j \in 1..width |-> ColOf(<<>>, <<>>, Common([i \in 1..Len(rows) |-> rows[i][j]]))], {}, {}))
       [] OTHER ->
            LET l == ResQ(n.c[3], w.tabs, ch)
                r == ResQ(n.c[4], w.tabs, ch)
                whole == l.sc.part = {} /\ r.sc.part = {}
                lt == TypeOf(l.n)  rt == TypeOf(r.n)
            IN IF ~l.ok \/ ~r.ok THEN Wrong
               ELSE IF whole /\ Len(l.sc.cols) # Len(r.sc.cols) THEN Wrong
               ELSE Right(N(n.k, <<>>, <<List(w.ns), l.n, r.n, IF UnkT \in {lt, rt} THEN UnkT ELSE Common(<<lt, rt>>)>>),
                          ScopeOf([i \in 1..Len(l.sc.cols) |-> ColOf(l.sc.cols[i].nm, <<>>, IF whole THEN Common(<<l.sc.cols[i].ty, r.sc.cols[i].ty>>) ELSE UnkT)], {},
                                  IF l.sc.part # {} THEN {<<>>} ELSE {}))
ResR(n, tabs, ch) ==        \* relations
  CASE n.k \in QueryKinds -> ResQ(n, tabs, ch)
    [] n.k = "Table" -> Right(n, TableScope(n.a, tabs))
    [] n.k = "Lateral" -> LET q == ResQ(n.c[1], tabs, ch) IN IF q.ok THEN Right(N("Lateral", <<>>, <<q.n>>), q.sc) ELSE Wrong
    [] n.k = "Sample" -> LET r == ResR(n.c[1], tabs, ch) IN IF r.ok THEN Right(N("Sample", <<>>, <<r.n>>), r.sc) ELSE Wrong
    [] n.k = "ARel" ->
         LET r == ResR(n.c[1], tabs, ch)
             cols == Tail(n.a)
         IN IF ~r.ok THEN Wrong
            ELSE IF cols = <<>> THEN Right([n EXCEPT !.c = <<r.n>>], Sourced(r.sc, <<n.a[1]>>))
            ELSE IF CanRename(r.sc, cols) THEN Right([n EXCEPT !.c = <<r.n>>], Sourced(Renamed(r.sc, cols), <<n.a[1]>>)) ELSE Wrong
    [] n.k = "Unnest" ->
         LET es == TLCEval([i \in 1..Len(n.c) |-> ResX(n.c[i], <<NoScope>> \o ch, tabs)])
             tys == [i \in 1..Len(es) |-> TypeOf(es[i].n)]
             cols == FlattenSeq([i \in 1..Len(es) |-> Elements(tys[i])]) \o (IF n.a[1] = "ORD" THEN <<BigintT>> ELSE <<>>)
         IN IF ~AllOK(es) THEN Wrong
            ELSE Right(N("Unnest", n.a, Nodes(es) \o <<RowT(cols)>>),
                       ScopeOf([i \in 1..Len(cols) |-> ColOf(<<>>, <<>>, cols[i])], {}, IF \E i \in 1..Len(tys) : tys[i] = UnkT THEN {<<>>} ELSE {}))
    [] OTHER ->             \* Join
         LET l == ResR(n.c[1], tabs, ch)
             r == ResR(n.c[2], tabs, IF Lateral1(n.c[2]) THEN <<l.sc>> \o ch ELSE ch)
             names == JoinNames(n, l.sc, r.sc)
         IN IF ~l.ok THEN Wrong ELSE IF ~r.ok THEN Wrong ELSE IF ~JoinClear(names, l.sc, r.sc) THEN Wrong
            ELSE Right(N("Join", <<>>, <<l.n, r.n>>), Joined(names, l.sc, r.sc))

(* ------------------------------------------------------- what is observed *)
(* a schema is told as Schema(STable{name,schema,catalogue}(Col{name}(Type)..)..) *)
TablesIn(s) == [i \in 1..Len(s.c) |-> [id |-> s.c[i].a[1], quals |-> Tail(s.c[i].a), cte |-> FALSE,
                                       cols |-> [j \in 1..Len(s.c[i].c) |-> ColOf(s.c[i].c[j].a, <<>>, s.c[i].c[j].c[1])], part |-> s.c[i].c = <<>>]]
OutCols(sc) == List([i \in 1..Len(sc.cols) |-> N("Col", sc.cols[i].nm, <<sc.cols[i].ty>>)])
Resolved(n, s) == ResQ(n, TablesIn(s), <<>>)
(* queries whose columns are defined: rows of VALUES are equally long *)
RECURSIVE Rectangular(_)
Rectangular(n) ==       \* n is resolved
  /\ \A i \in 1..Len(n.c) : Rectangular(n.c[i])
  /\ n.k = "Values" => \A i, j \in 1..Len(n.c[2].c) : Len(Fields(TypeOf(n.c[2].c[i]))) = Len(Fields(TypeOf(n.c[2].c[j])))
=============================================================================
