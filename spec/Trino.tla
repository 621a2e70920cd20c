-------------------------------- MODULE Trino --------------------------------
(* The query language of Trino as productions, the part that trees can represent     *)
(* and the rest: what the parser under the library accepts.  Used to write texts only; *)
(* what a text means, and whether it means anything, is decided by Grammar.            *)
(* @rule stands for a text of the rule, @rule? for one or for nothing; the first        *)
(* alternative of a rule is the plainest.                                               *)
EXTENDS Ast, SequencesExt
Rule(nt) ==
  CASE nt = "query" -> <<"@qnw", "@with @qnw">>
    [] nt = "with" -> <<"WITH @named", "WITH RECURSIVE @named", "WITH @named , @named2">>
    [] nt = "named" -> <<"n AS ( @query )", "n ( c ) AS ( @query )", "n ( c , d ) AS ( @query )">>
    [] nt = "named2" -> <<"n2 AS ( @query )", "n2 ( c ) AS ( @query )">>
    [] nt = "qnw" -> <<"@term", "@term @orderby? @offset? @limit?">>
    [] nt = "orderby" -> <<"ORDER BY @sort", "ORDER BY @sort , @sort">>
    [] nt = "offset" -> <<"OFFSET @rows", "OFFSET @rows ROW", "OFFSET @rows ROWS">>
    [] nt = "limit" -> <<"LIMIT @rows", "LIMIT ALL", "FETCH FIRST @rows? ROW ONLY", "FETCH FIRST @rows? ROWS ONLY", "FETCH NEXT @rows? ROW ONLY", "FETCH NEXT @rows? ROWS WITH TIES", "FETCH FIRST @rows? ROW WITH TIES">>
    [] nt = "rows" -> <<"3", "?">>
    [] nt = "term" -> <<"@prim", "@term INTERSECT @quant? @term", "@term UNION @quant? @term", "@term EXCEPT @quant? @term">>
    [] nt = "prim" -> <<"@spec", "TABLE @qname", "VALUES @expr", "VALUES @expr , @expr", "( @qnw )">>
    [] nt = "quant" -> <<"ALL", "DISTINCT">>
    [] nt = "sort" -> <<"@expr", "@expr @dir? @nulls?">>
    [] nt = "dir" -> <<"ASC", "DESC">>
    [] nt = "nulls" -> <<"NULLS FIRST", "NULLS LAST">>
    [] nt = "spec" -> <<"SELECT @item", "SELECT @quant? @item @from? @where? @group? @having? @window?", "SELECT @item , @item">>
    [] nt = "from" -> <<"FROM @rel", "FROM @rel , @rel">>
    [] nt = "where" -> <<"WHERE @expr">>
    [] nt = "group" -> <<"GROUP BY @quant? @gelem", "GROUP BY @gelem , @gelem">>
    [] nt = "having" -> <<"HAVING @expr">>
    [] nt = "window" -> <<"WINDOW w AS ( @wspec )", "WINDOW w AS ( @wspec ) , w2 AS ( @wspec )">>
    [] nt = "gelem" -> <<"@gset", "ROLLUP ( @exprs? )", "CUBE ( @exprs? )", "GROUPING SETS ( @gset )", "GROUPING SETS ( @gset , @gset )">>
    [] nt = "gset" -> <<"@expr", "( @exprs? )">>
    [] nt = "exprs" -> <<"@expr", "@expr , @expr">>
    [] nt = "wspec" -> <<"PARTITION BY @expr", "@ident? @partition? @orderby? @frame?">>
    [] nt = "partition" -> <<"PARTITION BY @exprs">>
    [] nt = "item" -> <<"@expr", "@expr AS @ident", "@expr @ident", "@primary . *", "@primary . * AS @aliases", "*">>
    [] nt = "rel" -> <<"@srel", "@rel CROSS JOIN @srel", "@rel @jtype? JOIN @rel @crit", "@rel NATURAL @jtype? JOIN @srel">>
    [] nt = "jtype" -> <<"INNER", "LEFT", "LEFT OUTER", "RIGHT", "RIGHT OUTER", "FULL", "FULL OUTER">>
    [] nt = "crit" -> <<"ON @expr", "USING ( @ident )", "USING ( @ident , d )">>
    [] nt = "srel" -> <<"@pat", "@pat TABLESAMPLE @stype ( @expr )">>
    [] nt = "stype" -> <<"BERNOULLI", "SYSTEM">>
    [] nt = "pat" -> <<"@arel", "@arel MATCH_RECOGNIZE ( @partition? @orderby? @measures? @rpm? @after? @seek? PATTERN ( @rpat ) @subset? DEFINE A AS @expr ) @alias?">>
    [] nt = "measures" -> <<"MEASURES @expr AS @ident", "MEASURES @expr AS m , @expr AS m2">>
    [] nt = "rpm" -> <<"ONE ROW PER MATCH", "ALL ROWS PER MATCH", "ALL ROWS PER MATCH SHOW EMPTY MATCHES", "ALL ROWS PER MATCH OMIT EMPTY MATCHES", "ALL ROWS PER MATCH WITH UNMATCHED ROWS">>
    [] nt = "after" -> <<"AFTER MATCH SKIP TO NEXT ROW", "AFTER MATCH SKIP PAST LAST ROW", "AFTER MATCH SKIP TO FIRST A", "AFTER MATCH SKIP TO LAST A", "AFTER MATCH SKIP TO A">>
    [] nt = "seek" -> <<"INITIAL", "SEEK">>
    [] nt = "rpat" -> <<"A", "A *", "A + ?", "A B", "A | B", "( )", "PERMUTE ( A , B )", "( A )", "^", "$", "A { 2 }", "A { 1 , 2 }">>
    [] nt = "subset" -> <<"SUBSET U = ( A , B )">>
    [] nt = "arel" -> <<"@rprim", "@rprim @alias">>
    [] nt = "alias" -> <<"AS @ident", "@ident", "@ident @aliases", "AS @ident @aliases">>
    [] nt = "aliases" -> <<"( @ident )", "( @ident , d )">>
    [] nt = "rprim" -> <<"@qname", "@qname @period", "( @query )", "UNNEST ( @exprs )", "UNNEST ( @exprs ) WITH ORDINALITY", "LATERAL ( @query )", "TABLE ( @tcall )", "( @rel )">>
    [] nt = "period" -> <<"FOR TIMESTAMP AS OF @value", "FOR VERSION AS OF @value">>
    [] nt = "tcall" -> <<"f ( @targ )", "f ( )", "f ( @targ , @targ )", "f ( @targ COPARTITION ( t , u ) )">>
    [] nt = "targ" -> <<"@expr", "x => @expr", "TABLE ( t ) @tsuffix?", "TABLE ( @query ) AS x", "DESCRIPTOR ( a , b BIGINT )", "CAST ( NULL AS DESCRIPTOR )">>
    [] nt = "tsuffix" -> <<"PARTITION BY a", "PARTITION BY ( a , b )", "PRUNE WHEN EMPTY", "KEEP WHEN EMPTY", "ORDER BY @sort", "ORDER BY ( @sort )">>
    [] nt = "qname" -> <<"t", "s . t", "c . s . t", "c . s . t . u">>
    [] nt = "ident" -> <<"x", "\"q r\"", "first", "date", "normalize">>
    [] nt = "expr" -> <<"@primary", "@value AT TIME ZONE @interval", "@value AT TIME ZONE @str", "- @value", "+ @value", "@value * @value", "@value / @value", "@value % @value", "@value + @value", "@value - @value", "@value || @value", "NOT @expr", "@expr AND @expr", "@expr OR @expr", "@value = @value", "@value <> @value", "@value != @value", "@value < @value", "@value <= @value", "@value > @value", "@value >= @value", "@value = ALL ( @query )", "@value < SOME ( @query )", "@value <> ANY ( @query )", "@value @not? BETWEEN @value AND @value", "@value @not? IN ( @exprs )", "@value @not? IN ( @query )", "@value @not? LIKE @value", "@value @not? LIKE @value ESCAPE @value", "@value IS @not? NULL", "@value IS @not? DISTINCT FROM @value">>
    [] nt = "value" -> <<"@primary", "@value AT TIME ZONE @interval", "@value AT TIME ZONE @str", "- @value", "+ @value", "@value * @value", "@value / @value", "@value % @value", "@value + @value", "@value - @value", "@value || @value">>
    [] nt = "not" -> <<"NOT">>
    [] nt = "primary" -> <<"a", "NULL", "@interval", "@ident @str", "DOUBLE PRECISION @str", "@number", "TRUE", "FALSE", "@str", "X'00'", "?", "POSITION ( @value IN @value )", "( @expr , @expr )", "ROW ( @exprs )", "LISTAGG ( @quant? @expr @sep? @overflow? ) WITHIN GROUP ( @orderby )", "LISTAGG ( @expr )", "@pmode? count ( * ) @filter? @over?", "@pmode? count ( t . * ) @filter? @over?", "@pmode? sum ( @quant? @expr ) @filter? @nover?", "sum ( @expr @orderby? ) @nover?", "@fname ( @exprs? )", "min ( @exprs @orderby? ) @filter? @nover?", "@qname ( @expr )", "a @over", "x -> @expr", "( ) -> @expr", "( x ) -> @expr", "( x , y ) -> @expr", "( @query )", "EXISTS ( @query )", "CASE @expr @when @else? END", "CASE @when @when @else? END", "CASE @when END", "CAST ( @expr AS @type )", "TRY_CAST ( @expr AS @type )", "ARRAY [ @exprs? ]", "@primary [ @value ]", "@ident", "@primary . @ident", "CURRENT_DATE", "CURRENT_TIME @prec?", "CURRENT_TIMESTAMP @prec?", "LOCALTIME @prec?", "LOCALTIMESTAMP @prec?", "CURRENT_USER", "CURRENT_CATALOG", "CURRENT_SCHEMA", "CURRENT_PATH", "TRIM ( @value )", "TRIM ( BOTH @value FROM @value )", "TRIM ( LEADING FROM @value )", "TRIM ( @value FROM @value )", "TRIM ( @value , @value )", "SUBSTRING ( @value FROM @value )", "SUBSTRING ( @value FROM @value FOR @value )", "NORMALIZE ( @value )", "NORMALIZE ( @value , @form )", "EXTRACT ( @ident FROM @value )", "EXTRACT ( YEAR FROM @value )", "( @expr )", "GROUPING ( @qname )", "GROUPING ( )", "GROUPING ( @qname , b )", "JSON_EXISTS ( @jpath TRUE ON ERROR )", "JSON_EXISTS ( @jpath )", "JSON_VALUE ( @jpath RETURNING @type )", "JSON_VALUE ( @jpath NULL ON EMPTY ERROR ON ERROR )", "JSON_QUERY ( @jpath WITH ARRAY WRAPPER )", "JSON_QUERY ( @jpath KEEP QUOTES )", "JSON_OBJECT ( )", "JSON_OBJECT ( a : @expr )", "JSON_OBJECT ( KEY a VALUE @expr NULL ON NULL )", "JSON_ARRAY ( )", "JSON_ARRAY ( @expr ABSENT ON NULL )">>
    [] nt = "sep" -> <<", @str">>
    [] nt = "overflow" -> <<"ON OVERFLOW ERROR", "ON OVERFLOW TRUNCATE @str? WITH COUNT", "ON OVERFLOW TRUNCATE @str? WITHOUT COUNT">>
    [] nt = "pmode" -> <<"RUNNING", "FINAL">>
    [] nt = "filter" -> <<"FILTER ( WHERE @expr )">>
    [] nt = "over" -> <<"OVER @ident", "OVER ( @wspec )", "OVER ( )">>
    [] nt = "nover" -> <<"@over", "IGNORE NULLS @over", "RESPECT NULLS @over">>
    [] nt = "fname" -> <<"coalesce", "lower", "now", "concat", "nullif", "if", "try", "foo", "\"sum\"", "date_diff", "random">>
    [] nt = "when" -> <<"WHEN @expr THEN @expr">>
    [] nt = "else" -> <<"ELSE @expr">>
    [] nt = "prec" -> <<"( 3 )", "( 0 )", "( 13 )">>
    [] nt = "form" -> <<"NFD", "NFC", "NFKD", "NFKC", "nfd">>
    [] nt = "jpath" -> <<"a , 'p'", "a FORMAT JSON , 'p'", "a FORMAT JSON ENCODING UTF8 , 'p' PASSING @expr AS x">>
    [] nt = "interval" -> <<"INTERVAL @sign? @str @field", "INTERVAL @sign? @str @field TO @field">>
    [] nt = "sign" -> <<"+", "-">>
    [] nt = "field" -> <<"DAY", "YEAR", "MONTH", "HOUR", "MINUTE", "SECOND">>
    [] nt = "str" -> <<"'1'", "''", "'it''s'", "U&'\\0031'", "U&'!0031' UESCAPE '!'">>
    [] nt = "number" -> <<"1", "1.5", "1E5", ".5", "5.", "007">>
    [] nt = "frame" -> <<"@extent", "@measures? @extent @after? @seek? @wpat? @subset? @wdef?">>
    [] nt = "wpat" -> <<"PATTERN ( @rpat )">>
    [] nt = "wdef" -> <<"DEFINE A AS @expr">>
    [] nt = "extent" -> <<"ROWS @bound", "RANGE @bound", "GROUPS @bound", "ROWS BETWEEN @bound AND @bound", "RANGE BETWEEN @bound AND @bound", "GROUPS BETWEEN @bound AND @bound">>
    [] nt = "bound" -> <<"CURRENT ROW", "UNBOUNDED PRECEDING", "UNBOUNDED FOLLOWING", "@expr PRECEDING", "@expr FOLLOWING">>
    [] nt = "type" -> <<"@tname", "ROW ( @rfield )", "ROW ( @rfield , @rfield )", "INTERVAL @field", "INTERVAL @field TO @field", "TIMESTAMP @tprec? @tz?", "TIME @tprec? @tz?", "DOUBLE PRECISION", "ARRAY < @type >", "MAP < @type , @type >", "@type ARRAY", "@type ARRAY [ 3 ]", "@tname ( @tparam )", "@tname ( @tparam , @tparam )", "ARRAY ( @type )", "MAP ( @type , @type )", "QDIGEST ( @type )", "DECIMAL ( 5 , 2 )", "VARCHAR ( 3 )", "CHAR ( 3 )">>
    [] nt = "tname" -> <<"BIGINT", "date", "VARCHAR", "foo", "\"DATE\"", "DECIMAL", "CHAR", "ARRAY", "MAP", "ROW">>
    [] nt = "tprec" -> <<"( 3 )", "( @type )">>
    [] nt = "tz" -> <<"WITH TIME ZONE", "WITHOUT TIME ZONE">>
    [] nt = "rfield" -> <<"@type", "x @type">>
    [] nt = "tparam" -> <<"3", "@type">>
Rules == <<"query", "with", "named", "named2", "qnw", "orderby", "offset", "limit", "rows", "term", "prim", "quant", "sort", "dir", "nulls", "spec", "from", "where", "group", "having", "window", "gelem", "gset", "exprs", "wspec", "partition", "item", "rel", "jtype", "crit", "srel", "stype", "pat", "measures", "rpm", "after", "seek", "rpat", "subset", "arel", "alias", "aliases", "rprim", "period", "tcall", "targ", "tsuffix", "qname", "ident", "expr", "value", "not", "primary", "sep", "overflow", "pmode", "filter", "over", "nover", "fname", "when", "else", "prec", "form", "jpath", "interval", "sign", "field", "str", "number", "frame", "wpat", "wdef", "extent", "bound", "type", "tname", "tprec", "tz", "rfield", "tparam">>

(* the symbols of an alternative *)
RECURSIVE Symbols(_, _, _)
Symbols(s, i, acc) == IF i > Len(s) THEN (IF acc = "" THEN <<>> ELSE <<acc>>)
                      ELSE IF SubSeq(s, i, i) = " " THEN (IF acc = "" THEN <<>> ELSE <<acc>>) \o Symbols(s, i + 1, "")
                      ELSE Symbols(s, i + 1, acc \o SubSeq(s, i, i))
HasQuote(s) == \E i \in 1..Len(s) : SubSeq(s, i, i) \in {"\"", "'"}
Alternative(s) == IF s = "\"q r\"" THEN <<s>> ELSE Symbols(s, 1, "")
IsRule(y) == Len(y) > 1 /\ SubSeq(y, 1, 1) = "@"
IsOpt(y) == IsRule(y) /\ SubSeq(y, Len(y), Len(y)) = "?"
RuleOf(y) == IF IsOpt(y) THEN SubSeq(y, 2, Len(y) - 1) ELSE SubSeq(y, 2, Len(y))
Alts0 == TLCEval([i \in 1..Len(Rules) |-> [j \in 1..Len(Rule(Rules[i])) |-> Alternative(Rule(Rules[i])[j])]])
IndexOfRule(nt) == CHOOSE i \in 1..Len(Rules) : Rules[i] = nt
AltsOf(nt) == Alts0[IndexOfRule(nt)]

(* the plainest text of symbols: optional ones dropped, or all present *)
RECURSIVE Plainest(_, _)
Plainest(ys, full) == FlattenSeq([i \in 1..Len(ys) |-> IF ~IsRule(ys[i]) THEN <<ys[i]>>
                                                    ELSE IF IsOpt(ys[i]) /\ ~full THEN <<>>
                                                    ELSE Plainest(AltsOf(RuleOf(ys[i]))[1], FALSE)])
(* the shortest way from a start rule to each rule: the symbols on either side *)
Starts == {"query", "expr", "type"}
Places == TLCEval(FlattenSeq([i \in 1..Len(Rules) |-> FlattenSeq([j \in 1..Len(Alts0[i]) |-> FlattenSeq([k \in 1..Len(Alts0[i][j]) |->
            IF IsRule(Alts0[i][j][k]) THEN <<[rule |-> Rules[i], alt |-> Alts0[i][j], at |-> k, kid |-> RuleOf(Alts0[i][j][k])]>> ELSE <<>>])])]))
Around(pl, outer) == [known |-> TRUE, what |-> outer.what, pre |-> outer.pre \o Plainest(SubSeq(pl.alt, 1, pl.at - 1), FALSE), post |-> Plainest(SubSeq(pl.alt, pl.at + 1, Len(pl.alt)), FALSE) \o outer.post]
NoContext == [known |-> FALSE, what |-> "", pre |-> <<>>, post |-> <<>>]
Contexts0 == [nt \in {Rules[i] : i \in 1..Len(Rules)} |-> IF nt \in Starts THEN [NoContext EXCEPT !.known = TRUE, !.what = nt] ELSE NoContext]
Grown(cs) == FoldLeft(LAMBDA m, pl : IF m[pl.kid].known \/ ~m[pl.rule].known THEN m ELSE [m EXCEPT ![pl.kid] = Around(pl, m[pl.rule])], cs, Places)
Contexts == TLCEval(Grown(Grown(Grown(Contexts0))))

Spell(ys) == IF ys = <<>> THEN "" ELSE FoldLeft(LAMBDA a, b : a \o " " \o b, ys[1], Tail(ys))
TextOf(cx, ys) == N("Text", <<cx.what, Spell(cx.pre \o ys \o cx.post)>>, <<>>)
(* every alternative of every rule, plain and with everything optional *)
AltTexts(zz) == UNION {UNION {{TextOf(Contexts[Rules[i]], Plainest(Alts0[i][j], f)) : f \in {TRUE, FALSE}} : j \in 1..Len(Alts0[i])} : i \in 1..Len(Rules)}
(* every alternative in every place *)
PlaceTexts(zz) ==
  UNION {LET pl == Places[x]
             al == AltsOf(pl.kid)
         IN UNION {{TextOf(Contexts[pl.rule], Plainest(SubSeq(pl.alt, 1, pl.at - 1), f) \o Plainest(al[j], f) \o Plainest(SubSeq(pl.alt, pl.at + 1, Len(pl.alt)), f)) : f \in {TRUE, FALSE}} : j \in 1..Len(al)} : x \in 1..Len(Places)}
(* pseudo-random texts *)
DRnd(s) == LET t == 16807 * (s % 127773) - 2836 * (s \div 127773) IN IF t > 0 THEN t ELSE t + 2147483647
DPick(s, n) == 1 + ((s \div 7) % n)
RECURSIVE Derive(_, _, _, _)
Derive(ys, i, depth, s) ==    \* the symbols from i on, and the next random number
  IF i > Len(ys) THEN [ys |-> <<>>, s |-> s]
  ELSE IF ~IsRule(ys[i]) THEN LET r == Derive(ys, i + 1, depth, s) IN [ys |-> <<ys[i]>> \o r.ys, s |-> r.s]
  ELSE LET s1 == DRnd(s)
           s2 == DRnd(s1)
           al == AltsOf(RuleOf(ys[i]))
           skip == IsOpt(ys[i]) /\ DPick(s1, 3) > 1
           m == IF skip THEN [ys |-> <<>>, s |-> s2]
                ELSE IF depth = 0 THEN [ys |-> Plainest(al[1], FALSE), s |-> s2]
                ELSE Derive(al[IF DPick(DRnd(s2), 3) = 1 THEN 1 ELSE DPick(s2, Len(al))], 1, depth - 1, DRnd(s2))
           r == Derive(ys, i + 1, depth, m.s)
       IN [ys |-> m.ys \o r.ys, s |-> r.s]
DeriveText(nt, depth, s) == N("Text", <<nt, Spell(Derive(<<"@" \o nt>>, 1, depth, s).ys)>>, <<>>)
=============================================================================