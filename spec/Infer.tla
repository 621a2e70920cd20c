-------------------------------- MODULE Infer --------------------------------
(* The type of an expression, from the types of its parts.                          *)
EXTENDS Types

(* ---------------------------------------------------------------- literals *)
IntFits(sign, d) ==     \* a 32 bit integer
  LET w == SubSeq(d, 1, 9)
  IN Len(d) < 10 \/ (Len(d) = 10 /\ (NatOf(w) < 214748364 \/ (NatOf(w) = 214748364 /\ NatOf(SubSeq(d, 10, 10)) <= (IF sign = "-" THEN 8 ELSE 7))))
LitType(a) ==
  CASE a[1] = "null" -> UnkT
    [] a[1] = "bool" -> BoolT
    [] a[1] = "int" -> IF IntFits(a[2], a[3]) THEN Plain("INTEGER") ELSE BigintT
    [] a[1] = "dec" -> DecT(Max2(1, Max2(Len(a[3]), NatOf(a[4]))), NatOf(a[4]))
    [] a[1] = "dbl" -> DoubleT
    [] OTHER -> TyN0("VARCHAR", <<ToString(Len(a[2]))>>, <<>>)

(* reading the text of a typed literal *)
IsDig(c) == c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
ChAt(s, i) == IF i <= Len(s) THEN At(s, i) ELSE ""
RECURSIVE Blanks(_, _)
Blanks(s, i) == IF ChAt(s, i) = " " THEN Blanks(s, i + 1) ELSE i
RECURSIVE DigEnd(_, _)
DigEnd(s, i) == IF IsDig(ChAt(s, i)) THEN DigEnd(s, i + 1) ELSE i
(* after digits, sep, digits from i on; i itself when there are none *)
TwoEnd(s, i, sep) == LET j == DigEnd(s, i)  k == DigEnd(s, j + 1) IN IF j > i /\ ChAt(s, j) = sep /\ k > j + 1 THEN k ELSE i
DateEnd(s, i) ==
  LET b == IF ChAt(s, i) \in {"+", "-"} THEN i + 1 ELSE i
      j == TwoEnd(s, b, "-")
      k == DigEnd(s, j + 1)
  IN IF j > b /\ ChAt(s, j) = "-" /\ k > j + 1 THEN k ELSE i
TimeEnd(s, i) ==
  LET j == TwoEnd(s, i, ":")
      k == DigEnd(s, j + 1)
      l == DigEnd(s, k + 1)
  IN IF j = i THEN i ELSE IF ~(ChAt(s, j) = ":" /\ k > j + 1) THEN j ELSE IF ChAt(s, k) = "." /\ l > k + 1 THEN l ELSE k
ZoneAt(s) == LET d == DateEnd(s, Blanks(s, 1)) IN Blanks(s, TimeEnd(s, Blanks(s, d)))
StartsTime(s) == LET i == Blanks(s, 1) IN IsDig(ChAt(s, i)) \/ (ChAt(s, i) \in {"+", "-"} /\ IsDig(ChAt(s, i + 1)))
Zoned(s) == StartsTime(s) /\ ZoneAt(s) <= Len(s)
RECURSIVE Fraction(_, _)        \* how many digits follow the first dot that digits follow
Fraction(s, i) == IF i > Len(s) THEN 0 ELSE IF At(s, i) = "." /\ DigEnd(s, i + 1) > i + 1 THEN DigEnd(s, i + 1) - i - 1 ELSE Fraction(s, i + 1)
DecRead(s) ==           \* of the form 12, 1.5, -.5
  LET b == Blanks(s, 1)
      i == IF ChAt(s, b) \in {"+", "-"} THEN b + 1 ELSE b
      j == DigEnd(s, i)
      w == SubSeq(s, i, j - 1)
      f == SubSeq(s, j + 1, DigEnd(s, j + 1) - 1)
      z == IF w = "" \/ StripZ(w) = "0" THEN 0 ELSE Len(StripZ(w))
  IN IF ChAt(s, j) = "." THEN DecT(Max2(1, z + Len(f)), Len(f)) ELSE DecT(Max2(1, z), 0)
TypedLit(name, s) ==
  CASE name \in Timelikes -> TimelikeT(name, ToString(Fraction(s, 1)), Zoned(s))
    [] name = "DECIMAL" -> DecRead(s)
    [] name = "CHAR" -> CharT(Len(s))
    [] OTHER -> Plain(name)

(* --------------------------------------------------------------- functions *)
RECURSIVE Layers(_)
Layers(t) == IF NameOf(t) = "ARRAY" THEN 1 + Layers(t.c[1]) ELSE 0
SetMax0(ns) == CHOOSE i \in ns : \A j \in ns : j <= i
SetMin0(ns) == CHOOSE i \in ns : \A j \in ns : i <= j
LayersOf(ts) == {Layers(ts[i]) : i \in 1..Len(ts)}
RECURSIVE SumOf(_)
SumOf(ns) == IF ns = <<>> THEN 0 ELSE Head(ns) + SumOf(Tail(ns))
ConcatOK(ts) == (\E i \in 1..Len(ts) : NameOf(ts[i]) = "UNKNOWN") \/ SetMax0(LayersOf(ts)) - SetMin0(LayersOf(ts)) <= 1
Concat(ts) ==
  LET ns == {NameOf(ts[i]) : i \in 1..Len(ts)}
  IN CASE "UNKNOWN" \in ns -> UnkT
       [] "ARRAY" \in ns -> ArrayT(Common([i \in 1..Len(ts) |-> IF Layers(ts[i]) = SetMax0(LayersOf(ts)) THEN ts[i].c[1] ELSE ts[i]]))
       [] ns = {"VARCHAR"} -> VarcharT
       [] ns \subseteq Strings -> CharT(Min2(LongestChar, SumOf([i \in 1..Len(ts) |-> Num(AsChar(ts[i]), 2)])))
       [] ns = {"VARBINARY"} -> Plain("VARBINARY")
       [] OTHER -> UnkT
Zone3 == TimelikeT("TIMESTAMP", "3", TRUE)
Zone9 == TimelikeT("TIMESTAMP", "9", TRUE)
FnType(f, ts) ==
  LET one == ts[1]
  IN CASE f \in {"CHR", "LOWER", "LPAD", "LTRIM", "REPLACE", "REVERSE", "RPAD", "RTRIM", "SOUNDEX", "FROM_UTF8", "TO_ISO8601", "HUMAN_READABLE_SECONDS"} -> VarcharT
       [] f = "CODEPOINT" -> Plain("INTEGER")
       [] f \in {"LENGTH", "HAMMING_DISTANCE", "LEVENSHTEIN_DISTANCE", "DATE_DIFF", "TO_MILLISECONDS", "COUNT", "COUNT_IF", "APPROX_DISTINCT", "BITWISE_AND_AGG", "BITWISE_OR_AGG"} -> BigintT
       [] f \in {"LUHN_CHECK", "BOOL_AND", "BOOL_OR", "EVERY"} -> BoolT
       [] f \in {"TO_UTF8", "CHECKSUM"} -> Plain("VARBINARY")
       [] f \in {"DATE", "LAST_DAY_OF_MONTH", "FROM_ISO8601_DATE"} -> Plain("DATE")
       [] f \in {"NOW", "FROM_UNIXTIME", "FROM_ISO8601_TIMESTAMP"} -> Zone3
       [] f \in {"FROM_UNIXTIME_NANOS", "FROM_ISO8601_TIMESTAMP_NANOS"} -> Zone9
       [] f \in {"POWER", "TO_UNIXTIME", "GEOMETRIC_MEAN", "CORR", "COVAR_POP", "COVAR_SAMP", "KURTOSIS", "REGR_INTERCEPT", "REGR_SLOPE", "SKEWNESS", "STDDEV", "STDDEV_POP", "STDDEV_SAMP", "VARIANCE", "VAR_POP", "VAR_SAMP"} -> DoubleT
       [] f = "PARSE_DURATION" -> DayT
       [] f \in {"AT_TIMEZONE", "WITH_TIMEZONE"} -> IF NameOf(one) = "TIMESTAMP" THEN [one EXCEPT !.a[3] = "TZ"] ELSE UnkT
       [] f \in {"NULLIF", "TRY", "ARBITRARY", "MAP_UNION"} -> one
       [] f = "DATE_TRUNC" -> ts[2]
       [] f = "DATE_ADD" -> ts[3]
       [] f = "IF" -> IF Len(ts) = 3 THEN Common(<<ts[2], ts[3]>>) ELSE ts[2]
       [] f = "COALESCE" -> Common(ts)
       [] f = "CONCAT" -> Concat(ts)
       [] f = "SUM" -> IF NameOf(one) \in Integrals THEN BigintT ELSE IF NameOf(one) = "DECIMAL" THEN DecT(38, Num(one, 3)) ELSE one
       [] f = "AVG" -> IF NameOf(one) \in Integrals THEN DoubleT ELSE one
       [] f \in {"MAX", "MIN"} -> IF Len(ts) = 2 THEN ArrayT(one) ELSE one
       [] f \in {"MAX_BY", "MIN_BY"} -> IF Len(ts) = 3 THEN ArrayT(one) ELSE one
       [] f = "ARRAY_AGG" -> ArrayT(one)
       [] f = "HISTOGRAM" -> MapT(one, BigintT)
       [] f = "APPROX_MOST_FREQUENT" -> MapT(ts[2], BigintT)
       [] f = "MAP_AGG" -> MapT(one, ts[2])
       [] f = "MULTIMAP_AGG" -> MapT(one, ArrayT(ts[2]))
       [] f = "NUMERIC_HISTOGRAM" -> MapT(DoubleT, DoubleT)
       [] f = "APPROX_SET" -> HllT
       [] f = "MERGE" -> IF NameOf(one) \in {"UNKNOWN", "QDIGEST", "TDIGEST"} THEN one ELSE HllT
       [] f = "QDIGEST_AGG" -> TyN0("QDIGEST", <<>>, <<one>>)
       [] f = "TDIGEST_AGG" -> Plain("TDIGEST")
       [] f = "APPROX_PERCENTILE" -> LET p == NameOf(ts[Len(ts)]) IN IF p = "ARRAY" THEN ArrayT(one) ELSE IF p = "UNKNOWN" THEN UnkT ELSE one
       [] OTHER -> None

(* -------------------------------------------------------------- expressions *)
RowT(ts) == TyN0("ROW", <<>>, ts)
RECURSIVE TypeOf(_)
TypeOf(n) ==
  LET kid(i) == TypeOf(n.c[i])
      kids(m) == TLCEval([i \in 1..Len(m.c) |-> TypeOf(m.c[i])])
  IN CASE n.k \in {"Field", "Star"} \cup QueryKinds /\ n.c # <<>> /\ n.c[Len(n.c)].k = "Type" -> n.c[Len(n.c)]      \* resolved, see Scope
       [] n.k = "Lit" -> LitType(n.a)
       [] n.k \in {"Field", "Var", "Lambda", "Star", "AStar", "Subscript", "TableQ"} -> UnkT
       [] n.k \in {"As", "Pos", "Neg"} -> kid(1)
       [] n.k \in {"Not", "IsNull", "And", "Or", "Distinct", "Between", "InList", "InQuery", "Like"} \cup CmpKinds -> BoolT
       [] n.k = "Sub" -> LET l == kid(1)  r == kid(2)
                         IN IF {NameOf(l), NameOf(r)} \subseteq {"DATE", "TIMESTAMP"} \/ {NameOf(l), NameOf(r)} = {"TIME"} THEN DayT ELSE Arithmetic(l, r)
       [] n.k \in ArithKinds -> Arithmetic(kid(1), kid(2))
       [] n.k = "Array" -> ArrayT(Common(kids(n)))
       [] n.k = "Row" -> RowT(kids(n))
       [] n.k = "TypeCons" -> TypedLit(n.a[1], n.a[2])
       [] n.k = "Interval" -> IF n.a[2] \in {"YEAR", "MONTH"} THEN YearT ELSE DayT
       [] n.k \in {"Cast", "TryCast"} -> n.c[2]
       [] n.k = "When" -> kid(2)
       [] n.k = "Case" -> Common([i \in 1..(Len(n.c) - 2) |-> kid(i + 2)] \o (IF n.c[2].k = "None" THEN <<>> ELSE <<kid(2)>>))
       [] n.k = "Fn" -> FnType(n.a[1], kids(n.c[1]))
       [] n.k \in {"ListAgg", "Normalize", "Sess"} -> VarcharT
       [] n.k = "DtFn" -> (CASE n.a[1] = "CURRENT_DATE" -> Plain("DATE") [] n.a[1] = "CURRENT_TIME" -> TimelikeT("TIME", n.a[2], TRUE) [] n.a[1] = "CURRENT_TIMESTAMP" -> TimelikeT("TIMESTAMP", n.a[2], TRUE)
                             [] n.a[1] = "LOCALTIME" -> TimelikeT("TIME", n.a[2], FALSE) [] OTHER -> TimelikeT("TIMESTAMP", n.a[2], FALSE))
       [] n.k = "Select" -> IF \E i \in 1..Len(n.c[3].c) : n.c[3].c[i].k \in {"Star", "AStar"} THEN UnkT ELSE IF Len(n.c[3].c) = 1 THEN TypeOf(n.c[3].c[1]) ELSE RowT(kids(n.c[3]))
       [] n.k = "Values" -> Common(kids(n.c[3]))
       [] n.k \in SetKinds -> LET l == kid(3)  r == kid(4) IN IF "UNKNOWN" \in {NameOf(l), NameOf(r)} THEN UnkT ELSE Common(<<l, r>>)
       [] OTHER -> None
(* what has a type at all: texts of typed literals must be readable, and arrays concatenated with what is no more than one layer deeper *)
RECURSIVE Typable(_)
Typable(n) ==
  /\ \A i \in 1..Len(n.c) : Typable(n.c[i])
  /\ CASE n.k = "Fn" /\ n.a[1] = "CONCAT" -> ConcatOK([i \in 1..Len(n.c[1].c) |-> TypeOf(n.c[1].c[i])])
       [] n.k = "TypeCons" /\ n.a[1] \in Timelikes -> Fraction(n.a[2], 1) <= 12
       [] n.k = "TypeCons" /\ n.a[1] = "DECIMAL" -> ~Exponent(n.a[2])
       [] n.k = "Lit" /\ n.a[1] = "dec" -> Num(LitType(n.a), 2) <= 38
       [] OTHER -> TRUE
=============================================================================
