------------------------------ MODULE Catalogue ------------------------------
(* The function catalogue: name |-> fewest and most positional arguments,        *)
(* aggregate or scalar, as Trino's documentation lists them.                     *)
EXTENDS Naturals, Sequences, TLC

S(lo, hi) == [lo |-> lo, hi |-> hi, agg |-> FALSE]
A(lo, hi) == [lo |-> lo, hi |-> hi, agg |-> TRUE]
Many == 99
Functions ==
   "AT_TIMEZONE" :> S(2,2) @@ "CHR" :> S(1,1) @@ "COALESCE" :> S(2,Many) @@ "CODEPOINT" :> S(1,1)
@@ "CONCAT" :> S(2,Many) @@ "DATE" :> S(1,1) @@ "DATE_ADD" :> S(3,3) @@ "DATE_DIFF" :> S(3,3)
@@ "DATE_TRUNC" :> S(2,2) @@ "FROM_ISO8601_DATE" :> S(1,1) @@ "FROM_ISO8601_TIMESTAMP" :> S(1,1)
@@ "FROM_ISO8601_TIMESTAMP_NANOS" :> S(1,1) @@ "FROM_UNIXTIME" :> S(1,3)
@@ "FROM_UNIXTIME_NANOS" :> S(1,1) @@ "FROM_UTF8" :> S(1,2) @@ "HAMMING_DISTANCE" :> S(2,2)
@@ "HUMAN_READABLE_SECONDS" :> S(1,1) @@ "IF" :> S(2,3) @@ "LAST_DAY_OF_MONTH" :> S(1,1)
@@ "LENGTH" :> S(1,1) @@ "LEVENSHTEIN_DISTANCE" :> S(2,2) @@ "LOWER" :> S(1,1) @@ "LPAD" :> S(3,3)
@@ "LTRIM" :> S(1,1) @@ "LUHN_CHECK" :> S(1,1) @@ "NOW" :> S(0,0) @@ "NULLIF" :> S(2,2)
@@ "PARSE_DURATION" :> S(1,1) @@ "POWER" :> S(2,2) @@ "REPLACE" :> S(2,3) @@ "REVERSE" :> S(1,1)
@@ "RPAD" :> S(3,3) @@ "RTRIM" :> S(1,1) @@ "SOUNDEX" :> S(1,1) @@ "TO_ISO8601" :> S(1,1)
@@ "TO_MILLISECONDS" :> S(1,1) @@ "TO_UNIXTIME" :> S(1,1) @@ "TO_UTF8" :> S(1,1) @@ "TRY" :> S(1,1)
@@ "WITH_TIMEZONE" :> S(2,2)
@@ "APPROX_DISTINCT" :> A(1,2) @@ "APPROX_MOST_FREQUENT" :> A(3,3) @@ "APPROX_PERCENTILE" :> A(2,3)
@@ "APPROX_SET" :> A(1,1) @@ "ARBITRARY" :> A(1,1) @@ "ARRAY_AGG" :> A(1,1) @@ "AVG" :> A(1,1)
@@ "BITWISE_AND_AGG" :> A(1,1) @@ "BITWISE_OR_AGG" :> A(1,1) @@ "BOOL_AND" :> A(1,1)
@@ "BOOL_OR" :> A(1,1) @@ "CHECKSUM" :> A(1,1) @@ "CORR" :> A(2,2) @@ "COUNT" :> A(1,1)
@@ "COUNT_IF" :> A(1,1) @@ "COVAR_POP" :> A(2,2) @@ "COVAR_SAMP" :> A(2,2) @@ "EVERY" :> A(1,1)
@@ "GEOMETRIC_MEAN" :> A(1,1) @@ "HISTOGRAM" :> A(1,1) @@ "KURTOSIS" :> A(2,2) @@ "MAP_AGG" :> A(2,2)
@@ "MAP_UNION" :> A(1,1) @@ "MAX" :> A(1,2) @@ "MAX_BY" :> A(2,3) @@ "MERGE" :> A(1,1)
@@ "MIN" :> A(1,2) @@ "MIN_BY" :> A(2,3) @@ "MULTIMAP_AGG" :> A(2,2) @@ "NUMERIC_HISTOGRAM" :> A(2,3)
@@ "QDIGEST_AGG" :> A(1,3) @@ "REGR_INTERCEPT" :> A(2,2) @@ "REGR_SLOPE" :> A(2,2)
@@ "SKEWNESS" :> A(1,1) @@ "STDDEV" :> A(1,1) @@ "STDDEV_POP" :> A(1,1) @@ "STDDEV_SAMP" :> A(1,1)
@@ "SUM" :> A(1,1) @@ "TDIGEST_AGG" :> A(1,2) @@ "VARIANCE" :> A(1,1) @@ "VAR_POP" :> A(1,1)
@@ "VAR_SAMP" :> A(1,1)
FnNames == DOMAIN Functions

(* functions without parentheses, and their optional precision *)
DtNames == {"CURRENT_TIME", "CURRENT_TIMESTAMP", "LOCALTIME", "LOCALTIMESTAMP"}
SessNames == {"CURRENT_USER", "CURRENT_CATALOG", "CURRENT_SCHEMA", "CURRENT_PATH"}

SimpleTypes == {"BOOLEAN", "INTEGER", "TINYINT", "SMALLINT", "BIGINT", "REAL", "DOUBLE", "VARBINARY",
                "JSON", "DATE", "IPADDRESS", "UUID", "HYPERLOGLOG", "P4HYPERLOGLOG", "TDIGEST",
                "UNKNOWN"}
TypeNames == SimpleTypes \cup {"DECIMAL", "VARCHAR", "CHAR", "TIME", "TIMESTAMP", "INTERVAL", "ARRAY",
                               "MAP", "ROW", "QDIGEST"}
=============================================================================
