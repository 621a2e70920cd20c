------------------------------ MODULE Keywords ------------------------------
(* Vocabulary of Trino's lexer (the reserved and non-reserved words).           *)
(* A word is a keyword only when it is spelled all upper or all lower case.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

KwBoth == <<
    "ABSENT", "ADD", "ADMIN", "AFTER", "ALL", "ALTER", "ANALYZE", "AND", "ANY", "ARRAY", "AS",
    "ASC", "AT", "AUTHORIZATION", "BERNOULLI", "BETWEEN", "BOTH", "BY", "CALL", "CASCADE", "CASE",
    "CAST", "CATALOGS", "COLUMN", "COLUMNS", "COMMENT", "COMMIT", "COMMITTED", "CONDITIONAL",
    "CONSTRAINT", "COPARTITION", "COUNT", "CREATE", "CROSS", "CUBE", "CURRENT", "CURRENT_CATALOG",
    "CURRENT_DATE", "CURRENT_PATH", "CURRENT_ROLE", "CURRENT_SCHEMA", "CURRENT_TIME",
    "CURRENT_TIMESTAMP", "CURRENT_USER", "DATA", "DATE", "DAY", "DEALLOCATE", "DEFAULT", "DEFINE",
    "DEFINER", "DELETE", "DENY", "DESC", "DESCRIBE", "DESCRIPTOR", "DISTINCT", "DISTRIBUTED",
    "DOUBLE", "DROP", "ELSE", "EMPTY", "ENCODING", "END", "ERROR", "ESCAPE", "EXCEPT", "EXCLUDING",
    "EXECUTE", "EXISTS", "EXPLAIN", "EXTRACT", "FALSE", "FETCH", "FILTER", "FINAL", "FIRST",
    "FOLLOWING", "FOR", "FORMAT", "FROM", "FULL", "FUNCTIONS", "GRANT", "GRANTED", "GRANTS",
    "GRAPHVIZ", "GROUP", "GROUPING", "GROUPS", "HAVING", "HOUR", "IF", "IGNORE", "IN", "INCLUDING",
    "INITIAL", "INNER", "INPUT", "INSERT", "INTERSECT", "INTERVAL", "INTO", "INVOKER", "IO", "IS",
    "ISOLATION", "JOIN", "JSON", "JSON_ARRAY", "JSON_EXISTS", "JSON_OBJECT", "JSON_QUERY",
    "JSON_VALUE", "KEEP", "KEY", "KEYS", "LAST", "LATERAL", "LEADING", "LEFT", "LEVEL", "LIKE",
    "LIMIT", "LISTAGG", "LOCAL", "LOCALTIME", "LOCALTIMESTAMP", "LOGICAL", "MAP", "MATCH",
    "MATCHED", "MATCHES", "MATCH_RECOGNIZE", "MATERIALIZED", "MEASURES", "MERGE", "MINUTE",
    "MONTH", "NATURAL", "NEXT", "NO", "NONE", "NORMALIZE", "NOT", "NULL", "NULLIF", "NULLS",
    "OBJECT", "OF", "OFFSET", "OMIT", "ON", "ONE", "ONLY", "OPTION", "OR", "ORDER", "ORDINALITY",
    "OUTER", "OUTPUT", "OVER", "OVERFLOW", "PARTITION", "PARTITIONS", "PASSING", "PAST", "PATH",
    "PATTERN", "PER", "PERMUTE", "POSITION", "PRECEDING", "PRECISION", "PREPARE", "PRIVILEGES",
    "PROPERTIES", "PRUNE", "QUOTES", "RANGE", "READ", "RECURSIVE", "REFRESH", "RENAME",
    "REPEATABLE", "REPLACE", "RESET", "RESPECT", "RESTRICT", "RETURNING", "REVOKE", "RIGHT",
    "ROLE", "ROLES", "ROLLBACK", "ROLLUP", "ROW", "ROWS", "RUNNING", "SCALAR", "SCHEMA", "SCHEMAS",
    "SECOND", "SECURITY", "SEEK", "SELECT", "SERIALIZABLE", "SESSION", "SET", "SETS", "SHOW",
    "SOME", "START", "STATS", "SUBSET", "SUBSTRING", "SYSTEM", "TABLE", "TABLES", "TABLESAMPLE",
    "TEXT", "THEN", "TIES", "TIME", "TIMESTAMP", "TO", "TRAILING", "TRANSACTION", "TRIM", "TRUE",
    "TRUNCATE", "TRY_CAST", "TYPE", "UESCAPE", "UNBOUNDED", "UNCOMMITTED", "UNCONDITIONAL",
    "UNION", "UNIQUE", "UNKNOWN", "UNMATCHED", "UNNEST", "UPDATE", "USE", "USER", "USING",
    "VALIDATE", "VALUE", "VALUES", "VERBOSE", "VERSION", "VIEW", "WHEN", "WHERE", "WINDOW", "WITH",
    "WITHIN", "WITHOUT", "WORK", "WRAPPER", "WRITE", "YEAR", "ZONE" >>

KwBothLower == <<
    "absent", "add", "admin", "after", "all", "alter", "analyze", "and", "any", "array", "as",
    "asc", "at", "authorization", "bernoulli", "between", "both", "by", "call", "cascade", "case",
    "cast", "catalogs", "column", "columns", "comment", "commit", "committed", "conditional",
    "constraint", "copartition", "count", "create", "cross", "cube", "current", "current_catalog",
    "current_date", "current_path", "current_role", "current_schema", "current_time",
    "current_timestamp", "current_user", "data", "date", "day", "deallocate", "default", "define",
    "definer", "delete", "deny", "desc", "describe", "descriptor", "distinct", "distributed",
    "double", "drop", "else", "empty", "encoding", "end", "error", "escape", "except", "excluding",
    "execute", "exists", "explain", "extract", "false", "fetch", "filter", "final", "first",
    "following", "for", "format", "from", "full", "functions", "grant", "granted", "grants",
    "graphviz", "group", "grouping", "groups", "having", "hour", "if", "ignore", "in", "including",
    "initial", "inner", "input", "insert", "intersect", "interval", "into", "invoker", "io", "is",
    "isolation", "join", "json", "json_array", "json_exists", "json_object", "json_query",
    "json_value", "keep", "key", "keys", "last", "lateral", "leading", "left", "level", "like",
    "limit", "listagg", "local", "localtime", "localtimestamp", "logical", "map", "match",
    "matched", "matches", "match_recognize", "materialized", "measures", "merge", "minute",
    "month", "natural", "next", "no", "none", "normalize", "not", "null", "nullif", "nulls",
    "object", "of", "offset", "omit", "on", "one", "only", "option", "or", "order", "ordinality",
    "outer", "output", "over", "overflow", "partition", "partitions", "passing", "past", "path",
    "pattern", "per", "permute", "position", "preceding", "precision", "prepare", "privileges",
    "properties", "prune", "quotes", "range", "read", "recursive", "refresh", "rename",
    "repeatable", "replace", "reset", "respect", "restrict", "returning", "revoke", "right",
    "role", "roles", "rollback", "rollup", "row", "rows", "running", "scalar", "schema", "schemas",
    "second", "security", "seek", "select", "serializable", "session", "set", "sets", "show",
    "some", "start", "stats", "subset", "substring", "system", "table", "tables", "tablesample",
    "text", "then", "ties", "time", "timestamp", "to", "trailing", "transaction", "trim", "true",
    "truncate", "try_cast", "type", "uescape", "unbounded", "uncommitted", "unconditional",
    "union", "unique", "unknown", "unmatched", "unnest", "update", "use", "user", "using",
    "validate", "value", "values", "verbose", "version", "view", "when", "where", "window", "with",
    "within", "without", "work", "wrapper", "write", "year", "zone" >>

KwUpperOnly == { "NFC", "NFD", "NFKC", "NFKD", "STRING", "UTF16", "UTF32", "UTF8", "SKIP" }

NonReserved == {
    "ABSENT", "ADD", "ADMIN", "AFTER", "ALL", "ANALYZE", "ANY", "ARRAY", "ASC", "AT",
    "AUTHORIZATION", "BERNOULLI", "BOTH", "CALL", "CASCADE", "CATALOGS", "COLUMN", "COLUMNS",
    "COMMENT", "COMMIT", "COMMITTED", "CONDITIONAL", "COPARTITION", "COUNT", "CURRENT", "DATA",
    "DATE", "DAY", "DEFAULT", "DEFINE", "DEFINER", "DENY", "DESC", "DESCRIPTOR", "DISTRIBUTED",
    "DOUBLE", "EMPTY", "ENCODING", "ERROR", "EXCLUDING", "EXPLAIN", "FETCH", "FILTER", "FINAL",
    "FIRST", "FOLLOWING", "FORMAT", "FUNCTIONS", "GRANT", "GRANTED", "GRANTS", "GRAPHVIZ",
    "GROUPS", "HOUR", "IF", "IGNORE", "INCLUDING", "INITIAL", "INPUT", "INTERVAL", "INVOKER", "IO",
    "ISOLATION", "JSON", "KEEP", "KEY", "KEYS", "LAST", "LATERAL", "LEADING", "LEVEL", "LIMIT",
    "LOCAL", "LOGICAL", "MAP", "MATCH", "MATCHED", "MATCHES", "MATCH_RECOGNIZE", "MATERIALIZED",
    "MEASURES", "MERGE", "MINUTE", "MONTH", "NEXT", "NFC", "NFD", "NFKC", "NFKD", "NO", "NONE",
    "NULLIF", "NULLS", "OBJECT", "OF", "OFFSET", "OMIT", "ONE", "ONLY", "OPTION", "ORDINALITY",
    "OUTPUT", "OVER", "OVERFLOW", "PARTITION", "PARTITIONS", "PASSING", "PAST", "PATH", "PATTERN",
    "PER", "PERMUTE", "POSITION", "PRECEDING", "PRECISION", "PRIVILEGES", "PROPERTIES", "PRUNE",
    "QUOTES", "RANGE", "READ", "REFRESH", "RENAME", "REPEATABLE", "REPLACE", "RESET", "RESPECT",
    "RESTRICT", "RETURNING", "REVOKE", "ROLE", "ROLES", "ROLLBACK", "ROW", "ROWS", "RUNNING",
    "SCALAR", "SCHEMA", "SCHEMAS", "SECOND", "SECURITY", "SEEK", "SERIALIZABLE", "SESSION", "SET",
    "SETS", "SHOW", "SOME", "START", "STATS", "STRING", "SUBSET", "SUBSTRING", "SYSTEM", "TABLES",
    "TABLESAMPLE", "TEXT", "TIES", "TIME", "TIMESTAMP", "TO", "TRAILING", "TRANSACTION",
    "TRUNCATE", "TRY_CAST", "TYPE", "UNBOUNDED", "UNCOMMITTED", "UNCONDITIONAL", "UNIQUE",
    "UNKNOWN", "UNMATCHED", "UPDATE", "USE", "USER", "UTF16", "UTF32", "UTF8", "VALIDATE", "VALUE",
    "VERBOSE", "VERSION", "VIEW", "WINDOW", "WITHIN", "WITHOUT", "WORK", "WRAPPER", "WRITE",
    "YEAR", "ZONE" }

(* spelling |-> keyword *)
KwFcn == TLCEval([w \in {KwBoth[i] : i \in 1..Len(KwBoth)} \cup KwUpperOnly |-> w]
         @@ [w \in {KwBothLower[i] : i \in 1..Len(KwBothLower)} |->
              KwBoth[CHOOSE i \in 1..Len(KwBoth) : KwBothLower[i] = w]])
KwDom == TLCEval(DOMAIN KwFcn)
LowerOf == TLCEval([w \in {KwBoth[i] : i \in 1..Len(KwBoth)} |->
              KwBothLower[CHOOSE i \in 1..Len(KwBoth) : KwBoth[i] = w]])
=============================================================================
