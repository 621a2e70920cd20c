"""Between the library's objects and the specification's abstract trees (spec/Ast.tla).

The tables below are the only place which names treeno's classes and fields.
An object that does not fit its table is dumped as a node of an unknown kind ("?..."), which no
specification tree equals, instead of being guessed.
"""
import decimal
import importlib
import pkgutil
import sys


def load():
    import treeno

    names = {}
    for m in pkgutil.walk_packages(treeno.__path__, "treeno."):
        if ".grammar.gen" in m.name:
            continue
        mod = importlib.import_module(m.name)
        for k, v in vars(mod).items():
            if isinstance(v, type) and v.__module__.startswith("treeno."):
                names.setdefault(k, v)
    return names


C = load()

from treeno.datatypes import builder  # noqa: E402
from treeno.datatypes.types import DataType  # noqa: E402
from treeno.builder.convert import (  # noqa: E402
    expression_from_sql,
    query_from_sql,
    type_from_sql,
)
from treeno.expression import wrap_literal, NULL  # noqa: E402

PARSERS = {
    "expr": expression_from_sql,
    "query": query_from_sql,
    "type": type_from_sql,
}


def N(k, a=(), c=()):
    return {"k": k, "a": [str(x) for x in a], "c": list(c)}


NONE = N("None")


def L(items):
    return N("List", (), items)


class Misfit(Exception):
    pass


HELPERS = [False]  # use the functions of treeno.datatypes.builder
HELPER = {"MAP": "map_", "IPADDRESS": "ip", "HYPERLOGLOG": "hll", "P4HYPERLOGLOG": "p4hll"}


# --------------------------------------------------------------- the tables
UNARY = {"Positive": "Pos", "Negative": "Neg", "Not": "Not", "IsNull": "IsNull"}
BINARY = {
    "Add": "Add", "Minus": "Sub", "Multiply": "Mul", "Divide": "Div", "Modulus": "Mod", "Equal": "Eq",
    "NotEqual": "Ne", "GreaterThan": "Gt", "GreaterThanOrEqual": "Ge", "LessThan": "Lt",
    "LessThanOrEqual": "Le", "And": "And", "Or": "Or", "DistinctFrom": "Distinct",
}
# class -> (SQL name, attributes in the order of the SQL arguments)
SCALAR = {
    "AtTimezone": ("AT_TIMEZONE", "value zone"), "Chr": ("CHR", "number"), "Coalesce": ("COALESCE", "*values"),
    "CodePoint": ("CODEPOINT", "string"), "Concatenate": ("CONCAT", "*values"), "Date": ("DATE", "value"),
    "DateAdd": ("DATE_ADD", "unit value timestamp"), "DateDiff": ("DATE_DIFF", "unit timestamp1 timestamp2"),
    "DateTrunc": ("DATE_TRUNC", "unit value"), "FromISO8601Date": ("FROM_ISO8601_DATE", "value"),
    "FromISO8601Timestamp": ("FROM_ISO8601_TIMESTAMP", "value"),
    "FromISO8601TimestampNanos": ("FROM_ISO8601_TIMESTAMP_NANOS", "value"),
    "FromUnixtime": ("FROM_UNIXTIME", "value zone? hours? minutes?"),
    "FromUnixtimeNanos": ("FROM_UNIXTIME_NANOS", "value"), "FromUTF8": ("FROM_UTF8", "binary replace?"),
    "HammingDistance": ("HAMMING_DISTANCE", "string1 string2"),
    "HumanReadableSeconds": ("HUMAN_READABLE_SECONDS", "value"), "If": ("IF", "condition true_value false_value?"),
    "LastDayOfMonth": ("LAST_DAY_OF_MONTH", "value"), "Length": ("LENGTH", "string"),
    "LevenshteinDistance": ("LEVENSHTEIN_DISTANCE", "string1 string2"), "Lower": ("LOWER", "string"),
    "LPad": ("LPAD", "string size pad_string"), "LTrim": ("LTRIM", "string"), "LuhnCheck": ("LUHN_CHECK", "string"),
    "Now": ("NOW", ""), "NullIf": ("NULLIF", "value1 value2"), "ParseDuration": ("PARSE_DURATION", "value"),
    "Power": ("POWER", "x p"), "Replace": ("REPLACE", "string search replace?"), "Reverse": ("REVERSE", "string"),
    "RPad": ("RPAD", "string size pad_string"), "RTrim": ("RTRIM", "string"), "Soundex": ("SOUNDEX", "string"),
    "ToISO8601": ("TO_ISO8601", "value"), "ToMilliseconds": ("TO_MILLISECONDS", "value"),
    "ToUnixtime": ("TO_UNIXTIME", "value"), "ToUTF8": ("TO_UTF8", "string"), "Try": ("TRY", "expr"),
    "WithTimezone": ("WITH_TIMEZONE", "value zone"),
}
AGGREGATE = {
    "ApproxDistinct": ("APPROX_DISTINCT", "key epsilon?"),
    "ApproxMostFrequent": ("APPROX_MOST_FREQUENT", "buckets value capacity"),
    "ApproxPercentile": ("APPROX_PERCENTILE", "value weight? percentage"), "ApproxSet": ("APPROX_SET", "value"),
    "Arbitrary": ("ARBITRARY", "value"), "ArrayAgg": ("ARRAY_AGG", "value"), "Avg": ("AVG", "value"),
    "BitwiseAndAgg": ("BITWISE_AND_AGG", "value"), "BitwiseOrAgg": ("BITWISE_OR_AGG", "value"),
    "BoolAnd": ("BOOL_AND", "value"), "BoolOr": ("BOOL_OR", "value"), "Checksum": ("CHECKSUM", "value"),
    "Corr": ("CORR", "y x"), "Count": ("COUNT", "value"), "CountIf": ("COUNT_IF", "value"),
    "CovarPop": ("COVAR_POP", "y x"), "CovarSamp": ("COVAR_SAMP", "y x"), "Every": ("EVERY", "value"),
    "GeometricMean": ("GEOMETRIC_MEAN", "value"), "Histogram": ("HISTOGRAM", "value"), "Kurtosis": ("KURTOSIS", "y x"),
    "MapAgg": ("MAP_AGG", "key value"), "MapUnion": ("MAP_UNION", "value"), "Max": ("MAX", "value num_values?"),
    "MaxBy": ("MAX_BY", "value max_by num_values?"), "Merge": ("MERGE", "value"), "Min": ("MIN", "value num_values?"),
    "MinBy": ("MIN_BY", "value min_by num_values?"), "MultiMapAgg": ("MULTIMAP_AGG", "key value"),
    "NumericHistogram": ("NUMERIC_HISTOGRAM", "buckets value weight?"),
    "QDigestAgg": ("QDIGEST_AGG", "value weight? accuracy?"), "RegrIntercept": ("REGR_INTERCEPT", "y x"),
    "RegrSlope": ("REGR_SLOPE", "y x"), "Skewness": ("SKEWNESS", "value"), "StdDev": ("STDDEV", "value"),
    "StdDevPop": ("STDDEV_POP", "value"), "StdDevSamp": ("STDDEV_SAMP", "value"), "Sum": ("SUM", "value"),
    "TDigestAgg": ("TDIGEST_AGG", "value weight?"), "Variance": ("VARIANCE", "value"), "VarPop": ("VAR_POP", "value"),
    "VarSamp": ("VAR_SAMP", "value"),
}
FUNCTIONS = {**SCALAR, **AGGREGATE}
BY_NAME = {v[0]: (k, v[1], k in AGGREGATE) for k, v in FUNCTIONS.items()}
DT = {"CurrentTime": "CURRENT_TIME", "CurrentTimestamp": "CURRENT_TIMESTAMP", "LocalTime": "LOCALTIME",
      "LocalTimestamp": "LOCALTIMESTAMP"}
SESS = {"CurrentUser": "CURRENT_USER", "CurrentCatalog": "CURRENT_CATALOG", "CurrentSchema": "CURRENT_SCHEMA",
        "CurrentPath": "CURRENT_PATH"}
JOINS = {"INNER": "INNER", "LEFT": "LEFT", "RIGHT": "RIGHT", "OUTER": "FULL", "CROSS": "CROSS"}
TYPE_PARAMS = {
    "DECIMAL": ("precision", "scale"), "VARCHAR": ("max_chars",), "CHAR": ("max_chars",),
    "INTERVAL": ("from_interval", "to_interval"),
}
SIMPLE = {"BOOLEAN", "INTEGER", "TINYINT", "SMALLINT", "BIGINT", "REAL", "DOUBLE", "VARBINARY", "JSON", "DATE",
          "IPADDRESS", "UUID", "HYPERLOGLOG", "P4HYPERLOGLOG", "TDIGEST", "UNKNOWN"}


# -------------------------------------------------------------------- dumping
def dump_type(t):
    if type(t) is not DataType:
        raise Misfit(f"type {t!r}")
    n, p = t.type_name, dict(t.parameters)
    if n in SIMPLE:
        a, c = [], []
    elif n in ("TIME", "TIMESTAMP"):
        prec = p.pop("precision", None)
        a, c = ["" if prec is None else prec, "TZ" if p.pop("timezone") else ""], []
    elif n in ("ARRAY", "QDIGEST"):
        a, c = [], [dump_type(p.pop("dtype"))]
    elif n == "MAP":
        a, c = [], [dump_type(p.pop("from_dtype")), dump_type(p.pop("to_dtype"))]
    elif n == "ROW":
        a, c = [], [dump_type(x) for x in p.pop("dtypes")]
    elif n in TYPE_PARAMS:
        a, c = [p.pop(k) for k in TYPE_PARAMS[n] if p.get(k) is not None], []
        p = {k: v for k, v in p.items() if v is not None}
    else:
        raise Misfit(f"type {n}")
    if p:
        raise Misfit(f"type {n} {p}")
    return N("Type", [n] + a, c)


def number(v):
    """kind, sign, digits[, scale|exponent] of a number"""
    if isinstance(v, decimal.Decimal):
        sign, digits, exp = v.as_tuple()
        if not isinstance(exp, int):
            raise Misfit(repr(v))
        ds = "".join(map(str, digits)).lstrip("0") or "0"
        if exp > 0:
            ds, exp = (ds + "0" * exp).lstrip("0") or "0", 0
        return ["dec", "-" if sign and ds != "0" else "", ds, -exp]
    if isinstance(v, float):
        d = decimal.Decimal(repr(v)).normalize()
        sign, digits, exp = d.as_tuple()
        if not isinstance(exp, int):
            raise Misfit(repr(v))
        ds = "".join(map(str, digits))
        if ds.strip("0") == "":
            return ["dbl", "", "0", 0]
        return ["dbl", "-" if sign else "", ds, exp]
    return ["int", "-" if v < 0 else "", abs(v)]


def dump_literal(n):
    v, t = n.value, n.data_type.type_name
    if v is None:
        return N("Lit", ["null"])
    if isinstance(v, bool) and t == "BOOLEAN":
        return N("Lit", ["bool", "TRUE" if v else "FALSE"])
    if type(v) is int and t in ("INTEGER", "BIGINT"):
        return N("Lit", number(v))
    if type(v) is float and t == "DOUBLE":
        return N("Lit", number(v))
    if isinstance(v, decimal.Decimal) and t == "DECIMAL":
        return N("Lit", number(v))
    if isinstance(v, str) and t in ("VARCHAR", "CHAR"):
        return N("Lit", ["str", v])
    raise Misfit(f"literal {v!r} {t}")


def text(s):
    if not isinstance(s, str):
        raise Misfit(f"not a name: {s!r}")
    return s


def opt(x):
    return NONE if x is None else D(x)


def lst(xs, f=None):
    return L([] if xs is None else [(f or D)(x) for x in xs])


def enum(x, cls):
    if type(x).__name__ != cls:
        raise Misfit(f"{x!r} is not a {cls}")
    return x.name


def num(x):
    if x is None:
        return ""
    if type(x) is not int:
        raise Misfit(f"not a number {x!r}")
    return x


def query_head(n, quantifier):
    return ([quantifier, num(n.offset), num(n.limit)], [lst(n.with_), lst(n.orderby)])


def base(n):
    """attributes and children of what a Field or a Star belongs to"""
    if n is None:
        return [], []
    if isinstance(n, str):
        return [n], []
    return [], [D(n)]


RESOLVED = []  # not empty: dump what resolving computes (spec/Scope.tla)


def typed(n, x):
    if RESOLVED:
        n["c"].append(dump_type(x.data_type))
    return n


def bare_query(n, *kids):
    return N(type(n).__name__.replace("Query", "").replace("Table", "TableQ"), (), [lst(n.with_), *kids, dump_type(n.data_type)])


BARE = {
    "SelectQuery": lambda n: bare_query(n, lst(n.select), opt(n.from_)),
    "TableQuery": lambda n: bare_query(n, D(n.table)),
    "ValuesQuery": lambda n: bare_query(n, lst(n.exprs)),
    "Join": lambda n: N("Join", (), [D(n.left_relation), D(n.right_relation)]),
    "TableSample": lambda n: N("Sample", (), [D(n.relation)]),
}
for _q in ("Union", "Intersect", "Except"):
    BARE[_q + "Query"] = lambda n: bare_query(n, D(n.left_query), D(n.right_query))


def dump_resolved(n):
    RESOLVED.append(1)
    try:
        return dump(n)
    finally:
        RESOLVED.pop()


def D(n):
    """library object -> abstract node"""
    k = type(n).__name__
    if RESOLVED and k in BARE:
        return BARE[k](n)
    if k in UNARY:
        return N(UNARY[k], (), [D(n.value)])
    if k in BINARY:
        return N(BINARY[k], (), [D(n.left), D(n.right)])
    if k in FUNCTIONS:
        name, spec = FUNCTIONS[k]
        args = []
        for f in spec.split():
            if f[0] == "*":
                args.extend(getattr(n, f[1:]))
            elif f[-1] == "?":
                if getattr(n, f[:-1]) is not None:
                    args.append(getattr(n, f[:-1]))
            else:
                args.append(getattr(n, f))
        args = L([D(a) for a in args])
        if k in AGGREGATE:
            return N("Fn", [name, enum(n.null_treatment, "NullTreatment")],
                     [args, lst(n.orderby), opt(n.filter_), opt(n.window)])
        return N("Fn", [name, "RESPECT"], [args, L([]), NONE, NONE])
    f = globals().get("d_" + k)
    if f is not None:
        return f(n)
    if k == "DataType":
        return dump_type(n)
    raise Misfit(f"class {k}")


d_Literal = dump_literal


def d_Field(n):
    a, c = base(n.table)
    return typed(N("Field", [text(n.name)] + a, c), n)


def d_Star(n):
    a, c = base(n.table)
    return typed(N("Star", a, c), n)


def d_AliasedStar(n):
    return N("AStar", [text(x) for x in n.aliases], [D(n.star)])


def d_AliasedValue(n):
    return N("As", [text(n.alias)], [D(n.value)])


def d_Lambda(n):
    return N("Lambda", [text(v.name) for v in n.inputs], [D(n.expr)])


def d_Variable(n):
    return N("Var", [text(n.name)])


def d_Between(n):
    return N("Between", (), [D(n.value), D(n.lower), D(n.upper)])


def d_Array(n):
    return N("Array", (), [D(x) for x in n.values])


def d_RowConstructor(n):
    return N("Row", (), [D(x) for x in n.values])


def d_InList(n):
    return N("InList", (), [D(n.value)] + [D(x) for x in n.exprs])


def d_InQuery(n):
    return N("InQuery", (), [D(n.value), D(n.query)])


def d_Like(n):
    return N("Like", (), [D(n.value), D(n.pattern), opt(n.escape)])


def d_TypeConstructor(n):
    return N("TypeCons", [text(n.type_name), text(n.value)])


def d_Interval(n):
    return N("Interval", [text(n.value), text(n.from_interval), n.to_interval or ""])


def d_Cast(n):
    return N("Cast", (), [D(n.expr), dump_type(n.data_type)])


def d_TryCast(n):
    return N("TryCast", (), [D(n.expr), dump_type(n.data_type)])


def d_Subscript(n):
    return N("Subscript", (), [D(n.value), D(n.index)])


def d_When(n):
    return N("When", (), [D(n.condition), D(n.value)])


def d_Case(n):
    if n.else_ is not None and type(n.else_).__name__ != "Else":
        raise Misfit("else")
    return N("Case", (), [opt(n.value), NONE if n.else_ is None else D(n.else_.value)] + [D(b) for b in n.branches])


def d_ListAgg(n):
    if n.filter_ is not None or n.window is not None or n.null_treatment.name != "RESPECT":
        raise Misfit("listagg modifiers")
    sep = n.separator
    if type(sep).__name__ == "Literal":
        sep = sep.value
    a = [text(sep)]
    o = n.overflow_filler
    if o is None:
        a += ["ERROR"]
    else:
        fill = o.filler.value if type(o.filler).__name__ == "Literal" else o.filler
        a += ["TRUNCATE", text(fill), enum(o.count_indication, "CountIndication").replace("_", " ")]
    return N("ListAgg", a, [D(n.value), lst(n.orderby)])


def d_Normalize(n):
    return N("Normalize", [] if n.normal_form is None else [n.normal_form.name], [D(n.string)])


def d_CurrentDate(n):
    return N("DtFn", ["CURRENT_DATE"])


def _dt(n):
    return N("DtFn", [DT[type(n).__name__], num(n.precision)])


def _sess(n):
    return N("Sess", [SESS[type(n).__name__]])


for _k in DT:
    globals()["d_" + _k] = _dt
for _k in SESS:
    globals()["d_" + _k] = _sess


def d_SelectQuery(n):
    a, c = query_head(n, enum(n.select_quantifier, "SetQuantifier"))
    wins = L([N("WinDef", [text(k)], [D(v)]) for k, v in (n.window or {}).items()])
    return N("Select", a, c + [lst(n.select), opt(n.from_), opt(n.where), opt(n.groupby), opt(n.having), wins])


def _setq(n):
    kind = {"UnionQuery": "Union", "IntersectQuery": "Intersect", "ExceptQuery": "Except"}[type(n).__name__]
    a, c = query_head(n, enum(n.set_quantifier, "SetQuantifier"))
    return N(kind, a, c + [D(n.left_query), D(n.right_query)])


d_UnionQuery = d_IntersectQuery = d_ExceptQuery = _setq


def d_TableQuery(n):
    a, c = query_head(n, "")
    return N("TableQ", a, c + [D(n.table)])


def d_ValuesQuery(n):
    a, c = query_head(n, "")
    return N("Values", a, c + [lst(n.exprs)])


def d_Table(n):
    return N("Table", [text(x) for x in (n.catalog, n.schema, n.name) if x is not None])


def d_AliasedRelation(n):
    return N("ARel", [text(n.alias)] + [text(x) for x in n.column_aliases or []], [D(n.relation)])


def d_Join(n):
    cfg = n.config
    if type(cfg).__name__ != "JoinConfig":
        raise Misfit("join config")
    crit = cfg.criteria
    if crit is None:
        c = NONE
    elif type(crit).__name__ == "JoinOnCriteria":
        c = N("On", (), [D(crit.constraint)])
    elif type(crit).__name__ == "JoinUsingCriteria":
        c = N("Using", [text(x) for x in crit.column_names])
    else:
        raise Misfit("criteria")
    return N("Join", [JOINS[cfg.join_type.name], "NATURAL" if cfg.natural else ""],
             [D(n.left_relation), D(n.right_relation), c])


def d_Unnest(n):
    return typed(N("Unnest", ["ORD" if n.with_ordinality else ""], [D(x) for x in n.arrays]), n)


def d_Lateral(n):
    return N("Lateral", (), [D(n.subquery)])


def d_TableSample(n):
    return N("Sample", [enum(n.sample_type, "SampleType")], [D(n.relation), D(n.percentage)])


def d_GroupBy(n):
    return N("GroupBy", [enum(n.groupby_quantifier, "SetQuantifier")], [D(x) for x in n.groups])


def d_GroupingSet(n):
    return N("GSet", (), [D(x) for x in n.values])


def d_GroupingSetList(n):
    return N("GSets", (), [D(x) for x in n.groups])


def d_Cube(n):
    return N("Cube", (), [D(x) for x in n.values])


def d_Rollup(n):
    return N("Rollup", (), [D(x) for x in n.values])


def d_OrderTerm(n):
    return N("Order", [enum(n.order_type, "OrderType"), enum(n.null_order, "NullOrder")], [D(n.value)])


def d_Window(n):
    return N("Window", [n.parent_window or "", enum(n.frame_type, "FrameType")],
             [lst(n.partitions), lst(n.orderby), D(n.start_bound), D(n.end_bound)])


def d_BoundedFrameBound(n):
    return N("BOff", [enum(n.bound_type, "BoundType")], [D(n.offset)])


def d_UnboundedFrameBound(n):
    return N("BUnb", [enum(n.bound_type, "BoundType")])


def d_CurrentFrameBound(n):
    return N("BCur")


def dump(n):
    try:
        return D(n)
    except Misfit as e:
        return N("?", [str(e)])
    except Exception as e:  # an object without the attributes of its class
        return N("?", [f"{type(n).__name__}: {type(e).__name__} {e}"])


# ------------------------------------------------------------------- building
REVERSED = [False]  # whether the parameters of types are given in the opposite order


def build_type(n):
    name, a = n["a"][0], n["a"][1:]
    p = {}
    if name in ("TIME", "TIMESTAMP"):
        if a and a[0] != "":
            p["precision"] = int(a[0])
        if len(a) > 1 and a[1] == "TZ":
            p["timezone"] = True
    elif name in ("ARRAY", "QDIGEST"):
        p.update(zip(("dtype", "more"), map(build_type, n["c"])))
    elif name == "MAP":
        p.update(zip(("from_dtype", "to_dtype", "more"), map(build_type, n["c"])))
    elif name == "ROW":
        p["dtypes"] = [build_type(x) for x in n["c"]]
    elif name in TYPE_PARAMS:
        for key, v in zip(TYPE_PARAMS[name], a):
            p[key] = v if name == "INTERVAL" else int(v)
    elif a:
        p["precision"] = int(a[0])
    p = dict(reversed(p.items())) if REVERSED[0] else p
    helper = HELPERS[0] and getattr(builder, HELPER.get(name, name.lower()), None)
    return helper(**p) if helper else DataType(name, parameters=p)


def value_of(a):
    """the Python value of a literal"""
    kind = a[0]
    if kind == "bool":
        return a[1] == "TRUE"
    if kind == "int":
        return int(a[1] + a[2])
    if kind == "dec":
        return decimal.Decimal((1 if a[1] else 0, tuple(map(int, a[2])), -int(a[3])))
    if kind == "dbl":
        return float(a[1] + a[2] + "e" + a[3])
    return a[1]


def E(cls, member):
    return getattr(C[cls], member)


def olist(n):
    return [B(x) for x in n["c"]] or None


def bopt(n):
    return None if n["k"] == "None" else B(n)


def fbase(a, c):
    return B(c[0]) if c else (a[0] if a else None)


REV_U = {v: k for k, v in UNARY.items()}
REV_B = {v: k for k, v in BINARY.items()}
REV_DT = {v: k for k, v in DT.items()}
REV_SESS = {v: k for k, v in SESS.items()}
REV_J = {v: k for k, v in JOINS.items()}
SETQ = {"Union": "UnionQuery", "Intersect": "IntersectQuery", "Except": "ExceptQuery"}


def bhead(n):
    kw = {}
    if n["a"][1] != "":
        kw["offset"] = int(n["a"][1])
    if n["a"][2] != "":
        kw["limit"] = int(n["a"][2])
    if n["c"][0]["c"]:
        kw["with_"] = [B(x) for x in n["c"][0]["c"]]
    if n["c"][1]["c"]:
        kw["orderby"] = [B(x) for x in n["c"][1]["c"]]
    return kw


def function_object(name, args, **kw):
    cls, spec, agg = BY_NAME[name]
    fields = spec.split()
    if any(f[0] == "*" for f in fields):
        return C[cls](args, **kw)
    if name == "FROM_UNIXTIME":
        names = {1: ["value"], 2: ["value", "zone"], 3: ["value", "hours", "minutes"]}[len(args)]
    elif name == "APPROX_PERCENTILE" and len(args) == 2:
        names = ["value", "percentage"]
    else:
        names = [f.rstrip("?") for f in fields][: len(args)]
    return C[cls](**dict(zip(names, args)), **kw)


HOOK = None


def B(n, hook=False):
    """abstract node -> library object, with the constructors"""
    global HOOK
    if hook is not False:
        HOOK = hook
    k, a, c = n["k"], n["a"], n["c"]
    if k[:2] == "Py":
        return HOOK(n)[0]
    if k == "Lit":
        return NULL if a[0] == "null" else wrap_literal(value_of(a))
    if k in REV_U:
        return C[REV_U[k]](B(c[0]))
    if k in REV_B:
        return C[REV_B[k]](B(c[0]), B(c[1]))
    if k == "Field":
        return C["Field"](a[0], fbase(a[1:], c))
    if k == "Star":
        return C["Star"](fbase(a, c))
    if k == "AStar":
        return C["AliasedStar"](B(c[0]), list(a))
    if k == "As":
        return C["AliasedValue"](B(c[0]), a[0])
    if k == "Var":
        return C["Lambda"].Variable(a[0])
    if k == "Lambda":
        return C["Lambda"]([C["Lambda"].Variable(x) for x in a], B(c[0]))
    if k == "Between":
        return C["Between"](*map(B, c))
    if k == "Array":
        return C["Array"]([B(x) for x in c])
    if k == "Row":
        return C["RowConstructor"]([B(x) for x in c])
    if k == "InList":
        return C["InList"](B(c[0]), [B(x) for x in c[1:]])
    if k == "InQuery":
        return C["InQuery"](B(c[0]), B(c[1]))
    if k == "Like":
        return C["Like"](B(c[0]), B(c[1]), bopt(c[2]))
    if k == "TypeCons":
        return C["TypeConstructor"](a[1], a[0])
    if k == "Interval":
        return C["Interval"](a[0], a[1], a[2] or None)
    if k in ("Cast", "TryCast"):
        return C[k](B(c[0]), data_type=build_type(c[1]))
    if k == "Subscript":
        return C["Subscript"](B(c[0]), B(c[1]))
    if k == "When":
        return C["When"](B(c[0]), B(c[1]))
    if k == "Case":
        return C["Case"]([B(x) for x in c[2:]], None if c[1]["k"] == "None" else C["Else"](B(c[1])), bopt(c[0]))
    if k == "Fn":
        kw = {}
        if c[1]["c"]:
            kw["orderby"] = olist(c[1])
        if c[2]["k"] != "None":
            kw["filter_"] = B(c[2])
        if c[3]["k"] != "None":
            kw["window"] = B(c[3])
        if a[1] != "RESPECT":
            kw["null_treatment"] = E("NullTreatment", a[1])
        return function_object(a[0], [B(x) for x in c[0]["c"]], **kw)
    if k == "ListAgg":
        kw = {}
        if a[1] == "TRUNCATE":
            kw["overflow_filler"] = C["OverflowFiller"](E("CountIndication", a[3].replace(" ", "_")), a[2])
        return C["ListAgg"](B(c[0]), a[0], orderby=olist(c[1]), **kw)
    if k == "Normalize":
        return C["Normalize"](B(c[0]), E("NormalForm", a[0]) if a else None)
    if k == "DtFn":
        return C["CurrentDate"]() if a[0] == "CURRENT_DATE" else C[REV_DT[a[0]]](int(a[1]))
    if k == "Sess":
        return C[REV_SESS[a[0]]]()
    if k == "Type":
        return build_type(n)
    if k == "Select":
        kw = bhead(n)
        if a[0] != "ALL":
            kw["select_quantifier"] = E("SetQuantifier", a[0])
        for name, i in (("from_", 3), ("where", 4), ("groupby", 5), ("having", 6)):
            if c[i]["k"] != "None":
                kw[name] = B(c[i])
        if c[7]["c"]:
            kw["window"] = {w["a"][0]: B(w["c"][0]) for w in c[7]["c"]}
        return C["SelectQuery"](select=[B(x) for x in c[2]["c"]], **kw)
    if k in SETQ:
        kw = bhead(n)
        if a[0] != "DISTINCT":
            kw["set_quantifier"] = E("SetQuantifier", a[0])
        return C[SETQ[k]](B(c[2]), B(c[3]), **kw)
    if k == "TableQ":
        return C["TableQuery"](B(c[2]), **bhead(n))
    if k == "Values":
        return C["ValuesQuery"]([B(x) for x in c[2]["c"]], **bhead(n))
    if k == "Table":
        return C["Table"](**dict(zip(("name", "schema", "catalog"), reversed(a))))
    if k == "ARel":
        return C["AliasedRelation"](B(c[0]), a[0], list(a[1:]) or None)
    if k == "Join":
        crit = None
        if c[2]["k"] == "On":
            crit = C["JoinOnCriteria"](B(c[2]["c"][0]))
        elif c[2]["k"] == "Using":
            crit = C["JoinUsingCriteria"](list(c[2]["a"]))
        kw = {"natural": True} if a[1] == "NATURAL" else {}
        if crit is not None:
            kw["criteria"] = crit
        cfg = C["JoinConfig"](join_type=E("JoinType", REV_J[a[0]]), **kw)
        return C["Join"](left_relation=B(c[0]), right_relation=B(c[1]), config=cfg)
    if k == "Unnest":
        return C["Unnest"]([B(x) for x in c], **({"with_ordinality": True} if a[0] == "ORD" else {}))
    if k == "Lateral":
        return C["Lateral"](B(c[0]))
    if k == "Sample":
        return C["TableSample"](B(c[0]), E("SampleType", a[0]), B(c[1]))
    if k == "GroupBy":
        return C["GroupBy"]([B(x) for x in c], **({} if a[0] == "ALL" else {"groupby_quantifier": E("SetQuantifier", a[0])}))
    if k == "GSet":
        return C["GroupingSet"]([B(x) for x in c])
    if k == "GSets":
        return C["GroupingSetList"]([B(x) for x in c])
    if k == "Cube":
        return C["Cube"]([B(x) for x in c])
    if k == "Rollup":
        return C["Rollup"]([B(x) for x in c])
    if k == "Order":
        kw = {} if a[0] == "ASC" else {"order_type": E("OrderType", a[0])}
        if a[1] != "LAST":
            kw["null_order"] = E("NullOrder", a[1])
        return C["OrderTerm"](B(c[0]), **kw)
    if k == "Window":
        kw = {}
        if a[0]:
            kw["parent_window"] = a[0]
        if c[0]["c"]:
            kw["partitions"] = olist(c[0])
        if c[1]["c"]:
            kw["orderby"] = olist(c[1])
        if a[1] != "RANGE":
            kw["frame_type"] = E("FrameType", a[1])
        if (c[2]["k"], c[2]["a"]) != ("BUnb", ["PRECEDING"]):
            kw["start_bound"] = B(c[2])
        if c[3]["k"] != "BCur":
            kw["end_bound"] = B(c[3])
        return C["Window"](**kw)
    if k == "BUnb":
        return C["UnboundedFrameBound"](E("BoundType", a[0]))
    if k == "BCur":
        return C["CurrentFrameBound"]()
    if k == "BOff":
        return C["BoundedFrameBound"](E("BoundType", a[0]), B(c[0]))
    raise Misfit(f"cannot build {k}")
