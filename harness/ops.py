"""Further calls of a caller's session (see driver.Session)."""

import enum
import importlib
import operator

CONSTRUCT = {"expr": "expression", "query": "query", "type": "type"}


def cli(*args):
    from treeno.cli import app
    from typer.testing import CliRunner

    r = CliRunner().invoke(app, list(args))
    if r.exit_code != 0:
        raise r.exception if r.exception is not None else RuntimeError(f"exit {r.exit_code}")
    return r.stdout_bytes.decode("utf-8")  # r.output would change line ends


class Ops:
    def op_cli(self, e):
        """the format command; its output without the line end"""
        self.heap.append(None)
        t = e["text"] or self.obj(e["o"])
        if self.obj(e["o"]) is None:
            return
        out = cli("format", CONSTRUCT[e["what"]], "--", t)
        if not out.endswith("\n"):
            raise ValueError("no line end")
        e["text"] = out[:-1]
        e["ok"] = True
        self.heap[-1] = e["text"]

    def op_visit(self, e):
        """a visitor which overrides every handler: notes the node, goes on below it, and returns it"""
        x = self.obj(e["o"])
        if x is None:
            return
        nodes, log = self.nodes, e["log"]
        handlers = {}

        def handler(name):
            def h(visitor, node):
                if name not in UNNOTED:
                    log.append(nodes.dump(node) if type(node).__name__ == name
                               else nodes.N("?", [name, type(node).__name__]))
                node.visit(visitor)
                return node

            return h

        base = nodes.C["TreenoVisitor"]
        for m in dir(base):
            if m.startswith("visit_"):
                handlers[m] = handler(m[6:])
        type("Noter", (base,), handlers)().visit(x)
        e["n"] = nodes.dump(x)
        e["ok"] = True

    def op_pyop(self, e):
        self.push_tree(e, lambda: self.spell(e["tree"]))

    def spell(self, n):
        return self.nodes.B(n, self.spelled)

    def spelled(self, n):
        """the Py nodes of a program; None for the others"""
        k, a = n["k"], n["a"]
        if k == "PyRef":
            x = self.obj(int(a[0]))
            if x is None:
                raise LookupError("no such object")
            return (x,)
        if k == "PyVal":
            if a[0] in PYTHON:
                return (PYTHON[a[0]],)
            return (self.nodes.value_of(a),)
        if k == "PyUn":
            return (UN[a[0]](self.spell(n["c"][0])),)
        if k == "PyBin":
            return (BIN[a[0]](*map(self.spell, n["c"])),)
        return None

    def op_str(self, e):
        self.heap.append(None)
        x = self.obj(e["o"])
        if x is None:
            return
        e["text"] = str(x)
        e["ok"] = True
        self.heap[-1] = e["text"]

    def op_dtype(self, e):
        """the inferred type"""
        x = self.obj(e["o"])
        if x is None:
            return
        e["n"] = self.nodes.dump_type(x.data_type)
        e["ok"] = True

    def op_infer(self, e):
        e["n"] = self.nodes.dump_type(self.nodes.B(e["tree"]).data_type)
        e["ok"] = True

    def op_super(self, e):
        """of two types, or of any number"""
        conv = importlib.import_module("treeno.datatypes.conversions")
        ts = []
        for t in e["tree"]["c"]:
            self.nodes.REVERSED[0] = len(ts) % 2 == 1
            ts.append(self.nodes.build_type(t))
        before = [self.nodes.dump_type(t) for t in ts]
        if e["mode"] == "super":
            r = conv.common_supertype(*ts)
        elif e["mode"] == "arith":
            r = conv.get_arithmetic_type(*ts)
        else:
            r = conv.reduce_supertypes(iter(ts))
        if [self.nodes.dump_type(t) for t in ts] != before:
            raise RuntimeError("an argument has changed")
        e["n"] = self.nodes.dump_type(r)
        e["ok"] = True

    def schema_of(self, s):
        C, fields, ids = self.nodes.C, [], set()
        for t in s["c"]:
            table = C["Table"](*t["a"])
            ids.add(t["a"][0])
            fields += [C["SchemaField"](c["a"][0], table, self.nodes.build_type(c["c"][0])) for c in t["c"]]
        return C["Schema"](fields, ids)

    def op_scope(self, e):
        """resolves against a schema: the tree with the types of its references, and its columns"""
        x = self.obj(e["o"])
        if x is None:
            return
        nodes = self.nodes
        out = x.resolve(self.schema_of(e["tree"]))
        cols = [nodes.N("Col", [] if f.name is None else [f.name], [nodes.dump_type(f.data_type)]) for f in out.fields]
        e["n"] = nodes.L([nodes.dump_resolved(x), nodes.L(cols)])
        e["ok"] = True

    def op_schema(self, e):
        """the schema command: its lines, of a name and a type each"""
        if self.obj(e["o"]) is None:
            return
        nodes = self.nodes
        lines = cli("schema", "--", e["text"]).split("\n")
        if lines.pop() != "":
            raise ValueError("no line end")
        lines = [nodes.N("Line", (x.split(" - ", 1) + [""])[:2]) for x in lines]
        e["n"] = lines[0] if lines == [nodes.N("Line", ["Unknown schema", ""])] else nodes.L(lines)
        e["ok"] = True

    def op_shown(self, e):
        """the tree command: the tree that it shows"""
        import shown

        if self.obj(e["o"]) is None:
            return
        t = shown.capture(lambda: cli("tree", CONSTRUCT[e["what"]], "--", e["text"]))
        e["n"] = self.nodes.dump(shown.back(t)) if e["what"] != "type" else self.nodes.dump_type(shown.back_type(t))
        e["ok"] = True

    def op_antlr(self, e):
        """the antlr-tree command: the leaves of the tree that it shows"""
        import shown

        if self.obj(e["o"]) is None:
            return
        t = shown.capture(lambda: cli("antlr-tree", CONSTRUCT[e["what"]], "--", e["text"]))
        e["n"] = self.nodes.N("Leaves", t.leaves())
        e["ok"] = True

    def op_resolve(self, e):
        x = self.obj(e["o"])
        if x is None:
            return
        x.resolve(self.nodes.C["Schema"].empty_schema())
        e["ok"] = True

    def op_poke(self, e):
        """what a caller may do to a tree of theirs: extend its lists, rename what has a name"""
        x = self.obj(e["o"])
        if x is None:
            return
        poke(x)
        e["ok"] = True
        self.heap[e["o"] - 1] = None


UNNOTED = {"JoinConfig", "JoinOnCriteria", "JoinUsingCriteria", "Else", "OverflowFiller", "DataType"}
PYTHON = {"none": None, "list": [1], "tuple": (1, 2), "dict": {"a": 1}, "nan": float("nan"), "inf": float("inf"), "object": object()}
UN = {"+": operator.pos, "-": operator.neg, "~": operator.invert}
BIN = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "%": operator.mod, "**": operator.pow,
       "==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge,
       "&": operator.and_, "|": operator.or_}


def poke(x, seen=None):
    seen = set() if seen is None else seen
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, (list, tuple)):
        for y in list(x):
            poke(y, seen)
        if isinstance(x, list):
            x.append("poked")
    elif isinstance(x, dict):
        for y in list(x.values()):
            poke(y, seen)
        x["poked"] = "poked"
    elif hasattr(type(x), "__attrs_attrs__") and type(x).__name__ not in ("Literal", "DataType"):
        for f in type(x).__attrs_attrs__:
            v = getattr(x, f.name, None)
            if isinstance(v, enum.Enum):
                change(x, f.name, next((m for m in type(v) if m is not v), v))
            elif isinstance(v, str):
                change(x, f.name, v + "poked")
            elif isinstance(v, bool):
                change(x, f.name, not v)
            elif isinstance(v, int):
                change(x, f.name, v + 1)
            else:
                poke(v, seen)


def change(x, name, v):
    try:
        setattr(x, name, v)
    except AttributeError:  # not for changing
        pass
