"""Reads back what the tree command shows: the tree it hands to nltk, as an object without behaviour that has the
attributes which are shown, and defaults for those which are not."""
import decimal
import enum

import attr

import nodes

UNSHOWN = object()


def capture(run):
    """the nltk tree that is drawn while run() runs; it is drawn as well"""
    from nltk.tree import Tree

    seen, draw = [], Tree.pretty_print

    def pretty_print(self, *args, **kw):
        seen.append(self)
        return draw(self, *args, **kw)

    Tree.pretty_print = pretty_print
    try:
        out = run()
    finally:
        Tree.pretty_print = draw
    if len(seen) != 1 or not out.strip():
        raise RuntimeError("no single tree is shown")
    return seen[0]


def back(t, hint=str):
    """hint: what the attribute is declared to be"""
    if isinstance(t, str):
        return leaf(t, hint)
    label, kids = t.label(), list(t)
    if label == "<list>":
        return [back(k, hint) for k in kids]
    if label == "<tuple>":
        return tuple(back(k, hint) for k in kids)
    if label == "<dict>":
        d = {k.label(): only(k) for k in kids}
        if len(d) != len(kids):
            raise nodes.Misfit("a key shown twice")
        return {k: back(v) for k, v in d.items()}
    cls = nodes.C.get(label) or getattr(nodes.C["Lambda"], label)
    shown = {}
    for k in kids:
        if k.label() in shown:
            raise nodes.Misfit("an attribute shown twice")
        shown[k.label()] = only(k)
    x = object.__new__(cls)
    for f in attr.fields(cls):
        v = shown.pop(f.name, UNSHOWN)
        if f.name == "data_type":
            v = data_type("UNKNOWN" if v is UNSHOWN else v)
        elif v is UNSHOWN:
            v = unshown(f)
        else:
            v = back(v, f.type)
        object.__setattr__(x, f.name, v)
    if shown:
        raise nodes.Misfit(f"{label} has no {sorted(shown)}")
    if label == "Literal":
        x.value = literal(x.value, x.data_type.type_name)
    return x


def back_type(t):
    if t.label() != "DataType":
        raise nodes.Misfit(t.label())
    return nodes.type_from_sql(only(t))


def data_type(text):
    try:
        return nodes.type_from_sql(text)
    except Exception:  # what has been inferred may have no text, and what is written has one
        return nodes.C["DataType"]("UNKNOWN")


def only(t):
    if len(t) != 1:
        raise nodes.Misfit(f"{len(t)} values of {t.label()}")
    return t[0]


def unshown(f):
    if isinstance(f.type, type) and issubclass(f.type, enum.Enum) and hasattr(f.type, "default"):
        return f.type.default()
    d = f.default
    if isinstance(d, attr.Factory):
        d = d.factory()
    return [] if "List" in str(f.type) and d in (attr.NOTHING, None) and "Optional" not in str(f.type) else None if d is attr.NOTHING else d


def leaf(t, hint):
    for h in [hint] + list(getattr(hint, "__args__", ())):
        if isinstance(h, type) and issubclass(h, enum.Enum):
            return {str(m): m for m in h}[t]
        if h is bool:
            return {"True": True, "False": False}[t]
        if h is int:
            return int(t)
    return t


def literal(v, type_name):
    if type_name == "UNKNOWN" and v is None:
        return None
    if type_name == "BOOLEAN":
        return {"True": True, "False": False}[v]
    if type_name in ("INTEGER", "BIGINT"):
        return int(v)
    if type_name == "DECIMAL":
        return decimal.Decimal(v)
    if type_name == "DOUBLE":
        return float(v)
    return v
