"""Runs scenarios (sequences of calls) on the real library and records what it did.

    driver.py SCENARIOS.ndjson TRACE.json

Every scenario starts with no objects.  A call never stops the run: what it raised is recorded.
"""
import json
import os
import signal
import sys
from concurrent.futures import ProcessPoolExecutor

LIMIT_S = 20


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


def opts(e):
    from treeno.base import PrintMode, PrintOptions

    return PrintOptions(mode=PrintMode.PRETTY if e["mode"] == "pretty" else PrintMode.DEFAULT, spaces=e["sp"])


class Session:
    def __init__(self):
        import nodes

        self.nodes = nodes
        self.heap = []  # live objects: library objects or texts, None when the call failed

    def obj(self, o):
        return self.heap[o - 1] if 0 < o <= len(self.heap) else None

    def look(self, i):
        x = self.heap[i]
        return None if x is None or isinstance(x, str) else self.nodes.dump(x)

    def run(self, e):
        r = getattr(self, "op_" + e["op"])(e)
        return r

    # ------------------------------------------------ calls that return trees
    def push_tree(self, e, make):
        self.heap.append(None)
        x = make()
        e["n"] = self.nodes.dump(x)
        e["ok"] = True
        self.heap[-1] = x

    def op_parse(self, e):
        self.push_tree(e, lambda: self.nodes.PARSERS[e["what"]](e["text"]))

    op_load = op_parse

    def op_build(self, e):
        self.nodes.REVERSED[0], self.nodes.HELPERS[0] = len(self.heap) % 4 in (1, 2), len(self.heap) % 2 == 1
        try:
            self.push_tree(e, lambda: self.nodes.B(e["tree"]))
        finally:
            self.nodes.HELPERS[0] = False

    def op_reparse(self, e):
        self.heap.append(None)
        t = self.obj(e["ref"])
        if t is None:
            return
        self.heap.pop()
        e["text"] = t
        self.push_tree(e, lambda: self.nodes.PARSERS[e["what"]](t))

    # ------------------------------------------------ calls that return texts
    def op_sql(self, e):
        self.heap.append(None)
        x = self.obj(e["o"])
        if x is None:
            return
        t = x.sql(opts(e))
        if not isinstance(t, str):
            raise TypeError("not a text")
        e["text"] = t
        e["ok"] = True
        self.heap[-1] = e["text"]

    # ------------------------------------------------ observations
    def op_equals(self, e):
        a = self.obj(e["o"])
        b = self.obj(e["ref"]) if e["ref"] else {"text": str(a), "none": None, "dict": vars(a)}[e["what"]]
        if a is None or (e["ref"] and b is None):
            return
        v = a.equals(b)
        e["b"] = ("TRUE" if v else "FALSE") if isinstance(v, bool) else repr(v)
        try:
            a.assert_equals(b)
            said = True
        except AssertionError:
            said = False
        if said is not v:
            e["b"] += " but assert_equals says otherwise"
        e["ok"] = True


DEFAULTS = {"op": "", "cl": [], "what": "", "text": "", "o": 0, "ref": 0, "mode": "", "sp": 4, "ok": False, "b": "",
            "tree": None, "n": None, "log": [], "snap": []}


def run_one(scn):
    import ops

    s = type("Caller", (ops.Ops, Session), {})()
    for e in scn["ev"]:
        for k, v in DEFAULTS.items():
            e.setdefault(k, v)
        e["n"], e["log"], e["snap"] = None, [], []
        e["err"] = ""
        e["ok"] = False
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(LIMIT_S)
        try:
            s.run(e)
        except Hang:
            e["err"] = f"no answer in {LIMIT_S} s"
        except RecursionError as x:
            e["err"] = "RecursionError"
        except Exception as x:
            e["err"] = f"{type(x).__name__}: {x}"[:300]
        finally:
            signal.alarm(0)
        if not e["ok"]:
            e["n"] = None
        if not isinstance(e["text"], str):
            e["text"], e["ok"] = "", False
        if scn.get("snap"):
            e["snap"] = [s.look(i) for i in range(len(s.heap))]
    return scn


def chunk(lines):
    out = []
    for line in lines:
        out.append(json.dumps(run_one(json.loads(line)), ensure_ascii=False))
    return out


def init():
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    sys.setrecursionlimit(3000)
    import nodes  # noqa: F401


def main(src, dst, workers=8):
    lines = [x for x in open(src, encoding="utf-8").read().split("\n") if x]
    size = max(1, min(200, len(lines) // (workers * 4) + 1))
    chunks = [lines[i:i + size] for i in range(0, len(lines), size)]
    trees, index = [], {}

    def ref(n):
        if not n:
            return 0
        key = json.dumps(n, sort_keys=True, ensure_ascii=False)
        if key not in index:
            trees.append(n)
            index[key] = len(trees)
        return index[key]

    scn = []
    with ProcessPoolExecutor(workers, initializer=init) as ex:
        for out in ex.map(chunk, chunks):
            for line in out:
                s = json.loads(line)
                for e in s["ev"]:
                    e["n"], e["tree"] = ref(e["n"]), ref(e["tree"])
                    e["log"], e["snap"] = list(map(ref, e["log"])), list(map(ref, e["snap"]))
                s["id"] = len(scn) + 1
                scn.append(s)
    with open(dst, "w", encoding="utf-8", errors="backslashreplace") as f:
        json.dump({"scn": scn, "trees": trees}, f, ensure_ascii=False)


if __name__ == "__main__":
    main(*sys.argv[1:3])
