#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE] [--keep DIR]

Decides one property of treeno: TLC enumerates behaviours of the specification (spec/Gen.tla), the real
library runs them (harness/driver.py), and TLC checks what the library did against the specification
(spec/Replay.tla).  Exit 0: held on everything explored; 1: VIOLATION lines; 2: the check itself failed.
"""
import argparse
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "harness"))
from plans import PLANS  # noqa: E402

SPEC = os.path.join(HERE, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SHARD, SHARD_BYTES = 24000, 30_000_000  # of scenarios that are replayed at once
MAX_REPORT = 10


class Broken(Exception):
    pass


def tlc(module, cfg, env, work, tag, timeout):
    """runs TLC; returns (marked output lines, statistics)"""
    meta = os.path.join(work, "meta-" + tag)
    out = os.path.join(work, "tlc-" + tag + ".out")
    cmd = ["java", "-Xss512m", "-Xmx9g", "-XX:+UseParallelGC", "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8",
           "-Dsun.jnu.encoding=UTF-8", "-Djava.io.tmpdir=" + work,
           "-cp", JARS, "tlc2.TLC", "-workers", "8", "-metadir", meta, "-config", cfg, module]
    full = dict(os.environ, LC_ALL="C.UTF-8", **env)
    full.pop("JAVA_TOOL_OPTIONS", None)
    with open(out, "wb") as f:
        try:
            rc = subprocess.run(cmd, cwd=SPEC, env=full, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            raise Broken(f"TLC {tag}: no end within {timeout} s")
    shutil.rmtree(meta, ignore_errors=True)
    marked, stats, rest = [], {"states": 0, "transitions": 0}, []
    with open(out, encoding="utf-8", errors="replace") as f:
        for line in f:
            m = re.match(r'"([A-Z]+) ', line)
            if m:
                marked.append((m.group(1), json.loads(line)[len(m.group(1)) + 1:]))
                continue
            m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
            if m:
                stats = {"transitions": int(m.group(1)), "states": int(m.group(2))}
            rest.append(line)
    if rc != 0:
        b = Broken(f"TLC {tag} exit {rc}: " + "".join(x for x in rest if "rror" in x or "line" in x)[:1500])
        at = re.search(r"evaluating|overridden|unexpected exception", "".join(rest)) and re.search(r"st_sc = (\d+)", "".join(rest))
        b.scenario = int(at.group(1)) if at else 0  # the one it could not evaluate
        raise b
    return marked, stats


def shards(lines):
    shard, size = [], 0
    for line in lines:
        if shard and (len(shard) == SHARD or size + len(line) > SHARD_BYTES):
            yield shard
            shard, size = [], 0
        shard.append(line)
        size += len(line)
    if shard:
        yield shard


def drive(lines, work, tag):
    src, dst = os.path.join(work, f"scn-{tag}.ndjson"), os.path.join(work, f"trace-{tag}.json")
    with open(src, "w", encoding="utf-8") as f:
        f.write("\n".join(lines) + "\n")
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONPYCACHEPREFIX=os.path.join(work, "pyc"),
               PYTHONHASHSEED="0", PYTHONIOENCODING="utf-8", LC_ALL="C.UTF-8", HOME=work)
    r = subprocess.run([PY, os.path.join(HERE, "harness", "driver.py"), src, dst], env=env, cwd=work,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise Broken("driver: " + r.stdout.decode("utf-8", "replace")[-1500:])
    return dst


def known_findings(pid):
    known = set()
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                known.add((m.group(2), m.group(3)))
    return dict(known)


def show(n):
    if n["k"] == "None":
        return "-"
    return (n["k"] + ("{" + ",".join(n["a"]) + "}" if n["a"] else "")
            + ("(" + " ".join(map(show, n["c"])) + ")" if n["c"] else ""))


def describe(s, at, trees):
    e = s["ev"][at - 1]
    out = [e["op"], e["what"]]
    for k in ("mode", "err"):
        if e.get(k):
            out.append(f"{k}={e[k]}")
    if e["op"] in ("parse", "load", "build", "reparse", "sql", "cli"):
        out.append("text=" + json.dumps(e["text"], ensure_ascii=False)[:300])
    first = s["ev"][0]
    if first["tree"]:
        out.append("tree=" + show(trees[first["tree"] - 1])[:300])
    if e["n"] and e["op"] != "build":
        out.append("got=" + show(trees[e["n"] - 1])[:300])
    return " ".join(out)


def run(pid, tier, work, seed, replay=None, keep=False):
    plan = PLANS[pid]
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
    runs = plan[tier] if not replay else [None]
    violations, findings, seen_total = [], {}, set()
    known = known_findings(pid)
    families = []
    for i, r in enumerate(runs):
        if replay:
            lines = [json.dumps(json.load(open(replay))["scenario"], ensure_ascii=False)]
        else:
            env = {k: str(v) for k, v in r.items() if k.isupper()}
            env.setdefault("PID", pid)
            for k, v in (("DEPTH", "0"), ("WALKS", "0"), ("STEPS", "0"), ("ROOT", "x"), ("SORTS", ""), ("EDITS", "0"), ("PLAN", "")):
                env.setdefault(k, v)
            env["VSEED"] = str(seed)
            marked, st = tlc(r.get("module", "Gen") + ".tla", r.get("cfg", r.get("module", "Gen")) + ".cfg", env, work,
                             f"gen{i}", 5000)
            cov["states"] += st["states"]
            cov["transitions"] += st["transitions"]
            lines = sorted({t for m, t in marked if m == "SCN"} - seen_total)
            seen_total.update(lines)
            if r.get("laws"):  # the specification alone
                families.append({"laws": r["module"], "states": st["states"]})
                continue
            if not lines:
                raise Broken(f"no scenarios from run {i}")
            families.append({"run": env, "scenarios": len(lines)})
        for j, shard in enumerate(shards(lines)):
            trace = drive(shard, work, f"{i}-{j}")
            try:
                marked, st = tlc("Replay.tla", "Replay.cfg", {"TRACE": trace}, work, f"rep{i}-{j}", 5000)
            except Broken as b:
                if not getattr(b, "scenario", 0):
                    raise
                # what the library did is so far from anything specified that it means nothing there
                st = {"states": 0, "transitions": 0}
                marked = [("BAD", json.dumps({"id": b.scenario, "at": 1, "bad": ["meaningless"]}))]
            cov["states"] += st["states"]
            cov["transitions"] += st["transitions"]
            data = json.load(open(trace, encoding="utf-8"))
            by_id = {s["id"]: s for s in data["scn"]}
            ran = sum(1 for s in data["scn"] if any(e["ok"] for e in s["ev"]))
            cov["traces_validated_against_impl"] += len(data["scn"])
            if len(cov["samples"]) < 5 and data["scn"]:
                for s in data["scn"][:: max(1, len(data["scn"]) // 3)][:3]:
                    cov["samples"].append(describe(s, len(s["ev"]), data["trees"])[:400])
            for m, t in marked:
                if m not in ("BAD", "KNOWN"):
                    continue
                b = json.loads(t)
                s = by_id[b["id"]]
                d = describe(s, b["at"], data["trees"])
                if m == "KNOWN" and b["find"] in known:
                    findings[b["find"]] = d
                    continue
                violations.append((s, b, d, shard[s["id"] - 1]))
            for f in (trace, trace.replace("trace-", "scn-").replace(".json", ".ndjson")):
                if not keep:
                    os.remove(f)
    return cov, violations, findings, known, families


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--keep")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    work = a.keep or tempfile.mkdtemp(prefix="verif-" + a.pid + "-")
    os.makedirs(work, exist_ok=True)
    try:
        cov, violations, findings, known, families = run(a.pid, a.tier, work, seed, a.replay, a.keep)
    except Broken as e:
        print(f"BROKEN property={a.pid} {e}")
        return 2
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
    for f, d in sorted(findings.items()):
        print(f"KNOWN-FINDING: property={a.pid} {f}: {known[f]} (e.g. {d[:200]})")
    reported = []
    if violations:
        rdir = os.path.join(HERE, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        violations.sort(key=lambda v: (len(v[3]), v[3]))
        for s, b, d, line in violations[:MAX_REPORT]:
            name = f"{a.pid}-{hashlib.sha256((line + str(b['bad'])).encode()).hexdigest()[:12]}.json"
            path = os.path.join(rdir, name)
            with open(path, "w", encoding="utf-8") as f:
                json.dump({"property": a.pid, "clauses": b["bad"], "step": b["at"], "summary": d,
                           "scenario": json.loads(line), "observed": s}, f, ensure_ascii=False, indent=1)
            print(f"VIOLATION property={a.pid} replay={path}")
            print(f"  step {b['at']} breaks {','.join(b['bad'])}: {d}")
            reported.append(path)
        if len(violations) > MAX_REPORT:
            print(f"  ... and {len(violations) - MAX_REPORT} more")
    if not a.replay:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", a.pid + ".json"), "w", encoding="utf-8") as f:
            json.dump({
                "property": a.pid, "tier": a.tier, "seed": seed, "level": "model_checking",
                "coverage": dict(cov, families=families),
                "assumptions": PLANS[a.pid].get("assumptions", []),
                "wall_s": round(time.time() - t0, 1), "violations": len(violations),
            }, f, ensure_ascii=False, indent=1)
    n = cov["traces_validated_against_impl"]
    print(f"{a.pid} {a.tier}: {n} behaviours run and checked, {len(violations)} violations, "
          f"{len(findings)} known findings, {time.time() - t0:.0f} s")
    return 1 if violations else 0


if __name__ == "__main__":
    sys.exit(main())
