#!/opt/venv/bin/python
"""Mutation campaign: small syntactic changes to the Python sources, judged by the checks anchored there.

    tools/mutate.py OUT.jsonl [--jobs N] [--per-file K] [--seed S] [--files SUBSTRING ...] [--scale X]
Works on scratch copies of /repo only. Each line of OUT says which check noticed the change, or none.
"""
import argparse
import ast
import json
import os
import pathlib
import random
import shutil
import subprocess
import tempfile
from collections import defaultdict
from concurrent.futures import ThreadPoolExecutor

VERIF = pathlib.Path(__file__).resolve().parent.parent
EXTRA = {
    "scripts/": ["C27"],
    "common/multi_label/utils.py": ["C17", "C19"],
    "common/metrics.py": ["C25"],
    "evaluators/base.py": ["C22", "C23"],
    "utils/convert_formats.py": ["C19", "C18"],
    "datasets/": ["C23", "C06", "C08"],
    "edge_tools/": ["C16"],
    "helpers/convert": ["C16"],
}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.BitOr: "&", ast.BitAnd: "|"}


def sites(src):
    """[(start, end, new text, description)] of byte positions."""
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for line in lines:
        off.append(off[-1] + len(line) + 1)

    def pos(n):
        a = off[n.lineno - 1] + len(lines[n.lineno - 1].encode()[: n.col_offset].decode())
        b = off[n.end_lineno - 1] + len(lines[n.end_lineno - 1].encode()[: n.end_col_offset].decode())
        return a, b

    out = []
    skip = set()

    def walk(n, quiet=False):
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and getattr(n.test.left, "id", "") == "__name__":
            return
        if isinstance(n, ast.Call):
            name = getattr(n.func, "id", getattr(n.func, "attr", ""))
            if name in ("print", "print_log", "warn", "add_argument", "ArgumentParser", "NotImplementedError"):
                if name != "add_argument":
                    return
        if isinstance(n, ast.Assert):
            walk(n.test)
            return
        if isinstance(n, ast.JoinedStr):
            return
        if isinstance(n, (ast.FunctionDef, ast.Module, ast.ClassDef)):
            for d in n.body:
                if isinstance(d, ast.Expr) and isinstance(d.value, ast.Constant):
                    skip.add(id(d.value))
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            a, b = pos(n.left)[1], pos(n.comparators[0])[0]
            mid = src[a:b]
            old = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}[type(n.ops[0])]
            if old in mid:
                out.append((a, b, mid.replace(old, CMP[type(n.ops[0])], 1), "compare"))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, b = pos(n.left)[1], pos(n.right)[0]
            mid = src[a:b]
            old = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.BitOr: "|", ast.BitAnd: "&"}[type(n.op)]
            if mid.count(old) == 1:
                out.append((a, b, mid.replace(old, BIN[type(n.op)], 1), "operator"))
        if isinstance(n, ast.BoolOp):
            a, b = pos(n.values[0])[1], pos(n.values[1])[0]
            w = "and" if isinstance(n.op, ast.And) else "or"
            out.append((a, b, src[a:b].replace(w, "or" if w == "and" else "and", 1), "boolean operator"))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            a, b = pos(n)
            c, d = pos(n.operand)
            out.append((a, b, "(" + src[c:d] + ")", "dropped not"))
        if isinstance(n, ast.Constant) and id(n) not in skip:
            a, b = pos(n)
            v = n.value
            if isinstance(v, bool):
                out.append((a, b, str(not v), "constant"))
            elif isinstance(v, int):
                out.append((a, b, str(v + 1), "constant"))
                if v > 0:
                    out.append((a, b, str(v - 1), "constant"))
            elif isinstance(v, float):
                out.append((a, b, repr(v * 1.5), "constant"))
            elif isinstance(v, str) and v and not quiet:
                out.append((a, b, repr(v + "_"), "string"))
        if isinstance(n, (ast.Continue, ast.Break)):
            a, b = pos(n)
            out.append((a, b, "pass" if isinstance(n, ast.Break) else "break", "loop control"))
        if isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Tuple) and len(n.value.elts) > 1:
            pass
        if isinstance(n, ast.AugAssign) and isinstance(n.op, (ast.Add, ast.Sub)):
            a, b = pos(n.target)[1], pos(n.value)[0]
            mid = src[a:b]
            out.append((a, b, mid.replace("+=", "=") if "+=" in mid else mid.replace("-=", "="), "augmented"))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            name = getattr(n.value.func, "id", getattr(n.value.func, "attr", ""))
            if name not in ("print", "print_log", "warn", "add_argument", "flush"):
                a, b = pos(n)
                out.append((a, b, "pass", "dropped call"))
        if isinstance(n, (ast.If, ast.IfExp)):
            a, b = pos(n.test)
            out.append((a, b, "True", "condition"))
            out.append((a, b, "False", "condition"))
        if isinstance(n, ast.Call) and n.keywords and len(n.keywords) > 0:
            for k in n.keywords:
                if k.arg and isinstance(k.value, ast.Name) and k.arg == k.value.id:
                    # drop the keyword
                    a, b = pos(k)
                    e = b
                    while e < len(src) and src[e] in " \n,":
                        e += 1
                        if src[e - 1] == ",":
                            break
                    out.append((a, e, "", "dropped keyword"))
        for c in ast.iter_child_nodes(n):
            if isinstance(n, ast.Call) and getattr(n.func, "attr", "") == "add_argument" and isinstance(c, ast.keyword) and c.arg in ("help", "description"):
                continue
            if isinstance(n, ast.arguments) and False:
                continue
            if isinstance(n, (ast.FunctionDef,)) and c in n.decorator_list:
                continue
            if isinstance(c, ast.AST) and not (isinstance(n, (ast.FunctionDef, ast.arg, ast.AnnAssign)) and c is getattr(n, "annotation", getattr(n, "returns", None))):
                walk(c, quiet)

    walk(tree)
    good = []
    for a, b, new, d in out:
        s = src[:a] + new + src[b:]
        try:
            ast.parse(s)
        except SyntaxError:
            continue
        if s != src:
            good.append((a, b, new, d))
    return good


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--per-file", type=int, default=12)
    ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("--files", nargs="*")
    ap.add_argument("--scale", default="0.3")
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    anchors = defaultdict(list)
    for line in open(VERIF / "properties.jsonl"):
        r = json.loads(line)
        for f in r["anchors"]["files"]:
            if f.endswith(".py"):
                anchors[f].append(r["id"])
    for f, ids in anchors.items():
        for k, more in EXTRA.items():
            if k in f:
                ids += [m for m in more if m not in ids]
    rng = random.Random(a.seed)
    jobs = []
    for f in sorted(anchors):
        if a.files and not any(s in f for s in a.files):
            continue
        src = open(os.path.join("/repo", f), encoding="utf8", newline="").read()
        ss = sites(src)
        rng.shuffle(ss)
        for s in ss[: a.per_file]:
            jobs.append((f, src, s))
    rng.shuffle(jobs)
    print(len(jobs), "mutants", flush=True)
    if a.list:
        return
    done = open(a.out, "a")

    def run(job):
        f, src, (s, e, new, d) = job
        tmp = pathlib.Path(tempfile.mkdtemp(prefix="mut-"))
        line = src[:s].count("\n") + 1
        res = {"file": f, "line": line, "kind": d, "old": src[s:e], "new": new, "text": src.split("\n")[line - 1].strip()}
        try:
            wt = tmp / "repo"
            subprocess.run(["cp", "-a", "/repo", str(wt)], check=True)
            (wt / f).write_text(src[:s] + new + src[e:], encoding="utf8", newline="")
            env = dict(os.environ, VERIF_REPO=str(wt), VERIF_WORKERS=str(max(1, 8 // a.jobs)), VERIF_SCALE=a.scale, VERIF_SHRINK="1", VERIF_SEED=str(rng.randint(1, 999)))
            res["caught"] = None
            for c in anchors[f]:
                try:
                    r = subprocess.run(["./run.py", c], cwd=VERIF, env=env, capture_output=True, text=True, timeout=600)
                except subprocess.TimeoutExpired:
                    res.setdefault("odd", []).append(c + " timeout")
                    continue
                if r.returncode == 1 and "VIOLATION property=" in r.stdout:
                    res["caught"] = c
                    break
                if r.returncode:
                    res.setdefault("odd", []).append("%s exit %d %s" % (c, r.returncode, (r.stdout + r.stderr)[-300:]))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        done.write(json.dumps(res) + "\n")
        done.flush()

    with ThreadPoolExecutor(a.jobs) as ex:
        list(ex.map(run, jobs))


main()
