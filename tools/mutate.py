"""Mutation campaign: random small source changes, each run against the relevant checks (a development aid, no check).

usage: mutate.py OUT.jsonl COUNT SEED SLOTS [FILE-REGEX]
"""
import ast
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALLP = [f"C{i:02d}" for i in range(1, 30)]
FIRST = {"double_ml.py": "C17 C10 C16 C02 C18 C19 C15 C14 C11 C01 C28 C29 C09 C24 C12 C13 C26", "double_ml_framework.py": "C13 C11 C12 C14 C10 C28 C29 C26 C15",
         "double_ml_data.py": "C20 C28 C29 C26 C24", "double_ml_score_mixins.py": "C03 C05 C07 C17 C10", "datasets.py": "C26 C28", "rdd.py": "C25 C28 C29", "_utils.py": "C25",
         "policytree.py": "C22 C28 C29", "blp.py": "C21 C28 C29", "global_learner.py": "C27 C29", "dummy_learners.py": "C27 C16", "gain_statistics.py": "C15 C29",
         "resampling.py": "C02 C09 C17", "_propensity_score.py": "C08 C05 C07 C16", "_estimation.py": "C18 C01 C07 C19 C09 C10 C26 C28 C24 C27",
         "_checks.py": "C28 C16 C02 C20 C26 C25", "_sensitivity.py": "C15 C14", "_descriptive.py": "C26 C10 C28",
         "plr.py": "C03 C15 C18 C01 C21 C28 C16 C24 C05", "pliv.py": "C03 C18 C01 C16 C28 C24", "irm.py": "C05 C15 C08 C18 C01 C21 C22 C28 C16 C24 C19", "apo.py": "C05 C15 C08 C18 C01 C21 C28 C16 C23 C19",
         "iivm.py": "C05 C08 C18 C01 C28 C16 C24 C19", "ssm.py": "C05 C08 C18 C01 C28 C16 C24 C19", "pq.py": "C07 C08 C18 C01 C28 C16 C17 C24 C19", "lpq.py": "C07 C08 C18 C01 C28 C16 C17 C24 C19",
         "cvar.py": "C07 C08 C18 C01 C28 C16 C17 C24 C19", "qte.py": "C23 C17 C28 C11 C26 C29", "apos.py": "C23 C17 C28 C16 C02 C14 C15 C26 C29",
         "did.py": "C05 C06 C15 C08 C18 C01 C28 C16 C24 C19", "did_cs.py": "C05 C06 C15 C08 C18 C01 C28 C16 C24 C19"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
OP = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*"}
SWAP = [("train_index", "test_index"), ("g_hat0", "g_hat1"), ("np.median", "np.mean"), ("np.mean", "np.sum"), ("_i_rep", None), ("_i_treat", None), ("y", "d"), ("psi_a", "psi_b"),
        ("lower", "upper"), ("cf_y", "cf_d"), ("m_hat", "g_hat"), ("m_d0", "m_d1"), ("n_folds", "n_rep"), ("thetas", "ses")]


def candidates(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for x in lines:
        off.append(off[-1] + len(x.encode()))
    raw = src.encode()

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    out = []

    def add(a, b, new, kind, line):
        out.append((a, b, new, kind, line))

    def seg(n):
        a, b = pos(n)
        return raw[a:b].decode()

    def walk(n, fn):
        if isinstance(n, (ast.Raise, ast.JoinedStr, ast.Import, ast.ImportFrom, ast.Assert)):
            return
        if isinstance(n, ast.Call) and "warn" in ast.unparse(n.func):
            return
        if isinstance(n, ast.FunctionDef):
            fn = n.name
            if "str" in n.name or "plot" in n.name:
                return
        if fn:
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                a, b = pos(n)
                add(a, b, f"{seg(n.left)} {CMP[type(n.ops[0])]} {seg(n.comparators[0])}", "cmp", n.lineno)
            if isinstance(n, ast.BinOp) and type(n.op) in OP and not isinstance(n.left, (ast.Constant, ast.JoinedStr)) | isinstance(getattr(n.left, "value", 0), str):
                a, b = pos(n)
                add(a, b, f"{seg(n.left)} {OP[type(n.op)]} {seg(n.right)}", "op", n.lineno)
            if isinstance(n, ast.Constant) and n.value is not None and not isinstance(n.value, str):
                a, b = pos(n)
                v = n.value
                new = (not v) if isinstance(v, bool) else (v + 1 if isinstance(v, int) else v * 1.5)
                add(a, b, repr(new), "const", n.lineno)
            if isinstance(n, ast.If):
                a, b = pos(n.test)
                add(a, b, f"not ({seg(n.test)})", "negate", n.lineno)
            if isinstance(n, ast.Attribute) and n.attr in ("_i_rep", "_i_treat", "median", "mean", "copy", "T") and isinstance(n.ctx, ast.Load):
                a, b = pos(n)
                if n.attr.startswith("_i"):
                    add(a, b, "0", "index", n.lineno)
                elif n.attr == "median":
                    add(a, b, seg(n.value) + ".mean", "name", n.lineno)
                elif n.attr == "mean":
                    add(a, b, seg(n.value) + ".median", "name", n.lineno)
                elif n.attr == "T":
                    add(a, b, seg(n.value), "name", n.lineno)
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                for u, v in SWAP:
                    for x, y in ((u, v), (v, u)):
                        if n.id == x and y:
                            a, b = pos(n)
                            add(a, b, y, "swap", n.lineno)
                if n.id in ("i_rep", "i_fold", "i_treat", "i_d"):
                    a, b = pos(n)
                    add(a, b, "0", "index", n.lineno)
            if isinstance(n, ast.Call):
                for k in n.keywords:
                    if k.arg:
                        a, b = pos(k)
                        t = raw[b:b + 1] == b","
                        if t:
                            add(a, b + 1, "", "dropkw", n.lineno)
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                a, b = pos(n)
                add(a, b, "pass", "delete", n.lineno)
        for ch in ast.iter_child_nodes(n):
            walk(ch, fn)

    walk(tree, None)
    return raw, out


def main():
    outf, count, seed, slots = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    rx = sys.argv[5] if len(sys.argv) > 5 else "."
    files = [os.path.join(d, f) for d, _, fs in os.walk("/repo/doubleml") for f in fs if f.endswith(".py") and "/tests" not in d and "__init__" not in f]
    pool = []
    for f in sorted(files):
        if not re.search(rx, f) or os.path.basename(f) not in FIRST:
            continue
        raw, c = candidates(f)
        pool += [(f, raw) + x for x in c]
    rng = random.Random(seed)
    rng.shuffle(pool)
    print("candidates", len(pool))
    seen = set()
    jobs = []
    for m in pool:
        k = (m[0], m[6])
        if k in seen:
            continue
        new = m[1][:m[2]] + m[4].encode() + m[1][m[3]:]
        try:
            compile(new, "x", "exec")
        except SyntaxError:
            continue
        if new == m[1]:
            continue
        seen.add(k)
        jobs.append((m, new))
        if len(jobs) >= count:
            break

    def one(j):
        m, new = j
        d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
        shutil.copytree("/repo/doubleml", d + "/doubleml", ignore=shutil.ignore_patterns("tests", "__pycache__"))
        rel = os.path.relpath(m[0], "/repo")
        open(os.path.join(d, rel), "wb").write(new)
        rec = {"file": rel, "line": m[6], "kind": m[5], "old": m[1][m[2]:m[3]].decode()[:160], "new": m[4][:160], "killed": None}
        env = dict(os.environ, VERIF_REPO=d, VERIF_WORKERS="2", VERIF_SEED=str(seed))
        try:
            for p in FIRST[os.path.basename(m[0])].split():
                r = subprocess.run(["nice", "-n", "15", os.path.join(VERIF, "run.sh"), p, "quick", "--no-write", "--scale", os.environ.get("MSCALE", "0.25")], env=env, capture_output=True, text=True)
                if r.returncode:
                    rec["killed"] = p + ("" if r.returncode == 1 else f" rc={r.returncode}")
                    break
        finally:
            shutil.rmtree(d, ignore_errors=True)
        with open(outf, "a") as f:
            f.write(json.dumps(rec) + "\n")
        return rec

    with cf.ThreadPoolExecutor(slots) as ex:
        for r in ex.map(one, jobs):
            pass


main()
