"""
Mutation sweep: small source changes in a scratch copy of the package, each
run against the given checks.  Development aid only (no check uses it).
  mutate.py FILE.py CHECK[,CHECK] [--range a:b[,c:d]] [--max N] [--jobs J]
"""
import argparse
import ast
import concurrent.futures as cf
import os
import random
import shutil
import subprocess
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo"
PKG = "neural_network_lyapunov"
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is}
CMP2 = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
       ast.Div: ast.Mult, ast.MatMult: None}
NAMES = [("_lo", "_up"), ("min", "max"), ("torch.ones", "torch.zeros"),
         ("relu_input_lo", "relu_input_up"), ("Ain_", "Aeq_")]


def seg(node):
    return (node.lineno, node.col_offset, node.end_lineno,
            node.end_col_offset)


def mutants(src):
    tree = ast.parse(src)
    out = []

    def add(node, new, what):
        out.append((seg(node), new, what))

    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for t in (CMP, CMP2):
                o = t.get(type(n.ops[0]))
                if o:
                    m = ast.Compare(n.left, [o()], n.comparators)
                    add(n, "(" + ast.unparse(m) + ")", "cmp")
        elif isinstance(n, ast.BinOp) and BIN.get(type(n.op)):
            if isinstance(n.left, (ast.Constant, ast.List)) and not isinstance(
                    getattr(n.left, "value", 0), (int, float)):
                continue
            add(n, "(" + ast.unparse(ast.BinOp(n.left, BIN[type(n.op)](),
                                               n.right)) + ")", "bin")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            add(n, "(" + ast.unparse(n.operand) + ")", "usub")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, "(" + ast.unparse(n.operand) + ")", "not")
        elif isinstance(n, ast.BoolOp):
            o = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            add(n, "(" + ast.unparse(ast.BoolOp(o, n.values)) + ")", "bool")
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add(n, str(not n.value), "const")
            elif isinstance(n.value, (int, float)):
                add(n, repr(n.value + 1), "const")
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)):
            if isinstance(n, ast.Expr) and isinstance(
                    n.value, ast.Constant):
                continue
            if isinstance(n, ast.Assign):
                continue
            add(n, "pass", "del")
        elif isinstance(n, (ast.Name, ast.Attribute)):
            s = ast.unparse(n)
            for a, b in NAMES:
                for x, y in ((a, b), (b, a)):
                    if isinstance(n, ast.Attribute):
                        if n.attr.find(x) >= 0 and "(" not in s:
                            add(n, ast.unparse(n.value) + "." +
                                n.attr.replace(x, y), "name")
                            break
                    elif x in s and isinstance(n.ctx, ast.Load):
                        add(n, s.replace(x, y), "name")
                        break
    return out


def apply(src, m):
    (l0, c0, l1, c1), new, _ = m
    lines = src.split("\n")
    pre = "\n".join(lines[:l0 - 1] + [lines[l0 - 1][:c0]])
    post = "\n".join([lines[l1 - 1][c1:]] + lines[l1:])
    return pre + new + post


def run(f, src, m, checks):
    new = apply(src, m)
    try:
        ast.parse(new)
    except SyntaxError:
        return None
    d = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    try:
        for e in os.listdir(SRC):
            if e == PKG:
                shutil.copytree(SRC + "/" + e, d + "/" + e,
                                ignore=shutil.ignore_patterns("__pycache__"))
            elif e != ".git":
                os.symlink(SRC + "/" + e, d + "/" + e)
        open(d + "/" + PKG + "/" + f, "w").write(new)
        res = []
        for c in checks:
            env = dict(os.environ, NNL_REPO=d, NNL_OUT=d, VERIF_TIER="quick")
            try:
                p = subprocess.run([V + "/check", c], env=env,
                                   stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True,
                                   timeout=900)
                rc = p.returncode
                if rc not in (0, 1):
                    res.append((c, rc, p.stdout[-600:]))
                    continue
            except subprocess.TimeoutExpired:
                rc = -9
            res.append((c, rc, ""))
            if rc == 1:
                break
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("checks")
    ap.add_argument("--range", default="")
    ap.add_argument("--max", type=int, default=60)
    ap.add_argument("--jobs", type=int, default=3)
    ap.add_argument("--seed", type=int, default=0)
    a = ap.parse_args()
    src = open("%s/%s/%s" % (SRC, PKG, a.file)).read()
    ms = mutants(src)
    if a.range:
        rs = [tuple(map(int, r.split(":"))) for r in a.range.split(",")]
        ms = [m for m in ms if any(lo <= m[0][0] <= hi for lo, hi in rs)]
    random.Random(a.seed).shuffle(ms)
    total = len(ms)
    ms = ms[:a.max]
    lines = src.split("\n")
    st = {"killed": 0, "survived": 0, "error": 0}
    with cf.ThreadPoolExecutor(a.jobs) as ex:
        fut = {ex.submit(run, a.file, src, m, a.checks.split(",")): m
               for m in ms}
        for f in cf.as_completed(fut):
            m, r = fut[f], f.result()
            if r is None:
                continue
            if any(x[1] == 1 for x in r):
                st["killed"] += 1
            else:
                k = "survived" if all(x[1] == 0 for x in r) else "error"
                st[k] += 1
                print(k.upper(), "%s:%d" % (a.file, m[0][0]), m[2], "|",
                      lines[m[0][0] - 1].strip()[:90], "=>", m[1][:70],
                      flush=True)
                if k == "error":
                    print("   ", [(x[1], x[2][-250:]) for x in r], flush=True)
    print(a.file, a.checks, "of", total, st, flush=True)


if __name__ == "__main__":
    main()
