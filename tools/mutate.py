"""Development aid: which single-token changes of a module escape the checks?

  mutate.py MODULE COUNT SEED [JOBS]

Writes mutants of scratch copies of /repo (never of /repo itself), runs the
checks that cover the function until one reports a violation, and prints the
survivors. Not used by any registered check."""
import ast
import os
import random
import shutil
import subprocess
import sys
import warnings
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FUNCS = {
    "system": dict(names="C08", dcs="C08", rfs="C08", __getitem__="C08",
                   with_voltages="C08", electrical_potential="C06 C41",
                   individual_potential="C06", time_potential="C06",
                   pseudo_potential="C07", potential="C07", plot="C38",
                   plot_contour="C38", plot_voltages="C38", minimum="C10",
                   saddle="C11", modes="C12", trajectory="C35", shims="C17",
                   _run_cvxopt="C18 C16", solve="C18", optimize="C16",
                   group="C09", mathieu="C13", analyze_static="C12",
                   rf_scale="C12", _analyze_static="C12", ions="C39",
                   electrode="C08", __init__="C08 C41"),
    "electrode": {"": "C24 C37 C05 C01 C02 C03 C41 C38"},
    "utils": dict(cartesian_to_spherical_harmonics="C21",
                  area_centroid="C37", mathieu="C13", shaped="C41",
                  shaper="C41", apply_method="C41", apply_async="C41",
                  norm="C12", **{"": "C20"}),
    "mathieu": {"": "C14 C15"},
    "pattern_constraints": {"": "C19 C16 C18 C17"},
    "polygons": {"": "C25 C26 C27 C28"},
    "grid": {"": "C23 C24"},
    "adjust": {"": "C36"},
    "saddle": {"": "C11"},
    "spherical_harmonics": {"": "C22"},
    "xic": {"": "C29"},
    "adaptive": {"": "C40"},
    "transformations": {"": "C30 C31 C32 C33 C34"},
}
SWAP = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*",
        ast.Pow: "*", ast.Mod: "*", ast.FloorDiv: "/",
        ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">",
        ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is",
        ast.In: "not in", ast.NotIn: "in"}


def seg(lines, n):
    return n.lineno, n.col_offset, n.end_lineno, n.end_col_offset


def mutants(src):
    tree = ast.parse(src)
    out = []

    def visit(node, fn):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            if isinstance(node, ast.FunctionDef) and not fn:
                fn = node.name
            body = node.body
            if body and isinstance(body[0], ast.Expr) and isinstance(
                    body[0].value, ast.Constant):
                body = body[1:]
            kids = body + (node.args.defaults if isinstance(
                node, ast.FunctionDef) else [])
        else:
            kids = list(ast.iter_child_nodes(node))
        if fn:
            u = ast.unparse

            def add(text, why):
                out.append((seg(None, node), text, fn, why))
            if isinstance(node, ast.BinOp) and type(node.op) in SWAP:
                add("((%s) %s (%s))" % (u(node.left), SWAP[type(node.op)],
                                        u(node.right)), "operator")
            elif isinstance(node, ast.Compare) and len(node.ops) == 1:
                add("((%s) %s (%s))" % (u(node.left), SWAP[type(
                    node.ops[0])], u(node.comparators[0])), "compare")
            elif isinstance(node, ast.BoolOp):
                op = " or " if isinstance(node.op, ast.And) else " and "
                add("(" + op.join("(%s)" % u(v) for v in node.values) + ")",
                    "boolop")
                add("(%s)" % u(node.values[0]), "boolop first")
            elif isinstance(node, ast.UnaryOp):
                add("(%s)" % u(node.operand), "unary")
            elif isinstance(node, ast.Constant):
                v = node.value
                if v is True or v is False:
                    add(str(not v), "constant")
                elif isinstance(v, (int, float)):
                    add(repr(v + 1), "constant")
                    if v:
                        add("0", "constant")
                    if isinstance(v, float) and v:
                        add(repr(v*1.5), "constant")
            elif isinstance(node, (ast.If, ast.IfExp)):
                out.append((seg(None, node.test), "True", fn, "if True"))
                out.append((seg(None, node.test), "False", fn, "if False"))
            elif isinstance(node, (ast.Assign, ast.AugAssign, ast.Expr,
                                   ast.Delete, ast.Raise, ast.Assert)):
                if not isinstance(node, ast.Expr) or "warn" not in u(node):
                    add("pass", "deleted")
                if isinstance(node, ast.AugAssign):
                    add("%s = %s" % (u(node.target), u(node.value)), "aug")
            elif isinstance(node, ast.Continue):
                add("break", "continue")
            elif isinstance(node, ast.Break):
                add("continue", "break")
            elif isinstance(node, ast.Call):
                for i in range(len(node.keywords)):
                    k = ast.Call(node.func, node.args, node.keywords[:i]
                                 + node.keywords[i + 1:])
                    add(u(k), "keyword dropped")
                if len(node.args) == 1 and not node.keywords:
                    add("(%s)" % u(node.args[0]), "call dropped")
                if len(node.args) == 2 and not any(isinstance(
                        a, ast.Starred) for a in node.args):
                    add(u(ast.Call(node.func, node.args[::-1],
                                   node.keywords)), "arguments swapped")
            elif isinstance(node, ast.Slice):
                if node.lower is not None:
                    add(":" + (u(node.upper) if node.upper else ""), "slice")
                if node.upper is not None:
                    add((u(node.lower) if node.lower else "") + ":", "slice")
        for k in kids:
            visit(k, fn)
    visit(tree, "")
    return out


def apply(src, m):
    (a, b, c, d), text, _, _ = m
    lines = src.split("\n")
    first = lines[a - 1].encode()[:b].decode()
    last = lines[c - 1].encode()[d:].decode()
    return "\n".join(lines[:a - 1] + [first + text + last] + lines[c:])


def main():
    warnings.simplefilter("ignore")
    mod, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    jobs = int(sys.argv[4]) if len(sys.argv) > 4 else 3
    path = "/repo/electrode/%s.py" % mod
    src = open(path).read()
    ms = [m for m in mutants(src)
          if not m[2].startswith("test_") and m[2] not in sys.argv[6:]]
    if len(sys.argv) > 5 and sys.argv[5] != "-":
        ms = [m for m in ms if m[2] in sys.argv[5].split(",")]
    random.Random(seed).shuffle(ms)
    print(len(ms), "mutants of", mod, flush=True)
    ms = ms[:count]

    def run(k):
        m = ms[k]
        w = "/tmp/mut/%s%d_%d" % (mod, os.getpid(), k)
        shutil.copytree("/repo", w, symlinks=True)
        try:
            new = apply(src, m)
            try:
                if ast.dump(ast.parse(new)) == ast.dump(ast.parse(src)):
                    return m, "same"
            except SyntaxError:
                return m, "syntax"
            open(os.path.join(w, "electrode", mod + ".py"), "w").write(new)
            f = FUNCS[mod]
            for c in f.get(m[2], f.get("", "")).split():
                env = dict(os.environ, VERIF_REPO=w, VERIF_SEED="1")
                try:
                    r = subprocess.run(
                        ["./run.py", c], cwd=V, env=env, timeout=600,
                        stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                except subprocess.TimeoutExpired:
                    return m, "timeout " + c
                if r.returncode == 1 and b"VIOLATION" in r.stdout:
                    return m, "caught " + c
                if r.returncode:
                    return m, "error %d %s" % (r.returncode, c)
            return m, "SURVIVED"
        finally:
            shutil.rmtree(w)
    tally = {}
    with ThreadPoolExecutor(jobs) as ex:
        for m, r in ex.map(run, range(len(ms))):
            tally[r.split()[0]] = tally.get(r.split()[0], 0) + 1
            if not r.startswith(("caught", "same", "syntax")):
                (a, b, c, d), text, fn, why = m
                old = src.split("\n")[a - 1].strip()
                print("%s:%d %s [%s] %s\n    %s\n    -> %s" % (
                    mod, a, fn, why, r[:150], old[:120], text[:120]),
                    flush=True)
    print(tally, flush=True)


if __name__ == "__main__":
    main()
