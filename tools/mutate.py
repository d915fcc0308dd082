"""
python3 tools/mutate.py FILE [START:STEP]     mutation test: which small changes of a file of the package no quick check notices

Each mutant is one edit of one syntax node. It is applied to a scratch copy of the package, and the quick checks listed for the
file below run against it until one reports a violation. The survivors are printed; they are either equivalent, or gaps.
"""
import ast
import concurrent.futures
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
CHECKS = {
    "evolution.py": "01 02 03 04 05 06 07 08 09 10",
    "state.py": "11 10 12 13 04 07 05",
    "topology/networks.py": "15 13 11",
    "topology/adjacency.py": "14 13",
    "rules/activity_rule.py": "16 17 18 19",
    "utils.py": "33 31 32 13 34",
    "rule_tables.py": "21",
    "analysis.py": "31",
    "asynchronous_rule.py": "22",
    "ctrbl_rule.py": "20",
    "fungal_growth_model.py": "30",
    "hopfield_net.py": "25",
    "hopfield_tank_tsp_net.py": "26",
    "langtons_loop.py": "20",
    "reversible_rule.py": "23",
    "sandpile.py": "24",
    "substitution_system.py": "28",
    "turing_machine.py": "27",
    "turtle.py": "32 34",
    "wolfram_physics_model.py": "29",
    "vis/vis_utils.py": "34",
    "hexplot.py": "34",
}


def mutants(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    raw = src.encode()
    parents = {}
    docs = set()
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            parents[c] = n
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0])
            docs.add(n.body[0].value)

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        a, b = span(n)
        return raw[a:b].decode()

    def put(n, text):
        a, b = span(n)
        return n.lineno, seg(n).replace("\n", " ")[:60], text.replace("\n", " ")[:70], (raw[:a] + text.encode() + raw[b:]).decode()

    CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.In: ["not in"],
           ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
    BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "//", ast.Pow: "*"}
    for n in ast.walk(tree):
        if n in docs:
            continue
        if any(isinstance(p, ast.JoinedStr) for p in (parents.get(n),)):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                yield put(n, "(%s %s %s)" % (seg(n.left), o, seg(n.comparators[0])))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant)):
            yield put(n, "(%s %s %s)" % (seg(n.left), BIN[type(n.op)], seg(n.right)))
        elif isinstance(n, ast.BoolOp):
            o = "or" if isinstance(n.op, ast.And) else "and"
            yield put(n, "(" + (" %s " % o).join("(%s)" % seg(v) for v in n.values) + ")")
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                yield put(n, "(" + (" and " if o == "or" else " or ").join("(%s)" % seg(v) for v in rest) + ")")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            yield put(n, "(%s)" % seg(n.operand))
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                yield put(n, str(not n.value))
            elif isinstance(n.value, int):
                yield put(n, str(n.value + 1))
                yield put(n, "(%d)" % (n.value - 1))
            elif isinstance(n.value, float):
                yield put(n, repr(n.value * 2 + 1))
            elif isinstance(n.value, str) and not isinstance(parents.get(n), (ast.Raise,)):
                p = parents.get(n)
                if isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id.endswith(("Error", "Exception")):
                    continue
                yield put(n, repr(n.value + "x"))
            elif n.value is None and isinstance(parents.get(n), (ast.arguments,)):
                pass
        elif isinstance(n, (ast.If, ast.While)):
            yield put(n.test, "True") if isinstance(n, ast.If) else put(n.test, "False")
            if isinstance(n, ast.If):
                yield put(n.test, "False")
        elif isinstance(n, ast.IfExp):
            yield put(n, "(%s)" % seg(n.body))
            yield put(n, "(%s)" % seg(n.orelse))
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete, ast.Raise, ast.Continue, ast.Break, ast.Expr)):
            yield put(n, "pass")
            if isinstance(n, ast.AugAssign):
                yield put(n, "%s = %s" % (seg(n.target), seg(n.value)))
            if isinstance(n, ast.Break):
                yield put(n, "continue")
        elif isinstance(n, ast.Return) and n.value is not None:
            if not (isinstance(n.value, ast.Constant) and n.value.value is None):
                yield put(n, "return None")
        elif isinstance(n, (ast.For, ast.comprehension)):
            yield put(n.iter, "list(%s)[1:]" % seg(n.iter))
            yield put(n.iter, "list(%s)[:-1]" % seg(n.iter))
            yield put(n.iter, "list(%s)[::-1]" % seg(n.iter))
            if isinstance(n, ast.comprehension):
                for c in n.ifs:
                    yield put(c, "True")
        elif isinstance(n, ast.Slice):
            if n.lower is not None:
                yield put(n.lower, "")
            if n.upper is not None:
                yield put(n.upper, "")
        elif isinstance(n, ast.Call):
            f = seg(n.func)
            if isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args:
                yield put(n, seg(n.func.value))
            if len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], (ast.Starred, ast.GeneratorExp)) and not isinstance(parents.get(n), ast.Raise):
                yield put(n, "(%s)" % seg(n.args[0]))
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                for i in range(len(n.args) - 1):
                    a = [seg(x) for x in n.args]
                    a[i], a[i + 1] = a[i + 1], a[i]
                    yield put(n, "%s(%s)" % (f, ", ".join(a + [seg_kw(k, seg) for k in n.keywords])))
            for i in range(len(n.keywords)):
                a = [seg(x) for x in n.args] + [seg_kw(k, seg) for j, k in enumerate(n.keywords) if j != i]
                yield put(n, "%s(%s)" % (f, ", ".join(a)))
            if f in ("max", "min"):
                yield put(n.func, "min" if f == "max" else "max")
            if f in ("any", "all"):
                yield put(n.func, "all" if f == "any" else "any")


def seg_kw(k, seg):
    return "%s=%s" % (k.arg, seg(k.value)) if k.arg else "**%s" % seg(k.value)


def try_one(job):
    f, i, line, old, new, src = job
    base = "/tmp/mut/%s.%d" % (f.replace("/", "_"), i)
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    try:
        shutil.copytree(REPO + "/netomaton", base + "/netomaton", ignore=shutil.ignore_patterns("__pycache__"))
        with open(base + "/netomaton/" + f, "w") as g:
            g.write(src)
        for c in CHECKS[f].split():
            t = time.time()
            try:
                r = subprocess.run(["bash", os.environ["MUT_VERIF"] + "/check.sh", "C" + c, "quick"], env=dict(os.environ, MC_REPO=base, MC_WORKERS=os.environ.get("MUT_W", "1")),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900, text=True)
            except subprocess.TimeoutExpired:
                return line, old, new, "C%s TIMEOUT" % c
            if r.returncode == 1:
                return line, old, new, "C" + c
            if r.returncode:
                return line, old, new, "C%s rc=%d %s" % (c, r.returncode, r.stdout[-300:])
        return line, old, new, None
    finally:
        shutil.rmtree(base, ignore_errors=True)


def main():
    f = sys.argv[1]
    start, step = map(int, (sys.argv[2] if len(sys.argv) > 2 else "0:1").split(":"))
    src = open(REPO + "/netomaton/" + f).read()
    jobs = []
    for i, (line, old, new, text) in enumerate(mutants(src)):
        try:
            compile(text, f, "exec")
        except SyntaxError:
            continue
        jobs.append((f, i, line, old, new, text))
    if os.environ.get("MUT_LINES"):
        a, b = map(int, os.environ["MUT_LINES"].split("-"))
        jobs = [j for j in jobs if a <= j[2] <= b]
    jobs = jobs[start::step]
    mv = "/tmp/mut/verif"
    if not os.environ.get("MUT_VERIF"):
        shutil.rmtree(mv, ignore_errors=True)
        shutil.copytree(HERE, mv, ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
        os.environ["MUT_VERIF"] = mv
    print("%s: %d mutants" % (f, len(jobs)), flush=True)
    t0 = time.time()
    by, alive = {}, 0
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("MUT_J", "8"))) as ex:
        for fut in concurrent.futures.as_completed([ex.submit(try_one, j) for j in jobs]):
            line, old, new, got = fut.result()
            if got is None or " " in got:
                alive += got is None
                print("%s:%d  %s  ->  %s   %s" % (f, line, old, new, got or "SURVIVED"), flush=True)
            by[got] = by.get(got, 0) + 1
    print("%s: %d mutants, %d survive, %.0f s; %s" % (f, len(jobs), alive, time.time() - t0, by), flush=True)


if __name__ == "__main__":
    main()
