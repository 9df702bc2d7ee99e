#!/usr/bin/env python3
"""Systematic small changes of trikit, to look for behaviour the checks do not watch.

  mutate.py OUT.jsonl [-j N] [--far] [--limit CASES] [--seed S] [--sample N] [--only FILE] [--fn NAME]

Each change is made in a scratch copy of /repo; those that pass the stable tests are run against the eight checks nearest to
the changed function (--far: then all others; the first CASES cases of each) until one reports a violation.  One line of JSON
per change: file, line, function, old, new, outcome (tests / caught by which check / missed).
"""
import argparse, ast, json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor, as_completed
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant
V = plant.V
FILES = ["trikit/__init__.py", "trikit/triangle.py", "trikit/utils.py", "trikit/estimators/base.py",
         "trikit/estimators/bootstrap.py", "trikit/estimators/mack.py", "trikit/estimators/glm.py"]
COSMETIC = {"fontsize", "size", "linewidth", "linewidths", "labelsize", "frameon", "fancybox", "shadow", "edgecolor", "framealpha",
            "markerfirst", "weight", "loc", "figsize", "s", "rotation", "xytext", "textcoords", "ha", "va", "which", "direction",
            "bottom", "top", "labelbottom", "markersize", "markeredgewidth", "facecolor", "alpha", "tight_layout", "pad",
            "margin_titles", "despine", "stacklevel", "left", "axis"}
ALL = ["C%02d" % i for i in range(1, 40)]
NEAR = [("utils", ["C26", "C27", "C35"]), ("__init__", ["C26", "C27", "C35"]),
        ("hist", ["C30", "C33"]), ("plot", ["C28", "C29", "C30", "C33", "C39"]), ("view", ["C28", "C33", "C39"]),
        ("diagnostics", ["C29", "C33"]), ("_residuals_by", ["C29"]), ("residuals_detail", ["C20"]), ("rvs", ["C17", "C29"]),
        ("corr", ["C18"]), ("cy_effects", ["C19"]), ("get_quantiles", ["C25", "C23", "C17"]), ("_data_transform", ["C28", "C29", "C30", "C39"]),
        ("_get_quantiles_by_devp", ["C30", "C39"]), ("yticks", ["C28"]), ("formatter", ["C25"]),
        ("totri", ["C01", "C02", "C03", "C35", "C37"]), ("mack", ["C15", "C16", "C17", "C18", "C19", "C34", "C38", "C11"]),
        ("bootstrap", ["C20", "C21", "C22", "C23", "C24", "C38", "C34", "C11"]), ("base", ["C12", "C13", "C14", "C34", "C31", "C25", "C38", "C11"]),
        ("triangle", ["C01", "C02", "C05", "C06", "C07", "C11", "C04", "C32"])]

def kids(node):
    for f, v in ast.iter_fields(node):
        for c in (v if isinstance(v, list) else [v]):
            if isinstance(c, ast.AST):
                yield f, c

def mutants(src, f):
    tree = ast.parse(src)
    lines = src.splitlines(True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    raw = src.encode()
    def seg(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset
    def text(n):
        a, b = seg(n)
        return raw[a:b].decode()
    out = []
    def put(n, new, fn):
        a, b = seg(n)
        out.append(dict(file=f, line=n.lineno, fn=fn, a=a, b=b, old=raw[a:b].decode(), new=new))
    OPS = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="],
           ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
    BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.Pow: ["*"], ast.FloorDiv: ["/"], ast.Mod: ["+"]}
    def visit(n, fn, dep):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fn = (fn + "." if fn else "") + n.name
            body = n.body
            if body and isinstance(body[0], ast.Expr) and isinstance(getattr(body[0], "value", None), ast.Constant) \
                    and isinstance(body[0].value.value, str):
                body = body[1:]
            if isinstance(n, ast.FunctionDef) and not n.name.startswith("_") or fn.endswith(("__call__", "__init__")):
                for d in n.args.defaults if isinstance(n, ast.FunctionDef) else []:
                    visit(d, fn, dep)
            for c in body:
                visit(c, fn, dep)
            return
        if isinstance(n, ast.JoinedStr):
            return
        if isinstance(n, ast.keyword) and n.arg in COSMETIC:
            return
        if isinstance(n, (ast.Expr, ast.For)) and re.search(
                r"set_linewidth|set_title|spine|tick|set_.?label|\.grid\(|annotate\($|set_facecolor|legend|tick_params|set_visible|set_color\(", text(n).split("\n")[0]):
            return
        if isinstance(n, ast.Raise) or isinstance(n, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in OPS[type(n.ops[0])]:
                put(n, "{} {} {}".format(text(n.left), o, text(n.comparators[0])), fn)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant) or \
                isinstance(n, ast.BinOp) and type(n.op) in BIN and isinstance(n.left, ast.Constant) and not isinstance(n.left.value, str):
            for o in BIN[type(n.op)]:
                put(n, "({}) {} ({})".format(text(n.left), o, text(n.right)), fn)
        if isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            put(n, "(" + o.join("(" + text(v) + ")" for v in n.values) + ")", fn)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            put(n, "(" + text(n.operand) + ")", fn)
        if isinstance(n, (ast.If, ast.IfExp)):
            put(n.test, "(True or {})".format(text(n.test)), fn)
            put(n.test, "(False and {})".format(text(n.test)), fn)
        if isinstance(n, ast.Constant) and not isinstance(n.value, str):
            v = n.value
            if v is True or v is False:
                put(n, repr(not v), fn)
            elif v is None:
                pass
            elif isinstance(v, int):
                put(n, str(v + 1), fn)
                if v:
                    put(n, str(v - 1), fn)
            elif isinstance(v, float):
                put(n, repr(v * 1.02 + (.02 if v == 0 else 0)), fn)
        if isinstance(n, ast.keyword) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
            sw = {"left": "inner", "outer": "inner", "any": "all", "all": "any", "first": "last", "last": "first",
                  "linear": "lower", "coerce": "raise"}.get(n.value.value)
            if sw:
                put(n.value, repr(sw), fn)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and not isinstance(n.func.value, ast.Name) or \
                isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                    "copy", "sort_index", "sort_values", "reset_index", "dropna", "astype", "drop_duplicates", "lower", "strip", "abs",
                    "rename", "fillna", "flatten", "item", "deepcopy"):
            if n.func.attr not in ("format",):
                put(n, text(n.func.value), fn)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                n.func.value.id in ("np", "copy", "pd") and n.args and n.func.attr in (
                    "abs", "sqrt", "sort", "unique", "floor", "deepcopy", "copy", "array", "asarray", "nan_to_num", "flatten"):
            put(n, text(n.args[0]), fn)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            sw = {"max": "min", "min": "max", "sum": "mean", "mean": "median", "median": "mean", "cumsum": "cumprod", "any": "all",
                  "all": "any", "startswith": "endswith", "first_valid_index": "last_valid_index", "last_valid_index": "first_valid_index",
                  "std": "var", "logical_and": "logical_or", "logical_or": "logical_and"}.get(n.func.attr)
            if sw:
                a, b = seg(n.func)
                v = text(n.func.value)
                out.append(dict(file=f, line=n.lineno, fn=fn, a=a, b=b, old=raw[a:b].decode(), new=v + "." + sw))
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == "ax":
            return
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            put(n, text(n.value), fn)
        if isinstance(n, ast.keyword) and n.arg and not isinstance(n.value, ast.Constant):
            pass
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and dep and fn:
            if isinstance(n, ast.Expr) or isinstance(n, ast.AugAssign) or isinstance(n.targets[0], ast.Subscript):
                put(n, "pass", fn)
        for fl, c in kids(n):
            visit(c, fn, True)
    visit(tree, "", False)
    seen, res = set(), []
    for m in out:
        if m["old"] == m["new"] or (m["a"], m["b"], m["new"]) in seen:
            continue
        seen.add((m["a"], m["b"], m["new"]))
        new = raw[:m["a"]] + m["new"].encode() + raw[m["b"]:]
        try:
            ast.parse(new.decode())
        except SyntaxError:
            continue
        res.append(m)
    return res

def order(m):
    where = m["file"] + " " + m["fn"].split(".")[-1].lower()
    first = []
    for k, ids in NEAR:
        if k in where:
            first += [i for i in ids if i not in first]
    return first[:8], [i for i in ALL if i not in first[:8]]

UNSTABLE = ["trikit/tests/test_datasets_ut.py::DatasetsTestCase::test_lrdb", "trikit/tests/test_utils_ut.py::UtilsTestCase::test_lobs"]

def quick_tests(d):
    """[] when all stable tests pass (stops at the first failure)."""
    cmd = ["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "pytest_timeout", "-p", "no:cacheprovider", "--timeout=120", "--tb=no", "trikit"]
    for t in UNSTABLE:
        cmd += ["--deselect", t]
    rc, out = plant.sh(cmd, d, dict(plant.ENV, PYTHONPATH=d))
    return [] if rc == 0 else ["failed"]

def one(m, a):
    d = plant.scratch(a.base)
    try:
        p = os.path.join(d, m["file"])
        raw = open(p, "rb").read()
        open(p, "wb").write(raw[:m["a"]] + m["new"].encode() + raw[m["b"]:])
        try:
            bad = quick_tests(d)
        except Exception as e:
            bad = ["%s" % e]
        if bad:
            m["outcome"] = "tests"
            return m
        ev = tempfile.mkdtemp(prefix="mut-ev-", dir="/tmp")
        env = dict(plant.ENV, VERIF_REPO=d, VERIF_EVIDENCE=ev, VERIF_WORKERS="1", VERIF_SEED=str(a.seed))
        m["outcome"] = "missed"
        try:
            near, far = order(m)
            for c in near + (far if a.far else []):
                try:
                    rc, out = plant.sh(["python3", os.path.join(V, "harness/run.py"), c, "--tier", "quick", "--limit", str(a.limit)], V, env, 600)
                except subprocess.TimeoutExpired:
                    m.setdefault("timeouts", []).append(c)
                    continue
                if rc == 1:
                    m["outcome"] = c
                    break
                if rc != 0 and "never reached" not in out:
                    m.setdefault("inconclusive", []).append(c)
        finally:
            shutil.rmtree(ev, ignore_errors=True)
        return m
    finally:
        shutil.rmtree(d, ignore_errors=True)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out"); ap.add_argument("-j", type=int, default=7); ap.add_argument("--limit", type=int, default=14)
    ap.add_argument("--seed", type=int, default=1); ap.add_argument("--sample", type=int); ap.add_argument("--only"); ap.add_argument("--fn")
    ap.add_argument("--far", action="store_true"); ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    a.base = plant.scratch()            # /repo may change in the meantime
    shutil.rmtree(os.path.join(a.base, ".git"), ignore_errors=True)
    ms = []
    for f in FILES:
        if not a.only or a.only in f:
            ms += mutants(open(os.path.join(a.base, f)).read(), f)
    if a.fn:
        ms = [m for m in ms if a.fn in m["fn"]]
    random.Random(a.seed).shuffle(ms)
    if a.sample:
        ms = ms[:a.sample]
    if os.path.exists(a.out):
        done = {(m["file"], m["a"], m["b"], m["new"]) for m in map(json.loads, open(a.out))}
        ms = [m for m in ms if (m["file"], m["a"], m["b"], m["new"]) not in done]
    print(len(ms), "changes")
    if a.list:
        return shutil.rmtree(a.base)
    with ThreadPoolExecutor(a.j) as ex, open(a.out, "a") as fo:
        for fu in as_completed([ex.submit(one, m, a) for m in ms]):
            m = fu.result()
            fo.write(json.dumps(m) + "\n"); fo.flush()
    shutil.rmtree(a.base)

if __name__ == "__main__":
    main()
