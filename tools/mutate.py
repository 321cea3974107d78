"""Developer tool: systematic mutants of /repo's Python sources, run against the checks (first violation kills).

mutate.py FILE [FILE..] [-j N] [--only REGEX]   -> /tmp/mut/report.txt (survivors), one line per mutant
Nothing in MANIFEST.json uses this; it shows where the bounds of the checks are too small.
"""
import ast, copy, os, re, shutil, subprocess, sys, threading, queue, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
MODELS = "P29 P06 P09 P04 P05 P08 P07 P10 P12 P11 P22"
CHECKS = [
 ("inference/maxprod", "P01 P07 P04"), ("inference/linear_programming", "P02 P08 P07 P04"),
 ("inference/common", "P01 P02 P07 P03"), ("inference/inference_methods", "P07 P01 P02 P03 P08 P15 P04"),
 ("models/latent", MODELS + " P13 P23"), ("models/node_type", MODELS + " P14 P15"),
 ("models/typed", MODELS + " P14 P15"), ("models/", MODELS), ("utils/graph", "P31 P01 P06 P04"),
 ("utils/inference", "P06 P22 P16 P23 P29 P31"), ("datasets/", "P32"), ("utils/plotting", "P31"), ("utils/", "P31 P27"), ("utils/logging", "P27"),
 ("learners/n_slack", "P16 P18 P19 P26 P24 P25 P23"), ("learners/one_slack", "P16 P18 P19 P26 P24 P25 P23"),
 ("learners/frankwolfe", "P17 P18 P30 P24 P25"), ("learners/subgradient_ssvm", "P20 P18 P26 P24 P25 P28"),
 ("learners/structured_perceptron", "P21 P18 P30 P24 P25"), ("learners/latent", "P23 P25 P29"),
 ("learners/subgradient_latent", "P23 P22 P25 P24 P28"), ("learners/ssvm", "P29 P30 P18 P22 P25 P28 P15")]
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.Lt],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult], ast.FloorDiv: [ast.Mult], ast.Mod: [ast.FloorDiv]}

def skip(node):
    s = ast.unparse(node) if isinstance(node, (ast.If, ast.Expr)) else ""
    if isinstance(node, ast.If) and "verbose" in ast.unparse(node.test): return True
    if isinstance(node, ast.Expr) and (isinstance(node.value, ast.Constant) or s.startswith("print")): return True
    if isinstance(node, (ast.Raise, ast.Import, ast.ImportFrom)): return True
    return False

def mutants(src):
    """yields (line, description, new source)"""
    base = ast.parse(src)
    nodes = []
    def walk(n, path):
        if skip(n): return
        if isinstance(n, ast.FunctionDef) and (n.name in ("__repr__", "plot_grid", "edges_to_graph", "get_installed") or "qpbo" in n.name or "ogm" in n.name or "dai" in n.name or "exhaustive" in n.name or n.name == "iterative_max_product"): return
        nodes.append(path)
        for f, v in ast.iter_fields(n):
            if isinstance(n, ast.FunctionDef) and f == "decorator_list": continue
            if isinstance(v, list):
                for i, c in enumerate(v):
                    if isinstance(c, ast.AST): walk(c, path + [(f, i)])
            elif isinstance(v, ast.AST): walk(v, path + [(f, None)])
    walk(base, [])
    def at(t, path):
        for f, i in path:
            t = getattr(t, f) if i is None else getattr(t, f)[i]
        return t
    for path in nodes:
        n = at(base, path)
        outs = []
        if isinstance(n, ast.Compare):
            for k, op in enumerate(n.ops):
                for o in CMP.get(type(op), []):
                    outs.append(("cmp %s->%s" % (type(op).__name__, o.__name__), lambda m, k=k, o=o: m.ops.__setitem__(k, o())))
        elif isinstance(n, (ast.BinOp, ast.AugAssign)):
            if not (isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, (ast.Constant, ast.BinOp, ast.JoinedStr))):
                for o in BIN.get(type(n.op), []):
                    outs.append(("op %s->%s" % (type(n.op).__name__, o.__name__), lambda m, o=o: setattr(m, "op", o())))
        elif isinstance(n, ast.BoolOp):
            o = ast.Or if isinstance(n.op, ast.And) else ast.And
            outs.append(("bool", lambda m, o=o: setattr(m, "op", o())))
        elif isinstance(n, ast.Constant) and not isinstance(n.value, str):
            v = n.value
            alts = [not v] if isinstance(v, bool) else [v + 1] + ([v - 1] if v == 1 else []) if isinstance(v, int) else [v * 2] if isinstance(v, float) else []
            for a in alts:
                outs.append(("const %r->%r" % (v, a), lambda m, a=a: setattr(m, "value", a)))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            outs.append(("drop " + type(n.op).__name__, "operand"))
        elif isinstance(n, ast.Attribute) and n.attr == "T":
            outs.append(("drop .T", "value"))
        elif isinstance(n, ast.Call):
            for k in range(len(n.keywords)):
                outs.append(("drop kw %s" % n.keywords[k].arg, lambda m, k=k: m.keywords.pop(k)))
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "astype", "ravel"):
                outs.append(("drop ." + n.func.attr, "func.value"))
        elif isinstance(n, (ast.Assign, ast.Expr, ast.Continue, ast.Break)) or isinstance(n, ast.AugAssign):
            outs.append(("delete statement", "PASS"))
        elif isinstance(n, ast.If):
            outs.append(("if False", lambda m: setattr(m, "test", ast.Constant(False))))
        if isinstance(n, ast.AugAssign):
            outs.append(("delete statement", "PASS"))
        for desc, f in outs:
            t = copy.deepcopy(base)
            m = at(t, path)
            if isinstance(f, str):
                par = at(t, path[:-1]); fld, i = path[-1]
                new = ast.Pass() if f == "PASS" else m
                if f != "PASS":
                    for a in f.split("."): new = getattr(new, a)
                if i is None: setattr(par, fld, new)
                else: getattr(par, fld)[i] = new
            else: f(m)
            try:
                new = ast.unparse(ast.fix_missing_locations(t))
                compile(new, "x", "exec")
            except Exception:
                continue
            stmt = n
            text = ast.unparse(n).split("\n")[0][:70]
            yield getattr(n, "lineno", 0), desc + " | " + text, new

def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    nj = 2
    only = None
    for a in sys.argv[1:]:
        if a.startswith("-j"): nj = int(a[2:])
        if a.startswith("--only="): only = re.compile(a[7:])
        if a.startswith("--checks="): CHECKS.insert(0, ("", a[9:].replace(",", " ")))
    q = queue.Queue()
    for f in args:
        f = f.replace("/repo/", "")
        src = open(os.path.join(REPO, f)).read()
        for k, (line, desc, new) in enumerate(mutants(src)):
            if only and not only.search("%d %s" % (line, desc)): continue
            q.put((f, k, line, desc, new))
    total = q.qsize(); print(total, "mutants", flush=True)
    os.makedirs("/tmp/mut", exist_ok=True)
    lock = threading.Lock(); n = [0]
    rep = open("/tmp/mut/report.txt", "a")
    def work(w):
        W = "/tmp/mut/w%d_%d" % (os.getpid(), w)
        shutil.rmtree(W, ignore_errors=True); shutil.copytree(REPO, W, ignore=shutil.ignore_patterns(".git", "doc", "examples", "benchmarks"))
        env = dict(os.environ, VERIF_REPO=W, VERIF_FAST="25", VERIF_JOBS=str(max(1, 8 // nj)), VERIF_HANG_S="60", PYTHONDONTWRITEBYTECODE="1")
        while True:
            try: f, k, line, desc, new = q.get_nowait()
            except queue.Empty: break
            orig = open(os.path.join(REPO, f)).read()
            open(os.path.join(W, f), "w").write(new)
            t0 = time.time(); res = "SURVIVED"
            for pat, checks in CHECKS:
                if pat in f: break
            for c in checks.split():
                if not [x for x in os.listdir(V + "/mc/checks") if x.startswith(c.lower() + "_")]: continue
                p = subprocess.run([V + "/check", c], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=1500)
                if p.returncode: res = "killed " + c; break
            open(os.path.join(W, f), "w").write(orig)
            with lock:
                n[0] += 1
                s = "%s %s:%d %s (%.0fs)" % (res, f, line, desc, time.time() - t0)
                rep.write(s + "\n"); rep.flush()
        shutil.rmtree(W, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(nj)]
    [t.start() for t in ts]; [t.join() for t in ts]

if __name__ == "__main__":
    main()
