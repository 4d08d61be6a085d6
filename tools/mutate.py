"""mutate.py OUT.jsonl [--n N] [--per COUNT] [--seed S] [--files substr,...]: mutation survey of the checks.

Small syntactic changes of quocslib, one at a time, in scratch copies; for each, COUNT scenarios of every property."""
import ast, os, sys, json, random, shutil, subprocess, threading, argparse, queue
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = """optimizationalgorithms/dCRABAlgorithm.py optimizationalgorithms/DirectSearchAlgorithm.py
optimizationalgorithms/OptimizationAlgorithm.py optimizationalgorithms/GRAPEAlgorithm.py optimizationalgorithms/ADAlgorithm.py
Controls.py Optimizer.py communication/AllInOneCommunication.py gradientfreemethods/NelderMead.py gradientfreemethods/CMAES.py
gradientfreemethods/DirectSearchMethod.py stoppingcriteria/StoppingCriteria.py stoppingcriteria/NelderMeadStoppingCriteria.py
stoppingcriteria/CMAESStoppingCriteria.py pulses/BasePulse.py parameters/BaseParameter.py parameters/TimeParameter.py utils/BestDump.py
utils/FilesUpdateFom.py handleexit/HandleExit.py pulses/superparameter/Uniform.py pulses/superparameter/SuperParameterDistribution.py
pulses/basis/ChoppedBasis.py pulses/basis/Fourier.py pulses/basis/PiecewiseBasis.py tools/linearalgebra.py tools/randomgenerator.py
tools/logger.py utils/inputoutput.py utils/dynamicimport.py""".split()
ap = argparse.ArgumentParser()
ap.add_argument("out"); ap.add_argument("--n", type=int, default=10**6); ap.add_argument("--per", type=int, default=100)
ap.add_argument("--seed", type=int, default=1); ap.add_argument("--files", default=""); ap.add_argument("--slots", type=int, default=8)
ap.add_argument("--list", action="store_true"); ap.add_argument("--repo", default="/repo")
a = ap.parse_args()
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is",
       ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}


def mutants(f, src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda ln, c: off[ln - 1] + c
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    seg = lambda n: b[span(n)[0]:span(n)[1]].decode()
    out = []
    skip = set()
    for n in ast.walk(tree):
        s = None
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and any(x in seg(n.value.func) for x in ("logger", "print", "debug_print", "super()")):
            s = n
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            s = n
        if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom)):
            s = n
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("message", "template"):
            s = n
        if isinstance(n, ast.arguments):
            s = n
        if s is not None:
            for m in ast.walk(s):
                skip.add(m)
    funcs = [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]

    def add(n, new, kind):
        x, y = span(n)
        out.append((f, n.lineno, kind, x, y, new))
    for fn in funcs:
        for n in ast.walk(fn):
            if n in skip or n is fn or not hasattr(n, "lineno"):
                continue
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                op = CMP[type(n.ops[0])]
                add(n, "(%s %s %s)" % (seg(n.left), op, seg(n.comparators[0])), "cmp")
            if isinstance(n, ast.BoolOp):
                j = " or " if isinstance(n.op, ast.And) else " and "
                add(n, "(" + j.join("(%s)" % seg(v) for v in n.values) + ")", "bool")
                for k in range(len(n.values)):
                    vs = [v for i, v in enumerate(n.values) if i != k]
                    add(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join("(%s)" % seg(v) for v in vs) + ")", "dropcond%d" % k)
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
                add(n, "(%s)" % seg(n.operand), "unary")
            if isinstance(n, ast.BinOp) and type(n.op) in BIN:
                add(n, "((%s) %s (%s))" % (seg(n.left), BIN[type(n.op)], seg(n.right)), "bin")
            if isinstance(n, ast.Constant) and type(n.value) in (int, float) and not isinstance(n.value, bool):
                add(n, repr(n.value + 1), "const+1")
                if n.value == 1 and type(n.value) is int:
                    add(n, "0", "const-1")
            if isinstance(n, ast.Constant) and isinstance(n.value, bool):
                add(n, repr(not n.value), "bool const")
            if isinstance(n, (ast.If, ast.While)):
                add(n.test, "False", "if False")
                if not isinstance(n, ast.While):
                    add(n.test, "True", "if True")
            if isinstance(n, (ast.Expr, ast.Break, ast.Continue)) or isinstance(n, ast.Assign) and not isinstance(n.targets[0], ast.Name):
                add(n, "pass", "delete")
            if isinstance(n, ast.Return) and n.value is None:
                add(n, "pass", "delete")
            if isinstance(n, ast.AugAssign):
                add(n, "pass", "delete")
                add(n, "%s = %s" % (seg(n.target), seg(n.value)), "aug->assign")
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "astype", "item") and not isinstance(n.func.value, ast.Name):
                add(n, seg(n.func.value), "nocopy")
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("abs", "float", "int", "list", "dict") and len(n.args) == 1:
                add(n, "(%s)" % seg(n.args[0]), "nocall")
            if isinstance(n, ast.Call) and len(n.args) == 2 and seg(n.args[0]) != seg(n.args[1]) and all(isinstance(x, (ast.Name, ast.Attribute)) for x in n.args):
                x, y = pos(n.args[0].lineno, n.args[0].col_offset), pos(n.args[1].end_lineno, n.args[1].end_col_offset)
                out.append((f, n.lineno, "swapargs", x, y, "%s, %s" % (seg(n.args[1]), seg(n.args[0]))))
    seen, res = set(), []
    for m in out:
        if m[2:] not in seen and b[m[3]:m[4]].decode() != m[5]:
            t = b[:m[3]] + m[5].encode() + b[m[4]:]
            try:
                ast.parse(t)
            except SyntaxError:
                continue
            seen.add(m[2:])
            res.append(m)
    return res


ORDER = ["C01", "C16", "C03", "C17", "C07", "C13", "C14", "C04", "C06", "C15", "C05", "C02", "C08", "C09", "C10", "C12", "C11", "C18", "C19"]
FIRST = {"BestDump": ["C02", "C11"], "FilesUpdate": ["C12"], "NelderMead": ["C18", "C17", "C14"], "CMAES": ["C18", "C17"], "Stopping": ["C18", "C14", "C03", "C05"],
         "AllInOne": ["C13", "C11"], "randomgen": ["C10"], "logger": ["C11"], "BasePulse": ["C15", "C16"], "inputoutput": ["C10"], "GRAPE": ["C19"], "ADAlg": ["C19"]}
src0 = os.path.join(a.repo, "src/quocslib")
ms = []
for f in FILES:
    if a.files and not any(x in f for x in a.files.split(",")):
        continue
    ms += mutants(f, open(os.path.join(src0, f)).read())
random.Random(a.seed).shuffle(ms)
done = set()
if os.path.exists(a.out):
    for l in open(a.out):
        d = json.loads(l)
        done.add((d["f"], d["line"], d["kind"], d["x"], d["new"]))
ms = [m for m in ms if (m[0], m[1], m[2], m[3], m[5]) not in done][:a.n]
print(len(ms), "mutants")
if a.list:
    sys.exit()
q = queue.Queue()
for m in ms:
    q.put(m)
lock = threading.Lock()


def slot(k):
    d = "/tmp/mut/%d" % k
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/mut", exist_ok=True)
    shutil.copytree(a.repo, d, symlinks=True, ignore=shutil.ignore_patterns(".git"))
    while True:
        try:
            f, line, kind, x, y, new = q.get_nowait()
        except queue.Empty:
            break
        p = os.path.join(d, "src/quocslib", f)
        b = open(os.path.join(src0, f), "rb").read()
        open(p, "wb").write(b[:x] + new.encode() + b[y:])
        order = [z for key, v in FIRST.items() if key in f for z in v]
        order += [z for z in ORDER if z not in order]
        env = dict(os.environ, VERIF_REPO=d, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        try:
            o = subprocess.run(["/opt/venv/bin/python", os.path.join(HERE, "tools/mut1.py"), str(a.per)] + order, env=env, cwd=HERE,
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=3000).stdout.decode().strip().splitlines()
            res = json.loads(o[-1]) if o else {"killed": "none-output"}
        except Exception as e:
            res = {"killed": "tool", "msg": repr(e)[:200]}
        open(p, "wb").write(b)
        row = {"f": f, "line": line, "kind": kind, "x": x, "old": b[x:y].decode()[:100], "new": new[:100] if len(new) < 100 else new,
               **res}
        with lock:
            with open(a.out, "a") as g:
                g.write(json.dumps(row) + "\n")
    shutil.rmtree(d, ignore_errors=True)


ts = [threading.Thread(target=slot, args=(k,)) for k in range(a.slots)]
[t.start() for t in ts]
[t.join() for t in ts]
