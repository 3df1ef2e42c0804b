"""mutate.py [--seed N] [--count N] [--files solar.py,..] [--log FILE]: single-edit mutants of the package in a scratch copy.  Those that pass
the stable tests are given to the checks, those for the file first; the log says which check reports each, or SURVIVES.  Not a check."""
import sys, os, ast, random, subprocess, shutil, tempfile, json, time, glob
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST = {"solar.py": ["C29", "C11", "C08", "C07", "C09", "C06", "C10", "C13", "C24", "C28", "C30"], "solartime.py": ["C03", "C01", "C02", "C29", "C11"], "util.py": ["C29", "C17", "C14", "C16", "C30", "C28"],
         "radiation.py": ["C15", "C29", "C28"], "elevation.py": ["C23", "C29"], "rest.py": ["C26", "C29"], "simulate.py": ["C22", "C21"], "numeric.py": ["C18", "C19", "C28", "C20", "C11"], "tzinfo_check.py": ["C05", "C29", "C20"],
         "constants.py": ["C06", "C10", "C27", "C08", "C11"], "__init__.py": ["C18", "C30"], "get_delta_t": ["C25"]}
ALL = ["C%02d" % i for i in range(1, 38)]
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Mod: "*", ast.Pow: "*", ast.FloorDiv: "/"}
FUN = {"sin": "cos", "cos": "sin", "tan": "sin", "atan2": "hypot", "asin": "acos", "acos": "asin", "radians": "degrees", "degrees": "radians", "exp": "expm1", "log": "log1p", "floor": "ceil", "round": "int", "min": "max", "max": "min", "log10": "log"}

def seg(src, n):
    ls = src.split("\n")
    off = lambda l, c: sum(len(x) + 1 for x in ls[:l - 1]) + len(ls[l - 1].encode()[:c].decode())
    return off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)
def mutants(src):
    "(start, end, replacement, line)"
    tree = ast.parse(src)
    out = []
    docs = {id(n.body[0].value) for n in ast.walk(tree) if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant)}
    def add(n, text): a, b = seg(src, n); out.append((a, b, text, n.lineno))
    def between(l, r, text):
        a, b = seg(src, l)[1], seg(src, r)[0]
        gap = src[a:b]
        return a, b, gap
    for n in ast.walk(tree):
        if id(n) in docs: continue
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            v = n.value
            add(n, repr(v + 1)); add(n, repr(v * 1.0001 if v else 1e-4)); add(n, "(%r)" % -v if v else "1")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool): add(n, repr(not n.value))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b, gap = between(n.left, n.comparators[0], "")
            op = CMP[type(n.ops[0])]
            old = {"<=": "<", "<": "<=", ">=": ">", ">": ">=", "!=": "==", "==": "!=", "is not": "is", "is": "is not", "not in": "in", "in": "not in"}[op]
            if old in gap: out.append((a, b, gap.replace(old, op, 1), n.lineno))
            add(n, "True"); add(n, "False")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, b, gap = between(n.left, n.right, "")
            old = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Mod: "%", ast.Pow: "**", ast.FloorDiv: "//"}[type(n.op)]
            if gap.count(old) == 1 or old in ("**", "//"): out.append((a, b, gap.replace(old, BIN[type(n.op)], 1), n.lineno))
            x, y = src[slice(*seg(src, n.left))], src[slice(*seg(src, n.right))]
            add(n, "(%s)" % x)
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in FUN:
                a, b = seg(src, f); out.append((a, b, src[a:b][:-len(f.attr)] + FUN[f.attr], n.lineno))
            if len(n.args) == 1 and not n.keywords: add(n, src[slice(*seg(src, n.args[0]))])
            if len(n.args) >= 2:
                x, y = n.args[:2]; (a, b), (c, d) = seg(src, x), seg(src, y)
                if src[a:b] != src[c:d]: out.append((a, d, src[c:d] + src[b:c] + src[a:b], n.lineno))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)): add(n, src[slice(*seg(src, n.operand))])
        elif isinstance(n, ast.BoolOp):
            for v in n.values: add(n, src[slice(*seg(src, v))])
        elif isinstance(n, ast.IfExp): add(n, src[slice(*seg(src, n.body))]); add(n, src[slice(*seg(src, n.orelse))])
        elif isinstance(n, (ast.FunctionDef,)):
            for d in n.decorator_list:
                a, b = seg(src, d); a = src.rindex("@", 0, a); out.append((a, b, "", d.lineno))
        elif isinstance(n, (ast.Raise, ast.AugAssign)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call): add(n, "pass")
    return out

def main():
    opt = dict(zip(sys.argv[1::2], sys.argv[2::2]))
    R = random.Random(int(opt.get("--seed", 1)))
    files = opt.get("--files", ",".join(k for k in FIRST)).split(",")
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    top = tempfile.mkdtemp(prefix="vmut")
    log = open(opt.get("--log", os.path.join("/tmp", "mutate.log")), "a")
    try:
        repo = os.path.join(top, "repo")
        shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns(".git", "__pycache__", "debian"))
        pool = {}
        for f in files:
            p = ("util/" if f == "get_delta_t" else "pysolar/") + f
            with open(os.path.join(repo, p), newline="") as h: src = h.read()
            ms = [m for m in mutants(src.replace("\r\n", "\n"))]
            if f == "constants.py": R.shuffle(ms); ms = ms[:60]
            if f == "solartime.py":
                R.shuffle(ms); tab = [m for m in ms if m[3] < 700 and src.count("\n") > 700 and not src.split("\n")[m[3] - 1].lstrip().startswith(("if", "return", "for"))]; ms = [m for m in ms if m not in set(tab[40:])]
            pool[p] = (src, ms)
        todo = [(p, m) for p in pool for m in pool[p][1]]
        R.shuffle(todo)
        print(len(todo), "mutants", file=log, flush=True)
        n = 0
        for p, (a, b, text, line) in todo:
            if n >= int(opt.get("--count", 100)): break
            src = pool[p][0]; crlf = "\r\n" in src
            base = src.replace("\r\n", "\n")
            if base[a:b] == text: continue
            new = base[:a] + text + base[b:]
            if crlf: new = new.replace("\n", "\r\n")
            path = os.path.join(repo, p)
            with open(path, "w", newline="") as h: h.write(new)
            try:
                try: compile(new, p, "exec")
                except SyntaxError: continue
                rep = os.path.join(top, "junit.xml")
                if os.path.exists(rep): os.remove(rep)
                env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", TZ="UTC", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
                try: subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--junitxml=" + rep], cwd=repo, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
                except subprocess.TimeoutExpired: continue
                try: x = open(rep).read()
                except OSError: continue
                if "<failure" in x or "<error" in x: continue
                n += 1
                f = os.path.basename(p)
                what = "%s:%d %r -> %r" % (p, line, base[a:b][:70], text[:70])
                t0 = time.time(); found = None
                for c in FIRST[f] + [c for c in ALL if c not in FIRST[f]]:
                    try: r = subprocess.run([sys.executable, os.path.join(VERIF, "harness/check.py"), c], env=dict(os.environ, VERIF_REPO=repo), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
                    except subprocess.TimeoutExpired: found = c + " timeout"; break
                    if r.returncode == 1 and "VIOLATION property=" + c in r.stdout: found = c; break
                    if r.returncode != 0: found = c + " rc=%d" % r.returncode; break
                print("%s  %s  (%.0f s)" % (found or "SURVIVES", what, time.time() - t0), file=log, flush=True)
            finally:
                with open(path, "w", newline="") as h: h.write(src)
        print("done", file=log, flush=True)
    finally: shutil.rmtree(top, ignore_errors=True)
main()
