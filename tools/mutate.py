"""Mutation sweep (development aid, not a check): which small changes of hadar pass the stable tests and every check?
   mutate.py OUT.jsonl [--files a,b] [--part i/n] [--limit N]
Works on scratch copies under /tmp, never on /repo."""
import warnings; warnings.simplefilter("ignore")
import ast, hashlib, json, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
LP = ["C01", "C02", "C03", "C04", "C05", "C06", "C07"]
CHECKS = {
    "hadar/optimizer/lp/optimizer.py": LP, "hadar/optimizer/lp/mapper.py": LP, "hadar/optimizer/lp/domain.py": LP,
    "hadar/optimizer/domain/input.py": ["C09", "C10", "C11", "C08"] + LP, "hadar/optimizer/domain/numeric.py": ["C08", "C09", "C02", "C11", "C13"],
    "hadar/optimizer/domain/output.py": ["C12", "C02", "C13"], "hadar/optimizer/utils.py": ["C11", "C12", "C02"],
    "hadar/optimizer/optimizer.py": ["C01", "C24"], "hadar/optimizer/remote/optimizer.py": ["C24"],
    "hadar/analyzer/result.py": ["C13", "C14", "C15", "C16", "C17", "C18"],
    "hadar/workflow/pipeline.py": ["C19", "C20", "C21", "C22", "C23"], "hadar/workflow/shuffler.py": ["C23"],
    "hadar/viewer/abc.py": ["C25", "C26", "C27"], "hadar/viewer/html.py": ["C25", "C26", "C27"],
}
CMP = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.In: ["not in"], ast.NotIn: ["in"],
       ast.Is: ["is not"], ast.IsNot: ["is"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}
PAIRS = [("used", "avail"), ("given", "asked"), ("src", "dest"), ("flow_in", "flow_out"), ("var_flow_in", "var_flow_out"), ("scn", "t"), ("i_scn", "t"),
         ("network", "node"), ("horizon", "nb_scn"), ("lower", "upper"), ("inputs", "outputs"), ("quantity", "cost"), ("max_flow_in", "max_flow_out"),
         ("productions", "consumptions"), ("production", "consumption"), ("min", "max"), ("index", "columns"), ("capacity", "init_capacity"),
         ("downtime_min", "downtime_max"), ("prod", "cons"), ("name_network", "name_node"), ("i", "j"), ("start", "stop"), ("any", "all"), ("cost", "max"),
         ("src_converter", "dest_converter"), ("modeler", "solver"), ("sources", "dest"), ("x", "y"), ("lon", "lat")]
SWAP = {}
for a, b in PAIRS:
    SWAP.setdefault(a, []).append(b)
    SWAP.setdefault(b, []).append(a)


class Gen(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.lines = src.splitlines(keepends=True)
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()))
        self.b = src.encode()
        self.out = []
        self.fn = []

    def span(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, z = self.span(n)
        return self.b[a:z].decode()

    def put(self, n, new, kind):
        a, z = self.span(n)
        if self.b[a:z].decode() != new:
            self.out.append((a, z, new, kind, n.lineno, ".".join(self.fn)))

    def generic_visit(self, n):
        super().generic_visit(n)

    def visit_FunctionDef(self, n):
        self.fn.append(n.name)
        for d in n.args.defaults:
            self.visit(d)
        body = n.body
        if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            body = body[1:]
        for s in body:
            self.visit(s)
        self.fn.pop()

    def visit_ClassDef(self, n):
        self.fn.append(n.name)
        for s in n.body:
            if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                self.visit(s)
        self.fn.pop()

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            l, r = self.text(n.left), self.text(n.comparators[0])
            for o in CMP.get(type(n.ops[0]), []):
                self.put(n, "%s %s %s" % (l, o, r), "cmp")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if type(n.op) in BIN:
            self.put(n, "%s %s %s" % (self.text(n.left), BIN[type(n.op)], self.text(n.right)), "bin")
        if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
            self.put(n, "(%s)" % self.text(n.left), "left")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        op = " or " if isinstance(n.op, ast.And) else " and "
        self.put(n, "(%s)" % op.join("(%s)" % self.text(v) for v in n.values), "bool")
        for v in n.values:
            self.put(n, "(%s)" % self.text(v), "bool1")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.Not, ast.USub)):
            self.put(n, "(%s)" % self.text(n.operand), "unary")
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.put(n, str(not v), "const")
        elif isinstance(v, (int, float)):
            self.put(n, repr(v + 1), "const")
            if v != 0:
                self.put(n, repr(v - 1), "const")
        elif isinstance(v, str) and v in SWAP:
            for o in SWAP[v]:
                self.put(n, repr(o), "str")

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load):
            for o in SWAP.get(n.id, []):
                self.put(n, o, "name")

    def visit_Attribute(self, n):
        for o in SWAP.get(n.attr, []):
            self.put(n, "%s.%s" % (self.text(n.value), o), "attr")
        self.generic_visit(n)

    def visit_Call(self, n):
        if len(n.args) >= 2:
            a, b = n.args[0], n.args[1]
            s = self.text(n)
            base = self.span(n)[0]
            (a0, a1), (b0, b1) = self.span(a), self.span(b)
            raw = self.b
            self.put(n, (raw[base:a0] + raw[b0:b1] + raw[a1:b0] + raw[a0:a1] + raw[b1:self.span(n)[1]]).decode(), "swapargs")
        ks = [k for k in n.keywords if k.arg]
        for k1, k2 in zip(ks, ks[1:]):
            base, end = self.span(n)
            (a0, a1), (b0, b1) = self.span(k1.value), self.span(k2.value)
            raw = self.b
            if raw[a0:a1] != raw[b0:b1]:
                self.put(n, (raw[base:a0] + raw[b0:b1] + raw[a1:b0] + raw[a0:a1] + raw[b1:end]).decode(), "swapkw")
        f = self.text(n.func)
        if f in ("deepcopy", "copy.deepcopy", "np.array", "list", "dict", "sorted", "float", "int") and len(n.args) == 1:
            self.put(n, "(%s)" % self.text(n.args[0]), "unwrap")
        if f.endswith(".copy") and not n.args:
            self.put(n, self.text(n.func.value), "unwrap")
        self.generic_visit(n)

    def visit_Subscript(self, n):
        if isinstance(n.slice, ast.Tuple) and len(n.slice.elts) == 2:
            a, b = n.slice.elts
            self.put(n, "%s[%s, %s]" % (self.text(n.value), self.text(b), self.text(a)), "swapidx")
        self.generic_visit(n)

    def stmts(self, body):
        for s in body:
            if isinstance(s, (ast.AugAssign, ast.Assign)) or (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call)):
                if isinstance(s, ast.Expr) and ("logger" in self.text(s)):
                    continue
                self.put(s, "pass", "del")

    def visit_If(self, n):
        self.put(n.test, "True", "if")
        self.put(n.test, "False", "if")
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.put(n, "(%s)" % self.text(n.body), "ifexp")
        self.put(n, "(%s)" % self.text(n.orelse), "ifexp")
        self.generic_visit(n)

    def loop(self, it):
        t = self.text(it)
        for s in ("[:-1]", "[1:]", "[:3]", "[::-1]"):
            self.put(it, "list(%s)%s" % (t, s), "loop" + s)

    def visit_For(self, n):
        self.loop(n.iter)
        self.generic_visit(n)

    def visit_comprehension(self, n):
        self.loop(n.iter)
        for c in n.ifs:
            self.put(c, "True", "compif")
        self.generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Call) and "logger" in self.text(n):
            return
        self.generic_visit(n)

    def visit(self, n):
        for f in ("body", "orelse"):
            b = getattr(n, f, None)
            if isinstance(b, list) and not isinstance(n, (ast.Module, ast.ClassDef)):
                self.stmts(b)
        return super().visit(n)


def mutants(files):
    for f in files:
        src = open(os.path.join(REPO, f)).read()
        g = Gen(src)
        g.visit(ast.parse(src))
        seen = set()
        for a, z, new, kind, line, fn in g.out:
            b = g.b[:a] + new.encode() + g.b[z:]
            h = hashlib.sha1(b).hexdigest()[:10]
            if h in seen or b == g.b:
                continue
            seen.add(h)
            try:
                compile(b, f, "exec")
            except SyntaxError:
                continue
            yield dict(id=h, file=f, kind=kind, line=line, fn=fn, old=g.b[a:z].decode()[:160], new=new[:160], src=b.decode())


def run(cmd, cwd, timeout, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1", HADAR_LOG="ERROR",
             NPY_DISABLE_CPU_FEATURES="AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL", **(env or {}))
    try:
        p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, start_new_session=True)
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return 124, "timeout"


def one(m, slot):
    d = "/tmp/mut/slot%d" % slot
    f = os.path.join(d, m["file"])
    orig = open(os.path.join(REPO, m["file"])).read()
    open(f, "w").write(m["src"])
    r = dict(m)
    r.pop("src")
    try:
        tests = ["tests", "--ignore=tests/optimizer/remote"]
        if m["file"].endswith("remote/optimizer.py"):
            tests = ["tests/optimizer/remote"]
        rc, out = run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60", "-W", "ignore"] + tests, d, 120)
        if rc != 0:
            r["tests"] = "killed"
            return r
        r["tests"] = "pass"
        r["checks"] = {}
        for c in CHECKS[m["file"]]:
            rc, out = run([PY, VERIF + "/run.py", c, "--procs", "2"], VERIF, 900, dict(HADAR_REPO=d, VERIF_EVIDENCE="/tmp/mut/ev%d" % slot))
            r["checks"][c] = rc
            if rc == 1:
                r["caught"] = c
                r["why"] = out.strip().splitlines()[-2][:300]
                break
            if rc != 0:
                r.setdefault("odd", []).append((c, rc, out[-300:]))
            if "0 inconclusive, 0 spurious" not in out:
                r.setdefault("incon", []).append((c, out.strip().splitlines()[-1][-60:]))
        return r
    finally:
        open(f, "w").write(orig)


def main():
    out = sys.argv[1]
    arg = lambda n, d: sys.argv[sys.argv.index(n) + 1] if n in sys.argv else d
    files = [x for x in CHECKS if any(y in x for y in arg("--files", "").split(","))]
    ms = list(mutants(files))
    only = arg("--ids", "")
    if only:
        ms = [m for m in ms if m["id"] in only.split(",")]
    done = set()
    if os.path.exists(out) and not only:
        done = {json.loads(l)["id"] for l in open(out)}
    random.Random(1).shuffle(ms)
    ms = [m for m in ms if m["id"] not in done][: int(arg("--limit", "100000"))]
    if "--count" in sys.argv:
        print(len(ms))
        return
    S = int(arg("--slots", "7"))
    os.makedirs("/tmp/mut", exist_ok=True)
    for i in range(S):
        shutil.rmtree("/tmp/mut/slot%d" % i, ignore_errors=True)
        subprocess.run(["cp", "-a", REPO, "/tmp/mut/slot%d" % i], check=True)
    import queue, threading
    q = queue.Queue()
    for m in ms:
        q.put(m)
    lock = threading.Lock()

    def loop(i):
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                return
            try:
                r = one(m, i)
            except Exception as ex:
                r = dict(id=m["id"], error=repr(ex))
            with lock:
                open(out, "a").write(json.dumps(r) + "\n")

    ths = [threading.Thread(target=loop, args=(i,)) for i in range(S)]
    [t.start() for t in ths]
    [t.join() for t in ths]
    for i in range(S):
        shutil.rmtree("/tmp/mut/slot%d" % i, ignore_errors=True)


main()
