#!/usr/bin/env python3
"""Developer aid: mutation campaign.   mutate.py OUT.jsonl N SEED [WORKERS] [file-substring]
Random small changes to /repo/awkward0 in scratch copies; those that pass the stable tests are given to the quick checks of the
properties whose cases execute the changed lines, until one of them reports a violation.  OUT.jsonl gets one line per mutant."""
import ast, json, os, random, shutil, subprocess, sys, tempfile, multiprocessing, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
COV = "/tmp/mut/cov.json"
SRC = os.environ.get("MUT_SRC", "/repo")
IDS = ["C%02d" % i for i in range(1, 31)]


def cover_one(pid):
    code = """
import sys, os, importlib, tempfile, shutil, json
sys.path.insert(0, %r)
hit = {}
M = sys.monitoring
M.use_tool_id(3, "cover")
def line(code, n):
    if "/awkward0/" in code.co_filename:
        hit[code.co_filename.split("/awkward0/")[1] + ":" + str(n)] = 1
    return M.DISABLE
M.register_callback(3, M.events.LINE, line)
M.set_events(3, M.events.LINE)
import awkward0
base = dict(hit); hit.clear()
from pbt import engine, runner
top = tempfile.mkdtemp(prefix="cover")
mod = runner.load(%r)
for s in mod.SUBS:
    for i in range(150):
        case = engine.Case(runner.mkrng(1, %r, s.name, i), None, 1.0, os.path.join(top, "x"), {})
        engine.run_case(s.fn, case)
        shutil.rmtree(os.path.join(top, "x"), ignore_errors=True)
shutil.rmtree(top)
json.dump(sorted(hit), open("/tmp/mut/cov.%%s.json" %% %r, "w"))
""" % (HERE, pid, pid, pid)
    subprocess.run([PY, "-W", "ignore", "-c", code], env=dict(os.environ, VERIF_REPO=SRC, PYTHONPATH=SRC + ":" + HERE, OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1"), cwd="/tmp")


def coverage():
    if not os.path.exists(COV):
        os.makedirs("/tmp/mut", exist_ok=True)
        with multiprocessing.Pool(8) as p:
            p.map(cover_one, IDS)
        cov = {}
        for pid in IDS:
            for k in json.load(open("/tmp/mut/cov.%s.json" % pid)):
                cov.setdefault(k, []).append(pid)
        json.dump(cov, open(COV, "w"))
    return json.load(open(COV))


SWAP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.Div: "*", ast.FloorDiv: "*", ast.BitAnd: "|", ast.BitOr: "&", ast.Mod: "*", ast.LShift: ">>", ast.RShift: "<<", ast.Pow: "*"}


class Find(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.out, self.off = src, [], [0]
        self.b = src.encode()
        for l in self.b.split(b"\n"):
            self.off.append(self.off[-1] + len(l) + 1)
        self.fn = []

    def pos(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.pos(n)
        return self.b[a:b].decode()

    def add(self, node, new, kind):
        a, b = self.pos(node)
        self.out.append((kind, a, b, new, node.lineno, ".".join(self.fn)))

    def visit_Raise(self, n):
        pass

    def visit_FunctionDef(self, n):
        self.fn.append(n.name)
        for d in n.body:
            self.visit(d)
        self.fn.pop()

    def visit_ClassDef(self, n):
        self.fn.append(n.name)
        for d in n.body:
            self.visit(d)
        self.fn.pop()

    def generic_visit(self, n):
        for f in ("body", "orelse"):
            for s in getattr(n, f, []) if isinstance(getattr(n, f, None), list) else []:
                pass
        super(Find, self).generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        self.add(n, "pass", "dropstmt")
        self.generic_visit(n)

    def visit_Assign(self, n):
        if any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in n.targets):
            self.add(n, "pass", "dropassign")
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.add(n, "pass", "dropaug")
        self.generic_visit(n)

    def visit_If(self, n):
        if len(n.body) == 1 and isinstance(n.body[0], ast.Raise):
            self.add(n.test, "False", "noguard")
        else:
            self.add(n.test, "not (%s)" % self.text(n.test), "negif")
            self.add(n.test, "False", "iffalse")
            self.add(n.test, "True", "iftrue")
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n.test, "not (%s)" % self.text(n.test), "negif")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        op = " or " if isinstance(n.op, ast.And) else " and "
        self.add(n, "(" + op.join("(%s)" % self.text(v) for v in n.values) + ")", "andor")
        for i in range(len(n.values)):
            op2 = " and " if isinstance(n.op, ast.And) else " or "
            self.add(n, "(" + op2.join("(%s)" % self.text(v) for j, v in enumerate(n.values) if j != i) + ")", "dropterm")
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1 and type(n.ops[0]) in SWAP:
            self.add(n, "(%s %s %s)" % (self.text(n.left), SWAP[type(n.ops[0])], self.text(n.comparators[0])), "compare")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if isinstance(n.op, ast.Mod) and isinstance(n.left, (ast.Constant, ast.JoinedStr)):
            return
        if type(n.op) in BIN:
            self.add(n, "(%s %s %s)" % (self.text(n.left), BIN[type(n.op)], self.text(n.right)), "binop")
        if isinstance(n.op, (ast.Add, ast.Sub)):
            self.add(n, self.text(n.left), "dropright")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        self.add(n, "(%s)" % self.text(n.operand), "unary")
        self.generic_visit(n)

    def visit_Constant(self, n):
        if n.value is True or n.value is False:
            self.add(n, repr(not n.value), "bool")
        elif type(n.value) is int:
            self.add(n, str(n.value + 1), "const")
            if n.value != 0:
                self.add(n, str(n.value - 1), "const")

    def visit_Slice(self, n):
        lo, up, st = [None if x is None else self.text(x) for x in (n.lower, n.upper, n.step)]
        if lo:
            self.add(n, ":" + (up or "") + (":" + st if st else ""), "slice")
        if up:
            self.add(n, (lo or "") + ":" + (":" + st if st else ""), "slice")
        self.generic_visit(n)

    def visit_Call(self, n):
        t = self.text(n.func)
        if t.endswith((".copy", ".deepcopy")) and not n.args:
            self.add(n, self.text(n.func.value), "nocopy")
        if n.keywords:
            for i, k in enumerate(n.keywords):
                if k.arg and k.arg != "dtype":
                    parts = [self.text(a) for a in n.args] + ["%s=%s" % (q.arg, self.text(q.value)) if q.arg else "**" + self.text(q.value) for q in n.keywords if q is not k]
                    self.add(n, "%s(%s)" % (t, ", ".join(parts)), "dropkw")
        if len(n.args) == 2 and t.split(".")[-1] not in ("isinstance", "issubclass", "getattr", "hasattr") and not n.keywords:
            self.add(n, "%s(%s, %s)" % (t, self.text(n.args[1]), self.text(n.args[0])), "swapargs")
        if t.split(".")[-1] in ("max", "min", "any", "all", "minimum", "maximum", "argmin", "argmax", "logical_and", "logical_or", "cumsum", "ones", "zeros"):
            last = t.split(".")[-1]
            other = {"max": "min", "min": "max", "any": "all", "all": "any", "minimum": "maximum", "maximum": "minimum", "argmin": "argmax", "argmax": "argmin", "logical_and": "logical_or", "logical_or": "logical_and", "ones": "zeros", "zeros": "ones", "cumsum": "array"}[last]
            a, b = self.pos(n.func)
            self.out.append(("fn", a, b, t[:-len(last)] + other, n.lineno, ".".join(self.fn)))
        self.generic_visit(n)

    def visit_Return(self, n):
        self.generic_visit(n)


def mutants(f):
    src = open(os.path.join(SRC, "awkward0", f)).read()
    v = Find(src)
    v.visit(ast.parse(src))
    return src, v.out


def sh(cmd, cwd, timeout=600, **env):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", **env)
    try:
        return subprocess.run(cmd, cwd=cwd, env=e, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None


def tests_pass(d, base):
    x = os.path.join(os.path.dirname(d), "junit.xml")
    r = sh("timeout 120 %s -m pytest -q -x -p no:cacheprovider --timeout=60 -W ignore --tb=no --junitxml=%s %s" % (PY, x, " ".join(base)), d, timeout=200, PYTHONPATH=d)
    return r is not None and r.returncode == 0


def job(arg):
    k, f, m, props, base = arg
    kind, a, b, new, line, fn = m
    top = tempfile.mkdtemp(prefix="mut")
    d = os.path.join(top, "repo")
    rec = {"file": f, "line": line, "fn": fn, "kind": kind, "new": new, "a": a, "b": b}
    t0 = time.time()
    try:
        shutil.copytree(SRC, d, symlinks=True, ignore=shutil.ignore_patterns(".git", "docs", "binder"))
        p = os.path.join(d, "awkward0", f)
        s = open(p, "rb").read()
        s2 = s[:a] + new.encode() + s[b:]
        try:
            compile(s2, p, "exec")
        except SyntaxError:
            rec["result"] = "syntax"
            return rec
        open(p, "wb").write(s2)
        i = s[:a].count(b"\n")
        j = s[:b].count(b"\n")
        rec["old_line"] = "\n".join(s.decode().split("\n")[i:j + 1])
        dn = s2[:a + len(new.encode())].count(b"\n")
        rec["new_line"] = "\n".join(s2.decode().split("\n")[i:dn + 1])
        if not tests_pass(d, base):
            rec["result"] = "tests"
            return rec
        rec["result"] = "SURVIVED"
        rec["props"] = props
        for pid in props:
            r = sh("timeout 300 ./run.sh %s quick" % pid, HERE, VERIF_REPO=d, VERIF_SEED="1", VERIF_TIER="quick", VERIF_EVIDENCE_DIR=top, VERIF_WORKERS="1", VERIF_SCALE="0.3", VERIF_CAP="60", VERIF_NOSHRINK="1", timeout=330)
            if r is None or "VIOLATION" in r.stdout or r.returncode != 0:
                rec["result"] = "killed" if r is not None and "VIOLATION" in r.stdout else "killed?"
                rec["by"] = pid
                break
        return rec
    finally:
        rec["time"] = round(time.time() - t0, 1)
        shutil.rmtree(top)


def main():
    out, n, seed = sys.argv[1], int(sys.argv[2]), sys.argv[3]
    workers = int(sys.argv[4]) if len(sys.argv) > 4 else 6
    sub = sys.argv[5] if len(sys.argv) > 5 else ""
    cov = coverage()
    base = ["tests"]
    R = SRC + "/awkward0/"
    files = [x for x in sorted(os.listdir(R)) if x.endswith(".py") and x not in ("version.py", "__init__.py")] + ["array/" + x for x in sorted(os.listdir(R + "array")) if x.endswith(".py") and not x.startswith("__")]
    jobs = []
    for f in files:
        if sub not in f:
            continue
        src, ms = mutants(f)
        for m in ms:
            props = cov.get("%s:%d" % (f, m[4]), [])
            if not props:
                continue
            # rarest first: the properties that fewest lines share are the most specific to this line
            jobs.append((f, m, props))
    rng = random.Random(seed)
    rng.shuffle(jobs)
    size = {p: sum(1 for v in cov.values() if p in v) for p in IDS}
    jobs = [(k, f, m, sorted(ps, key=lambda p: size[p]), base) for k, (f, m, ps) in enumerate(jobs[:n])]
    print(len(jobs), "mutants", flush=True)
    done = {}
    with multiprocessing.Pool(workers, maxtasksperchild=20) as p, open(out, "a") as o:
        for rec in p.imap_unordered(job, jobs):
            done[rec["result"]] = done.get(rec["result"], 0) + 1
            o.write(json.dumps(rec) + "\n")
            o.flush()
            print(done, flush=True)


if __name__ == "__main__":
    main()
