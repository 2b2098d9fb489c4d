"""Developer aid: which lines of /repo/awkward0 do the checks execute?  cover.py [cases per sub] [C01,C02..]"""
import sys, os, importlib, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
hit = set()
M = sys.monitoring
M.use_tool_id(3, "cover")
def line(code, n):
    if "/awkward0/" in code.co_filename:
        hit.add((code.co_filename, n))
    return M.DISABLE
M.register_callback(3, M.events.LINE, line)
M.set_events(3, M.events.LINE)
from pbt import engine, runner
N = int(sys.argv[1]) if len(sys.argv) > 1 else 300
ids = sys.argv[2].split(",") if len(sys.argv) > 2 else ["C%02d" % i for i in range(1, 31)]
top = tempfile.mkdtemp(prefix="cover")
for pid in ids:
    mod = runner.load(pid)
    for s in mod.SUBS:
        for i in range(N):
            case = engine.Case(runner.mkrng(1, pid, s.name, i), None, 1.0, os.path.join(top, "x"), {})
            engine.run_case(s.fn, case)
            shutil.rmtree(os.path.join(top, "x"), ignore_errors=True)
shutil.rmtree(top)
def lines(code, out):
    for a, b, l in code.co_lines():
        if l: out.add(l)
    for c in code.co_consts:
        if hasattr(c, "co_code"): lines(c, out)
R = "/repo/awkward0/"
for f in ["__init__.py"] + sorted(x for x in os.listdir(R) if x.endswith(".py") and x not in ("__init__.py", "version.py")) + ["array/" + x for x in sorted(os.listdir(R + "array")) if x.endswith(".py")]:
    src = open(R + f).read()
    want = set()
    lines(compile(src, R + f, "exec"), want)
    miss = sorted(l for l in want if (R + f, l) not in hit)
    print("== %s %d/%d" % (f, len(want) - len(miss), len(want)))
    t = src.split("\n")
    for l in miss:
        s = t[l - 1].strip()
        if not s.startswith(("raise", "def ", "class ", "@", '"""')):
            print("%5d %s" % (l, t[l - 1]))
