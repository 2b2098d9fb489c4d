#!/usr/bin/env python3
"""Developer aid: turn a bug specification (a Python file with PROPERTY, NEEDS, BREAKS, EDITS, DEMO) into seeded/<name>/,
after confirming in a scratch copy of /repo that it builds, passes the stable tests and that its demo tells the two trees apart;
then run the property's quick check against the scratch copy.     seed.py spec.py...   or   seed.py --check [name...]"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEMO_SH = """#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore "$here/demo.py"
"""


def sh(cmd, cwd, **env):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", **env)
    return subprocess.run(cmd, cwd=cwd, env=e, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def tests(d):
    x = os.path.join(d, "..", "junit.xml")
    sh("%s -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -W ignore --tb=no --junitxml=%s tests" % (PY, x), d, PYTHONPATH=d)
    import xml.etree.ElementTree as ET
    ok = set()
    for c in ET.parse(x).iter("testcase"):
        if not [k for k in c if k.tag in ("failure", "error", "skipped")]:
            ok.add(c.get("classname") + "::" + c.get("name"))
    return ok


def scratch():
    top = tempfile.mkdtemp(prefix="seed")
    d = os.path.join(top, "repo")
    shutil.copytree("/repo", d, symlinks=True)
    return top, d


def check(prop, d, seed="1"):
    r = sh("./run.sh %s quick" % prop, HERE, VERIF_REPO=d, VERIF_SEED=seed, VERIF_TIER="quick", VERIF_EVIDENCE_DIR="/tmp")
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    return r.returncode, v, r.stdout


def record(name, rc, v):
    p = os.path.join(HERE, "tools", "seed_results.json")
    r = json.load(open(p)) if os.path.exists(p) else {}
    r[name] = "`%s`" % os.path.basename(v[0].split("replay=")[1]).rsplit("-", 2)[0].replace("-", ".") if rc == 1 and v else "**missed**"
    json.dump(r, open(p, "w"), indent=0, sort_keys=True)


def make(spec):
    name = os.path.splitext(os.path.basename(spec))[0]
    ns = {}
    exec(open(spec).read(), ns)
    top, d = scratch()
    try:
        for f, old, new in ns["EDITS"]:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(name, "EDIT matches", s.count(old), "times:", old[:80]); return
            open(p, "w").write(s.replace(old, new))
        patch = subprocess.run("git diff", cwd=d, shell=True, stdout=subprocess.PIPE, text=True).stdout
        out = os.path.join(top, name)
        os.mkdir(out)
        open(os.path.join(out, "patch.diff"), "w").write(patch)
        open(os.path.join(out, "demo.py"), "w").write(ns["DEMO"].lstrip())
        open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        clean = sh("bash %s/demo.sh" % out, "/repo")
        bad = sh("bash %s/demo.sh" % out, d)
        if clean.returncode != 0:
            print(name, "DEMO FAILS CLEAN:", clean.stdout[-1500:]); return
        if bad.returncode == 0:
            print(name, "DEMO PASSES WITH BUG"); return
        blame = set()
        for f in set(e[0] for e in ns["EDITS"]):
            r = subprocess.run("git blame -s HEAD -- %s" % f, cwd="/repo", shell=True, stdout=subprocess.PIPE, text=True).stdout.splitlines()
            o = open(os.path.join("/repo", f)).read().splitlines()
            n = open(os.path.join(d, f)).read().splitlines()
            import difflib
            for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, o, n, autojunk=False).get_opcodes():
                if tag != "equal":
                    blame |= set(l.split()[0] for l in r[i1:i2])
        base = sh("git rev-list --max-parents=0 HEAD", "/repo").stdout.strip()
        if not any(base.startswith(b.lstrip("^")) for b in blame):
            print(name, "WARNING: changes no original line", blame)
        stable = json.load(open("/opt/vp/BASELINE.json"))
        a, b = tests("/repo") if False else None, tests(d)
        import pickle
        cachef = "/tmp/seed_clean_tests.json"
        head = sh("git rev-parse HEAD", "/repo").stdout.strip()
        c = json.load(open(cachef)) if os.path.exists(cachef) else {}
        if c.get("head") != head:
            top2, d2 = scratch()
            c = {"head": head, "ok": sorted(tests(d2))}
            shutil.rmtree(top2)
            json.dump(c, open(cachef, "w"))
        lost = set(c["ok"]) - b
        if lost:
            print(name, "BREAKS TESTS", sorted(lost)[:5]); return
        dst = os.path.join(HERE, "seeded", name)
        if os.path.exists(dst):
            shutil.rmtree(dst)
        shutil.copytree(out, dst)
        rc, v, log = check(ns["PROPERTY"], d)
        record(name, rc, v)
        print(name, ns["PROPERTY"], "kept;", "CAUGHT" if rc == 1 and v else "MISSED rc=%d" % rc, v[:1])
        if rc not in (0, 1):
            print(log[-2000:])
    finally:
        shutil.rmtree(top)


def recheck(names):
    for n in names or sorted(os.listdir(os.path.join(HERE, "seeded"))):
        p = os.path.join(HERE, "seeded", n)
        m = json.load(open(os.path.join(p, "meta.json")))
        top, d = scratch()
        try:
            r = sh("git apply %s/patch.diff" % p, d)
            if r.returncode:
                print(n, "PATCH DOES NOT APPLY", r.stdout[:300]); continue
            clean, bad = sh("bash %s/demo.sh" % p, "/repo").returncode, sh("bash %s/demo.sh" % p, d).returncode
            rc, v, log = check(m["property"], d)
            record(n, rc, v)
            print(n, m["property"], "demo %d/%d" % (clean, bad), "CAUGHT" if rc == 1 and v else "MISSED rc=%d" % rc, flush=True)
        finally:
            shutil.rmtree(top)


if sys.argv[1] == "--check":
    recheck(sys.argv[2:])
else:
    for s in sys.argv[1:]:
        make(s)
