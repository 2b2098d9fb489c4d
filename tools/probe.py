#!/usr/bin/env python3
"""Development aid: run many cases, cluster the failures by signature, shrink one of each.
probe.py C04 [N] [sub,sub] [seed]"""
import multiprocessing
import os
import re
import shutil
import sys
import tempfile
import time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pbt import engine, runner


def sig(msg):
    if msg.startswith("unexpected"):
        m = re.match(r"unexpected (\w+): (.*) \[(.*)\]$", msg, re.S)
        if m:
            return "%s %s @%s" % (m.group(1), re.sub(r"[\d']+", "#", m.group(2))[:50], m.group(3).split(" > ")[-1])
    m = re.search(r"(\w+Error|\w+Exception|Refused)\((.{0,60})", msg, re.S)
    head = re.sub(r"[\d]+", "#", re.split(r"[:\[(]", msg)[0])[:60]
    if m:
        return head + " :: " + m.group(1) + " " + re.sub(r"[\d]+", "#", m.group(2))[:50]
    return head


def work(args):
    pid, subname, ids, seed, active = args
    mod = runner.load(pid)
    sub = [s for s in mod.SUBS if s.name == subname][0]
    d = tempfile.mkdtemp(prefix="probe-")
    os.chdir(d)
    out = {}
    nd = 0
    nt = 0
    for i in ids:
        size = 0.6 if i % 3 == 0 else 1.0
        c = engine.Case(runner.mkrng(seed, pid, subname, i), None, size, os.path.join(d, str(i)), active)
        st, msg = engine.run_case(sub.fn, c)
        shutil.rmtree(c.scratch, ignore_errors=True)
        if st == "discard":
            nd += 1
        if c.nontrivial and st != "discard":
            nt += 1
        if st == "fail":
            k = sig(msg)
            e = out.setdefault(k, [0, None, None, 0])
            e[0] += 1
            if e[1] is None or len(c.choices) < len(e[1]):
                e[1], e[2] = list(c.choices), msg
                e[3] = size
    shutil.rmtree(d, ignore_errors=True)
    return out, nd, nt


def shr(args):
    pid, subname, k, choices, size, active = args
    mod = runner.load(pid)
    sub = [s for s in mod.SUBS if s.name == subname][0]
    d = tempfile.mkdtemp(prefix="probe-")
    os.chdir(d)
    n = [0]

    def fn(t):
        st, msg = engine.run_case(sub.fn, t)
        if st == "fail" and sig(msg) == k:
            raise engine.Violation(msg)

    def mk(p):
        n[0] += 1
        return engine.Case(None, p, size, os.path.join(d, str(n[0])), active)
    best, msg, c = engine.shrink(fn, mk, choices, 12.0, 1500)
    shutil.rmtree(d, ignore_errors=True)
    return msg, (c.notes if c else []), best


def main():
    pid = sys.argv[1]
    N = int(sys.argv[2]) if len(sys.argv) > 2 else 4000
    only = sys.argv[3].split(",") if len(sys.argv) > 3 and sys.argv[3] != "-" else None
    seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    top = int(os.environ.get("TOP", "12"))
    listed, active = runner.active_findings([])
    active = frozenset(active)
    mod = runner.load(pid)
    with multiprocessing.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        for s in mod.SUBS:
            if only and s.name not in only:
                continue
            t0 = time.time()
            res = pool.map(work, [(pid, s.name, list(range(w, N, 8)), seed, active) for w in range(8)])
            agg = {}
            for out, nd, nt in res:
                for k, e in out.items():
                    a = agg.setdefault(k, [0, None, None, 1.0])
                    a[0] += e[0]
                    if a[1] is None or len(e[1]) < len(a[1]):
                        a[1:] = e[1:]
            nd = sum(r[1] for r in res)
            nt = sum(r[2] for r in res)
            print("== %s.%s: %d cases, %d discarded, %d nontrivial, %d failing, %.1fs" % (pid, s.name, N, nd, nt, sum(e[0] for e in agg.values()), time.time() - t0))
            ks = sorted(agg, key=lambda k: -agg[k][0])[:top]
            rs = pool.map(shr, [(pid, s.name, k, agg[k][1], agg[k][3], active) for k in ks], chunksize=1)
            for k, (msg, notes, best) in zip(ks, rs):
                print("-- %5d  %s" % (agg[k][0], k))
                print("      " + str(msg or agg[k][2])[:700])
                for x in notes:
                    print("        " + x[:400])
            sys.stdout.flush()


main()
