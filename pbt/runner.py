"""Runs a property's checks over generated cases in forked workers; shrinks, writes replays and evidence."""
import importlib
import json
import multiprocessing
import os
import pickle
import random
import re
import resource
import shutil
import signal
import sys
import tempfile
import time

from . import engine

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS_FILE = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
QUICK = 2.5          # all quick counts at once
CAP = {"quick": float(os.environ.get("VERIF_CAP", "270")), "thorough": float(os.environ.get("VERIF_CAP", "780"))}


def listed_findings():
    """fid -> (property, text) for the lines 'finding: property=<id> id=<fid> <text>'"""
    out = {}
    if os.path.exists(FINDINGS_FILE):
        for line in open(FINDINGS_FILE, encoding="utf-8"):
            m = re.match(r"finding:\s+property=(\S+)\s+id=(\S+)\s+(.*)", line.strip())
            if m:
                out[m.group(2)] = (m.group(1), m.group(3))
    return out


def load(pid):
    return importlib.import_module("pbt.props.%s" % pid.lower())


def active_findings(mods):
    """the listed findings whose reproducer still fails, over all given modules"""
    listed = listed_findings()
    active = set()
    from . import findings as repro
    for fid in listed:
        fn = repro.REPRO.get(fid)
        if fn is None:
            continue
        try:
            fn()
        except Exception:
            active.add(fid)
    return listed, active


class Sub(object):
    def __init__(self, name, fn, quick, thorough=None):
        self.name = name
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12


def mkrng(seed, pid, sub, i):
    return random.Random("%s:%s:%s:%s" % (seed, pid, sub, i))


def worker(w, pid, subs, counts, seed, tier, findings, scratch, stop, cur, conn, deadline):
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    res = {"evals": {}, "discard": {}, "digests": set(), "features": {}, "samples": {}, "checks": 0, "fail": [], "truncated": False,
           "nontrivial": {}}
    mydir = os.path.join(scratch, "w%d" % w)
    os.makedirs(mydir)
    os.chdir(mydir)
    try:
        # round-robin over sub-checks so that a truncated run still covers all of them
        pos = [w] * len(subs)
        live = [k for k in range(len(subs)) if pos[k] < counts[k]]
        frac = lambda k: pos[k] / float(counts[k])
        n = 0
        while live and not stop.value:
            k = min(live, key=frac)
            i = pos[k]
            pos[k] += WORKERS
            if pos[k] >= counts[k]:
                live.remove(k)
            sub = subs[k]
            cur[2 * w], cur[2 * w + 1] = k, i
            size = 0.6 if i % 3 == 0 else (1.0 if i % 3 == 1 else (1.0 if tier == "quick" else 1.6))
            case = engine.Case(mkrng(seed, pid, sub.name, i), None, size, os.path.join(mydir, "%d" % n), findings)
            status, msg = engine.run_case(sub.fn, case)
            if os.path.isdir(case.scratch):
                shutil.rmtree(case.scratch, ignore_errors=True)
            n += 1
            if status == "discard":
                res["discard"][sub.name] = res["discard"].get(sub.name, 0) + 1
                continue
            res["evals"][sub.name] = res["evals"].get(sub.name, 0) + 1
            res["checks"] += case.evals
            for f in case.features:
                res["features"][f] = res["features"].get(f, 0) + 1
            if case.nontrivial:
                res["nontrivial"][sub.name] = res["nontrivial"].get(sub.name, 0) + 1
                res["digests"].add(engine.digest((sub.name, case.notes or case.choices)))
                if len(res["samples"].setdefault(sub.name, [])) < 1 and i >= 8:
                    res["samples"][sub.name].append({"sub": sub.name, "case": i, "what": [x[:500] for x in case.notes[:6]]})
            if status == "fail":
                res["fail"].append((k, i, size, list(case.choices), msg))
                stop.value = 1
                break
            if time.time() > deadline:
                res["truncated"] = True
                break
    except BaseException as e:
        res["error"] = "%s: %s" % (type(e).__name__, e)
    conn.send_bytes(pickle.dumps(res))
    conn.close()


def run(pid, tier, seed, only=None, scale=1.0):
    t0 = time.time()
    mod = load(pid)
    subs = [s for s in mod.SUBS if only is None or s.name in only]
    counts = [max(WORKERS, int(scale * (QUICK * s.quick if tier == "quick" else s.thorough))) for s in subs]
    listed, active = active_findings([mod])
    for fid in sorted(listed):
        if listed[fid][0] == pid:
            if fid in active:
                print("KNOWN-FINDING: property=%s %s %s" % (pid, fid, listed[fid][1]))
            else:
                print("note: listed finding %s no longer fails" % fid)
    sys.stdout.flush()
    scratch = tempfile.mkdtemp(prefix="awkpbt-")
    ctx = multiprocessing.get_context("fork")
    stop = ctx.Value("i", 0, lock=False)
    cur = ctx.Array("i", 2 * WORKERS, lock=False)
    deadline = t0 + CAP[tier]
    procs = []
    try:
        for w in range(WORKERS):
            r, s = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(w, pid, subs, counts, seed, tier, frozenset(active), scratch, stop, cur, s, deadline))
            p.start()
            s.close()
            procs.append((p, r))
        results, errors, crashes = [], [], []
        for w, (p, r) in enumerate(procs):
            try:
                results.append(pickle.loads(r.recv_bytes()))
            except EOFError:
                p.join()
                if p.exitcode is not None and -p.exitcode in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE):
                    crashes.append((cur[2 * w], cur[2 * w + 1], p.exitcode))
                    stop.value = 1
                else:
                    errors.append("worker %d ended with %s" % (w, p.exitcode))
            p.join()
        errors += [x["error"] for x in results if "error" in x]
        violations = []
        fails = sorted((f for x in results for f in x["fail"]), key=lambda f: (f[0], f[1]))
        seen = set()
        replaydir = os.path.join(VERIF, "replays")
        os.makedirs(replaydir, exist_ok=True)
        for k, i, size, choices, msg in fails:
            if k in seen:
                continue
            seen.add(k)
            sub = subs[k]
            counter = [0]

            def mk(prefix):
                counter[0] += 1
                return engine.Case(None, prefix, size, os.path.join(scratch, "s%d" % counter[0]), frozenset(active))
            sdir = os.path.join(scratch, "shrink")
            os.makedirs(sdir, exist_ok=True)
            cwd = os.getcwd()
            os.chdir(sdir)
            if "CPU time" in (msg or "") or os.environ.get("VERIF_NOSHRINK"):
                best, smsg, c = choices, msg, None
            else:
                best, smsg, c = engine.shrink(sub.fn, mk, choices)
            os.chdir(cwd)
            path = os.path.join(replaydir, "%s-%s-%d-%d.json" % (pid, sub.name, seed, i))
            json.dump({"property": pid, "sub": sub.name, "seed": seed, "case": i, "size": size, "choices": best,
                       "message": smsg or msg, "original_message": msg, "notes": c.notes if c else []}, open(path, "w"), indent=1)
            print("sub-check %s case %d: %s" % (sub.name, i, smsg or msg))
            for x in (c.notes if c else []):
                print("    " + x[:1000])
            print("VIOLATION property=%s replay=%s" % (pid, path))
            violations.append(path)
        for k, i, code in crashes:
            path = os.path.join(replaydir, "%s-%s-%d-%d.json" % (pid, subs[k].name, seed, i))
            json.dump({"property": pid, "sub": subs[k].name, "seed": seed, "case": i, "size": 1.0, "choices": None,
                       "message": "process ended with signal %d" % -code}, open(path, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            violations.append(path)
        digests = set()
        agg = lambda key: _sum([x[key] for x in results])
        for x in results:
            digests |= x["digests"]
        samples = {}
        for x in results:
            for name, ss in x["samples"].items():
                if ss:
                    samples.setdefault(name, ss[0])
        evals = agg("evals")
        wall = time.time() - t0
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
              "coverage": {"evaluations": sum(evals.values()), "distinct_nontrivial": len(digests), "rule": mod.RULE,
                           "samples": list(samples.values())[:12], "per_subcheck": evals, "discarded": agg("discard"),
                           "nontrivial_per_subcheck": agg("nontrivial"), "assertions": sum(x["checks"] for x in results),
                           "features": dict(sorted(agg("features").items())),
                           "truncated_by_wall_cap": any(x["truncated"] for x in results),
                           "known_findings_active": sorted(f for f in active if listed[f][0] == pid)},
              "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
              "wall_s": round(wall, 2), "violations": len(violations)}
        if only is None:
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1, ensure_ascii=True)
        print("%s %s seed=%d: %d cases (%d distinct non-trivial, %d assertions, %d discarded) in %.1f s, %d violation(s)" % (
            pid, tier, seed, sum(evals.values()), len(digests), ev["coverage"]["assertions"], sum(agg("discard").values()), wall, len(violations)))
        if violations:
            return 1
        if errors:
            print("harness error: %s" % errors[:3])
            return 2
        if sum(evals.values()) == 0:
            print("harness error: nothing was evaluated")
            return 2
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _sum(dicts):
    out = {}
    for d in dicts:
        for k, v in d.items():
            out[k] = out.get(k, 0) + v
    return out


def replay(path):
    d = json.load(open(path))
    mod = load(d["property"])
    sub = [s for s in mod.SUBS if s.name == d["sub"]][0]
    listed, active = active_findings([mod])
    scratch = tempfile.mkdtemp(prefix="awkpbt-")
    cwd = os.getcwd()
    os.chdir(scratch)
    try:
        if d["choices"] is None:
            case = engine.Case(mkrng(d["seed"], d["property"], d["sub"], d["case"]), None, d["size"], os.path.join(scratch, "c"), frozenset(active))
        else:
            case = engine.Case(None, d["choices"], d["size"], os.path.join(scratch, "c"), frozenset(active))
        status, msg = engine.run_case(sub.fn, case)
        for x in case.notes:
            print("  " + x)
        print(status, msg or "")
        if status == "fail":
            print("VIOLATION property=%s replay=%s" % (d["property"], path))
            return 1
        return 0
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)


def main(argv):
    if argv and argv[0] == "replay":
        return replay(os.path.abspath(argv[1]))
    pid, tier = argv[0], argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    only = None
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    for a in argv[2:]:
        if a.startswith("--sub="):
            only = a[6:].split(",")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return run(pid, tier, seed, only, scale)
