"""Small property-based testing engine: choice-sequence generation, integrated shrinking, replay.

A test is a function f(t) where t is a Case.  All randomness comes from t (t.below(n) and friends),
so the sequence of drawn integers *is* the test case: it is what gets shrunk and what a replay file holds.
"""
import contextlib
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback


class Violation(AssertionError):
    pass


class Discard(Exception):
    """The drawn case is outside the property's domain (counted, never judged)."""


class HarnessError(Exception):
    """Trouble in the sandbox or the harness (out of memory, disk full): no verdict."""


class CaseTimeout(BaseException):
    pass


CASE_SECONDS = int(os.environ.get("VERIF_CASE_SECONDS", "30"))


class Case(object):
    def __init__(self, rng=None, prefix=None, size=1.0, scratch=None, findings=()):
        self.rng = rng
        self.prefix = prefix
        self.choices = []
        self.size = size
        self.scratch = scratch
        self.findings = findings
        self.notes = []
        self.features = set()
        self.nontrivial = False
        self.evals = 0
        self._tmpcount = 0
        self.home = ""              # the property being checked

    # ---- draws
    def below(self, n):
        if n <= 1:
            return 0
        i = len(self.choices)
        if self.prefix is not None:
            v = self.prefix[i] if i < len(self.prefix) else 0
            if v >= n:
                v = v % n
        else:
            v = self.rng.randrange(n)
        self.choices.append(v)
        if i > 20000:
            raise Discard("too many choices")
        return v

    def biased(self, n):
        """an int in [0, n), small values likelier"""
        if n <= 1:
            return 0
        if self.prefix is not None:
            return self.below(n)
        r = self.rng.random()
        v = min(n - 1, int(n * r ** 1.4))
        self.choices.append(v)
        return v

    def between(self, lo, hi):
        """lo <= x <= hi; shrinks towards lo"""
        return lo + self.below(hi - lo + 1)

    def chance(self, p):
        """True with probability p; shrinks to False"""
        i = len(self.choices)
        if self.prefix is not None:
            return self.below(2) == 1
        v = 1 if self.rng.random() < p else 0
        self.choices.append(v)
        return v == 1

    def flag(self):
        return self.below(2) == 1

    def pick(self, seq):
        seq = list(seq)
        return seq[self.below(len(seq))]

    def wpick(self, pairs):
        """weighted pick from [(weight, item)]; shrinks towards the first"""
        pairs = [p for p in pairs if p[0] > 0]
        if self.prefix is not None:
            return pairs[self.below(len(pairs))][1]
        total = sum(w for w, _ in pairs)
        r = self.rng.random() * total
        for k, (w, x) in enumerate(pairs):
            r -= w
            if r < 0:
                break
        if len(pairs) > 1:
            self.choices.append(k)
        return pairs[k][1]

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self.below(len(seq) - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def length(self, hi, lo=0):
        hi = max(lo, int(hi * self.size))
        return lo + self.biased(hi - lo + 1)

    # ---- bookkeeping
    def note(self, *args):
        self.notes.append(" ".join(x if isinstance(x, str) else repr(x) for x in args))

    def feature(self, *names):
        self.features.update(names)

    def known(self, fid):
        """is this finding listed in the committed known-findings file (so its region is not searched)?"""
        return fid in self.findings

    def skip_known(self, fid, cond=True):
        if cond and fid in self.findings:
            raise Discard("known finding " + fid)

    def assume(self, cond):
        if not cond:
            raise Discard("assume")

    def tmpdir(self):
        self._tmpcount += 1
        d = os.path.join(self.scratch, "c%d" % self._tmpcount)
        os.makedirs(d, exist_ok=True)
        return d

    def fail(self, msg):
        raise Violation(msg)

    def check(self, cond, msg="check failed"):
        self.evals += 1
        if not cond:
            raise Violation(msg() if callable(msg) else msg)


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(fn, case):
    """returns (status, message): status in ok / discard / fail"""
    # CPU seconds, so that a loaded machine cannot turn into a verdict
    old = signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_SECONDS)
    try:
        try:
            case.home = fn.__module__.rsplit(".", 1)[-1]
            fn(case)
            return "ok", None
        except Discard:
            return "discard", None
        except CaseTimeout:
            return "fail", "no result within %d s of CPU time" % CASE_SECONDS
        except Violation as e:
            return "fail", "%s" % e
        except (KeyboardInterrupt, HarnessError):
            raise
        except OSError as e:
            import errno
            if e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EAGAIN):
                raise HarnessError(str(e))
            return "fail", _short_tb(e)
        except RecursionError as e:
            return "fail", "RecursionError: %s" % (str(e)[:200],)
        except Exception as e:
            return "fail", _short_tb(e)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def _short_tb(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = ["%s:%d:%s" % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-6:]]
    return "unexpected %s: %s [%s]" % (type(e).__name__, str(e)[:300], " > ".join(where))


def shrink(fn, mk, choices, budget_s=25.0, max_evals=3000):
    """mk(prefix) -> Case.  Greedy choice-sequence shrinking, preserving 'fail'."""
    t0 = time.time()
    evals = [0]
    best = list(choices)
    bestmsg = [None]
    bestcase = [None]

    def attempt(cand):
        if evals[0] >= max_evals or time.time() - t0 > budget_s:
            return False
        evals[0] += 1
        c = mk(cand)
        st, msg = run_case(fn, c)
        if st == "fail":
            used = c.choices
            key = (len(used), used)
            if key < (len(best), best) or bestmsg[0] is None:
                best[:] = used
                bestmsg[0] = msg
                bestcase[0] = c
                return True
        return False

    if not attempt(list(best)):
        return list(choices), None, None
    improved = True
    while improved and evals[0] < max_evals and time.time() - t0 < budget_s:
        improved = False
        # delete blocks
        for k in (64, 32, 16, 8, 4, 3, 2, 1):
            i = len(best) - k
            while i >= 0:
                if i + k <= len(best):
                    if attempt(best[:i] + best[i + k:]):
                        improved = True
                    elif i > 0 and best[i - 1] > 0:
                        # lower the preceding counter together with the deletion
                        cand = best[:i] + best[i + k:]
                        cand[i - 1] -= 1
                        if attempt(cand):
                            improved = True
                i -= 1
                if evals[0] >= max_evals or time.time() - t0 > budget_s:
                    break
        # zero blocks
        for k in (8, 4, 2):
            i = 0
            while i + k <= len(best):
                if any(best[i:i + k]):
                    if attempt(best[:i] + [0] * k + best[i + k:]):
                        improved = True
                i += k
        # lower single values
        i = len(best) - 1
        while i >= 0:
            if i < len(best) and best[i] > 0:
                if attempt(best[:i] + [0] + best[i + 1:]):
                    improved = True
                else:
                    lo, hi = 0, best[i]
                    while i < len(best) and hi - lo > 1:
                        mid = (lo + hi) // 2
                        if attempt(best[:i] + [mid] + best[i + 1:]):
                            hi = mid
                            improved = True
                        else:
                            lo = mid
            i -= 1
            if evals[0] >= max_evals or time.time() - t0 > budget_s:
                break
    return list(best), bestmsg[0], bestcase[0]


def digest(obj):
    return hashlib.blake2b(repr(obj).encode("utf-8", "replace"), digest_size=8).digest()
