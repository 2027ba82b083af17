"""Running contracts in CPython: replay and bounded cross-check."""
import ast
import copy
import random
import signal
import sys
import time
import traceback
from . import api


class Hang(BaseException):
    pass


def _alarm(*a): raise Hang()


def install_stubs():
    """Keep the library from touching the network while contracts run."""
    from . import http
    http.install()
    import logging
    logging.disable(logging.CRITICAL)


def run_case(c, inputs, limit=None):
    """[(label, bool)] of one execution; None if the precondition fails."""
    api._REC[0] = r = api.Recorder()
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit or c.case_s)
    try:
        c.fn(**copy.deepcopy(inputs))
    except api.Skip:
        return None if not any(not ok for _, ok in r.seen) else r.seen
    except Hang:
        r.seen.append(('terminates', False))
    except MemoryError:
        r.seen.append(('terminates', False))
    except Exception as e:
        r.seen.append(('no-exception', False))
        r.exc = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-4:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        api._REC[0] = None
    return r.seen


def failures(c, inputs):
    s = run_case(c, inputs)
    return None if s is None else [l for l, ok in s if not ok]


def literal(inputs):
    s = repr(inputs)
    try:
        if ast.literal_eval(s) == inputs: return s
    except Exception:
        pass
    return None


class Search(object):
    def __init__(self, c, seed, lits):
        self.c, self.lits = c, lits
        self.rng = random.Random('%s/%s' % (seed, c.id))
        self.ran = self.skipped = 0
        self.labels = {}
        self.failing = []       # (label, inputs)
        self.distinct = set()
        self.samples = []

    def gen(self):
        if self.c.gen is not None: return self.c.gen(self.rng, self.lits)
        return {n: t.rand(self.rng, self.lits) for n, t in self.c.inputs.items()}

    def try_case(self, inputs):
        s = run_case(self.c, inputs)
        if s is None:
            self.skipped += 1
            return False
        self.ran += 1
        if s:
            h = hash(repr(inputs))
            if h not in self.distinct:
                self.distinct.add(h)
                if len(self.samples) < 2 or (len(self.samples) < 4 and self.ran > 20): self.samples.append(repr(inputs)[:240])
        bad = False
        for l, ok in s:
            d = self.labels.setdefault(l, [0, 0])
            d[0 if ok else 1] += 1
            if not ok:
                bad = True
                if not any(x[0] == l for x in self.failing): self.failing.append((l, inputs))
        return bad

    def go(self, n, secs, first=()):
        t0 = time.time()
        for d in list(self.c.fixed) + list(first):
            if d is None or set(d) != set(self.c.inputs) and self.c.gen is None: continue
            self.try_case(d)
        self.secs_first = time.time() - t0
        i = tries = 0
        while i < n and tries < 40 * n and time.time() - t0 < secs + self.secs_first:
            tries += 1
            before = self.ran
            self.try_case(self.gen())
            if self.ran > before: i += 1
            if len(self.failing) >= 3: break
        self.secs = time.time() - t0
        return self


def shrink(c, label, inputs, secs=10):
    """Smaller inputs with the same failure."""
    t0 = time.time()
    cur = dict(inputs)

    def fails(d):
        try:
            f = failures(c, d)
        except BaseException:
            return False
        return f is not None and label in f

    def inside(t, v):
        """Within the declared inputs?"""
        if isinstance(t, api.Int): return (t.lo is None or v >= t.lo) and (t.hi is None or v <= t.hi)
        if type(t).__name__ in ('Bytes', 'Str'):
            n, lo, hi = getattr(t, 'n', None), getattr(t, 'lo', 0) or 0, getattr(t, 'hi', None)
            return (n is None or len(v) == n) and len(v) >= lo and (hi is None or len(v) <= hi)
        return False

    def smaller(v):
        if isinstance(v, (bytes, str)) and v:
            n = len(v)
            yield v[:0]
            for k in (n // 2, n // 4, 8, 1):
                if 0 < k < n:
                    yield v[:n - k]
                    yield v[k:]
        elif isinstance(v, bool): return
        elif isinstance(v, int) and v:
            yield 0
            yield v >> 1
            yield v - 1 if v > 0 else v + 1
        elif isinstance(v, list) and v:
            for i in range(len(v)): yield v[:i] + v[i + 1:]
        elif isinstance(v, dict) and v:
            for k in v: yield {a: b for a, b in v.items() if a != k}
    changed = True
    while changed and time.time() - t0 < secs:
        changed = False
        for k in list(cur):
            for s in smaller(cur[k]):
                if not inside(c.inputs.get(k), s): continue
                if time.time() - t0 > secs: break
                d = dict(cur)
                d[k] = s
                if fails(d):
                    cur = d
                    changed = True
                    break
    return cur
