"""Contracts as executable harnesses.

A contract is a Python function decorated with @contract: it takes inputs of
declared types, states preconditions with requires(), runs the code under
verification and states postconditions with ensures(label, condition).  The
same text is interpreted symbolically (one proof obligation per label, over
all inputs and all paths) and run by CPython (replay of counterexamples and
the bounded cross-check).
"""
import copy
import importlib
import string


def target(name):
    """An internal function of the library ('module:dotted.name'), or None if there is no such thing."""
    m, _, a = name.partition(':')
    try:
        o = importlib.import_module(m)
        for x in a.split('.'): o = getattr(o, x)
    except (ImportError, AttributeError):
        return None
    return o


class Skip(Exception):
    """The inputs do not meet the precondition."""


class Recorder(object):
    def __init__(self): self.seen = []


_REC = [None]


def requires(cond):
    if not cond: raise Skip()


def ensures(label, cond):
    r = _REC[0]
    if r is not None: r.seen.append((label, bool(cond)))


def outcome(f, *args, **kw):
    """('ok', value) or ('exc', class of the exception)."""
    try:
        return ('ok', f(*args, **kw))
    except Skip:
        raise
    except Exception as e:
        return ('exc', type(e))


def same_objects(a, b):
    """The same objects in the same order (for use in postconditions)."""
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def note(*a):
    """Shown when a failing case is replayed; no meaning."""


def natively():
    """True in CPython, False under the verifier (used only to build inputs)."""
    return True


class Contract(object):
    def __init__(self, prop, fn, inputs, **opts):
        self.prop, self.fn, self.inputs = prop, fn, inputs
        self.name = fn.__name__
        self.covers = opts.pop('covers', ())
        self.sym = opts.pop('sym', True)            # interpreted by the verifier?
        self.why = opts.pop('why', '')              # reason when it is not
        self.cases = opts.pop('cases', 200)         # concrete cases, quick tier
        self.weight = opts.pop('weight', 1)
        self.setup = opts.pop('setup', None)        # setup(interp): engine options
        self.max_paths = opts.pop('max_paths', 4000)
        self.gen = opts.pop('gen', None)            # gen(rng, lits) -> dict of inputs
        self.uses = opts.pop('uses', ())            # contracts substituted for callees
        self.bounded_sym = opts.pop('bounded_sym', '')   # stated bound of the symbolic run, if any
        self.case_s = opts.pop('case_s', 20)
        self.fixed = opts.pop('fixed', ())          # input dicts always tried
        self.shard = opts.pop('shard', None)        # a OneOf input: its values are verified by workers of their own
        self.secs = opts.pop('secs', 0)             # time budget of the symbolic part, if more than the usual
        self.need = opts.pop('need', ())            # internal names ('module:attribute') the contract speaks about
        if opts: raise TypeError(opts)

    def applicable(self): return all(target(n) is not None for n in self.need)

    @property
    def id(self): return '%s.%s' % (self.prop, self.name)


REGISTRY = {}


def contract(prop, **opts):
    inputs = opts.pop('inputs', {})

    def deco(fn):
        c = Contract(prop, fn, inputs, **opts)
        REGISTRY.setdefault(prop, {})[c.name] = c
        fn.contract = c
        return fn
    return deco


# ---------------------------------------------------------------- input types
SIZES = [0, 1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 13, 15, 16, 17, 20, 23, 24, 25, 31, 32, 33, 40, 47, 48, 49, 55, 56, 63,
         64, 65, 66, 95, 96, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513]


BIG = [(1 << k) + d for k in (10, 11, 12, 13, 14, 15, 16, 17) for d in (-1, 0, 1)]


class Lits(object):
    """Constants of the current source: seeds for the concrete search."""

    def __init__(self, d=None):
        d = d or {'int': [], 'str': [], 'bytes': []}
        self.ints = sorted(d['int'])
        self.strs = sorted(d['str'])
        self.bytes = sorted(d['bytes'])
        self.turns = {}
        self.sizes = sorted(set(x + k for x in self.ints if 0 <= x <= 70000 for k in (-1, 0, 1) if x + k >= 0))

    def turn(self, name, xs):
        """The values of xs one after the other, over and over."""
        i = self.turns.get(name, 0)
        self.turns[name] = i + 1
        return xs[i % len(xs)]

    def size(self, rng, lo=0, hi=None):
        m = 600 if hi is None else hi
        if hi is None and rng.random() < .03:
            n = rng.choice(BIG + [x // 8 + rng.choice([-1, 0, 1]) for x in self.ints if 5000 < x <= 1 << 20])
            if n >= lo: return n
        for _ in range(20):
            r = rng.random()
            if r < .5: n = rng.choice(SIZES)
            elif r < .7 and self.sizes: n = rng.choice(self.sizes)
            else: n = rng.randint(lo, min(m, lo + 80))
            if lo <= n <= (m if rng.random() < .9 or hi is not None else 70000): return n
        return rng.randint(lo, m)


class T(object):
    def rand(self, rng, lits): raise NotImplementedError

    def sym(self, interp, name): raise NotImplementedError

    def conc(self, ev, v): raise NotImplementedError


class Bytes(T):
    def __init__(self, n=None, lo=0, hi=None): self.n, self.lo, self.hi = n, lo, hi

    def rand(self, rng, lits):
        n = self.n if self.n is not None else lits.size(rng, self.lo, self.hi)
        k = rng.random()
        if k < .45: return bytes(rng.getrandbits(8) for _ in range(n))
        if k < .52: return b'\0' * n
        if k < .58: return b'\xff' * n
        if k < .68:
            z = rng.randint(0, n)
            return b'\0' * z + bytes(rng.getrandbits(8) for _ in range(n - z))
        if k < .74:
            z = rng.randint(0, n)
            return bytes(rng.getrandbits(8) for _ in range(n - z)) + b'\0' * z
        if k < .86: return ''.join(rng.choice(string.printable) for _ in range(n)).encode()
        if k < .92 and n: 
            b = bytearray(rng.getrandbits(8) for _ in range(n))
            b[-1] = rng.choice(b'\n\r =\0\xff')
            return bytes(b)
        b = bytearray(rng.getrandbits(8) for _ in range(n))
        s = [x.encode('utf-8', 'ignore') for x in lits.strs if x] + [x for x in lits.bytes if x]
        if s and n:
            t = rng.choice(s)[:n]
            o = rng.choice([0, n - len(t), rng.randint(0, n - len(t))])
            b[o:o + len(t)] = t
        return bytes(b)


class Str(T):
    def __init__(self, lo=0, hi=None, alphabet=None, ascii=False):
        self.lo, self.hi, self.alphabet, self.ascii = lo, hi, alphabet, ascii

    def rand(self, rng, lits):
        if self.alphabet is not None:
            n = lits.size(rng, self.lo, self.hi if self.hi is not None else 300)
            return ''.join(rng.choice(self.alphabet) for _ in range(n))
        k = rng.random()
        if k < .3 and lits.strs and not self.lo and self.hi is None:
            s = rng.choice(lits.strs)
            r = rng.random()
            if r < .5: out = s
            elif r < .7: out = s + rng.choice(['', ' ', '\n', '.', 'x'])
            elif r < .8: out = s.swapcase()
            else: out = rng.choice(['x', ' ', '']) + s
        else:
            n = lits.size(rng, self.lo, self.hi if self.hi is not None else 120)
            if k < .7 or self.ascii: out = ''.join(rng.choice(string.printable) for _ in range(n))
            else: out = ''.join(rng.choice('aZ0-_.\n"\\{}\x00\x7f\xe9\u20ac\u0416\U0001f600\uffff') for _ in range(n))
        if self.ascii: out = ''.join(c for c in out if ord(c) < 128)
        return out


class Int(T):
    def __init__(self, lo=None, hi=None): self.lo, self.hi = lo, hi

    def rand(self, rng, lits):
        lo, hi = self.lo, self.hi
        for _ in range(50):
            k = rng.random()
            if k < .2: v = rng.randint(-3, 300)
            elif k < .4 and lits.ints: v = rng.choice(lits.ints) + rng.choice([-1, 0, 0, 1])
            elif k < .7:
                b = rng.choice([1, 7, 8, 9, 15, 16, 31, 32, 63, 64, 65, 127, 128, 255, 256, 257, 383, 384, 511, 512, 521, 1024, 2048])
                v = (1 << b) + rng.choice([-1, 0, 1, 2])
            else: v = rng.getrandbits(rng.choice([4, 8, 16, 32, 64, 128, 256, 521, 1030]))
            if (lo is None or v >= lo) and (hi is None or v <= hi):
                if lo is None and rng.random() < .1: return -v
                return v
        return rng.randint(lo if lo is not None else 0, hi if hi is not None else 1 << 64)


class Bool(T):
    def rand(self, rng, lits): return rng.random() < .5


class OneOf(T):
    """One of finitely many values: every one is verified."""

    def __init__(self, *xs): self.xs = list(xs)

    def rand(self, rng, lits): return copy.deepcopy(rng.choice(self.xs))


class Union(T):
    """A value of one of several types."""

    def __init__(self, *ts): self.ts = list(ts)

    def rand(self, rng, lits): return rng.choice(self.ts).rand(rng, lits)


class Json(T):
    """Any JSON value (kind: 'dict', 'list' or None)."""

    def __init__(self, kind=None, depth=2, keys=()): self.kind, self.depth, self.keys = kind, depth, keys

    def rand(self, rng, lits):
        return self.value(rng, lits, self.depth, self.kind)

    def value(self, rng, lits, depth, kind=None):
        kinds = ['null', 'bool', 'int', 'float', 'str', 'str']
        if depth > 0: kinds += ['list', 'dict', 'dict']
        k = kind or rng.choice(kinds)
        if k == 'null': return None
        if k == 'bool': return rng.random() < .5
        if k == 'int': return rng.choice([0, 1, -1, 2 ** 31, 1500000000, rng.getrandbits(20), rng.getrandbits(70)])
        if k == 'float': return rng.choice([0.0, -1.5, 1e10, 0.1])
        if k == 'str': return Str().rand(rng, lits)[:60]
        if k == 'list': return [self.value(rng, lits, depth - 1) for _ in range(rng.randint(0, 3))]
        d = {}
        for _ in range(rng.randint(0, 4)):
            key = rng.choice(self.keys) if self.keys and rng.random() < .6 else Str().rand(rng, lits)[:30]
            d[key] = self.value(rng, lits, depth - 1)
        return d


class KeyOf(T):
    """The description of a key (specs/keys.py): any key material, any metadata."""

    def __init__(self, kinds=('RSA', 'EC', 'oct'), private=None, meta=True, crv=None):
        self.kinds, self.private, self.meta, self.crv = tuple(kinds), private, meta, crv

    def rand(self, rng, lits):
        from specs import keys
        d = keys.rand_key(rng, t=rng.choice(self.kinds), p=.4 if self.meta else 0)
        if self.private is not None and d['t'] != 'oct': d['priv'] = self.private
        if self.crv and d['t'] == 'EC': d['crv'] = self.crv
        return d

    def sym_make(self, interp, name):
        from . import keysym
        return keysym.one(interp, self, name)

    def conc_make(self, c, v):
        from . import keysym
        return keysym.concrete(c, self, v)


class Keys(KeyOf):
    """A list of key descriptions of any length."""

    def rand(self, rng, lits): return [KeyOf.rand(self, rng, lits) for _ in range(rng.choice([0, 1, 1, 2, 3]))]

    def sym_make(self, interp, name):
        from . import keysym
        return keysym.many(interp, self, name)

    def conc_make(self, c, v): raise ValueError('no concrete keys')
