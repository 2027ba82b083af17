"""The operating system's random generator, recorded or replaced.

Installed before Cryptodome is imported: os.urandom, os.getrandom and the
copies random and ssl hold of them all come here.  stream(seed) answers with
a pseudo-random stream that depends on the seed only; real() goes back.
"""
import hashlib
import os
import random
import time

_REAL = os.urandom
STATE = {'seed': None, 'ctr': 0}
LOG = []


def urandom(n):
    if STATE['seed'] is None: r = _REAL(n)
    else:
        r = b''
        while len(r) < n:
            STATE['ctr'] += 1
            r += hashlib.sha512(b'%r %d' % (STATE['seed'], STATE['ctr'])).digest()
        r = r[:n]
    LOG.append(r)
    return r


def install():
    if os.urandom is urandom: return
    os.urandom = urandom
    if hasattr(os, 'getrandom'): os.getrandom = lambda n, flags=0: urandom(n)
    random._urandom = urandom
    import ssl
    ssl.RAND_bytes = urandom


def stream(seed):
    """From here on the generator answers with the stream of this seed; all else that could vary is held still."""
    STATE['seed'], STATE['ctr'] = seed, 0
    del LOG[:]
    random.seed(20)


def real():
    STATE['seed'] = None
    del LOG[:]


def drawn(): return list(LOG)


class still(object):
    """The clock and the process id stand still inside."""

    def __enter__(self):
        self.old = time.time, time.time_ns, time.monotonic, time.perf_counter, os.getpid
        time.time = lambda: 1500000000.0
        time.time_ns = lambda: 1500000000 * 10 ** 9
        time.monotonic = time.perf_counter = lambda: 5.0
        os.getpid = lambda: 77

    def __exit__(self, *a):
        time.time, time.time_ns, time.monotonic, time.perf_counter, os.getpid = self.old
        real()
