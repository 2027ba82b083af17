"""Where the code under verification lives, and how it is loaded."""
import os
import sys
REPO = os.environ.get('PV_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SITE = '/opt/venv/lib/python3.12/site-packages'


def setup():
    sys.dont_write_bytecode = True
    for v in list(os.environ):
        if v in ('REQUESTS_CA_BUNDLE', 'CURL_CA_BUNDLE') or v.lower().endswith('_proxy'): del os.environ[v]
    for p in (SITE, os.path.join(REPO, 'src'), VERIF):
        if p in sys.path: sys.path.remove(p)
        sys.path.insert(0, p)
    if SITE not in sys.path: sys.path.append(SITE)
    from . import rng
    rng.install()
    import jwkest
    f = os.path.realpath(jwkest.__file__)
    assert f.startswith(os.path.realpath(REPO) + os.sep), f
    from . import source
    source.add_root(os.path.dirname(f))
    source.add_root(os.path.join(VERIF, 'specs'))
    source.SRC = os.path.dirname(f)


def src_files():
    d = os.path.join(REPO, 'src', 'jwkest')
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith('.py')]
