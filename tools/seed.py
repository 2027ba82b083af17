#!/usr/bin/env python3
"""Makes and validates planted bugs: seed.py [ids...] reads seeds_*.py beside it.

A seed: S(id, property, [(file, old, new), ...], demo source, needs, what_it_breaks).
Each is kept under /verif/seeded/<id>/ once the change applies, the stable tests
pass with it, and the demonstration passes without and fails with it.
"""
import json, os, shutil, subprocess, sys, glob, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), 'seeded')
SEEDS = {}


def S(id, prop, edits, demo, needs, breaks): SEEDS[id] = (prop, edits, demo, needs, breaks)


for f in sorted(glob.glob(os.path.join(HERE, 'seeds_*.py'))): exec(open(f).read())
STABLE = json.load(open('/opt/vp/BASELINE.json'))


def original(file, old):
    """Are the changed lines lines of the original repository?"""
    b = subprocess.run(['git', '-C', '/repo', 'show', '4e8a077:src/jwkest/' + file], capture_output=True, text=True).stdout.split('\n')
    return b


def run(id):
    prop, edits, demo, needs, breaks = SEEDS[id]
    w = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    r = os.path.join(w, 'repo')
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', r], check=True)
        for f, old, new in edits:
            p = os.path.join(r, 'src/jwkest', f)
            s = open(p).read()
            if s.count(old) != 1: return '%s: %d matches of %r' % (id, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', r, 'diff'], capture_output=True, text=True).stdout
        for f, old, new in edits:
            o = original(f, old)
            for l in diff.split('\n'):
                if l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:] not in o and not any(l[1:] in original(g, '') for g, _, _ in edits):
                    return '%s: changes a line of a fix: %s' % (id, l)
        d = os.path.join(w, 'demo')
        os.makedirs(d)
        open(os.path.join(d, 'demo.py'), 'w').write(demo.lstrip('\n'))
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/sh\nPYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        a = subprocess.run(['sh', os.path.join(d, 'demo.sh')], cwd='/repo', capture_output=True, text=True, timeout=250)
        if a.returncode: return '%s: demo fails on the unchanged tree\n%s' % (id, a.stderr[-800:])
        b = subprocess.run(['sh', os.path.join(d, 'demo.sh')], cwd=r, capture_output=True, text=True, timeout=250)
        if not b.returncode: return '%s: demo passes with the change' % id
        t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '--deselect', 'tests/test_4_jwe.py::test_jwe_09_a3', 'tests'], cwd=r,
                           capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=os.path.join(r, 'src')), timeout=300)
        if t.returncode: return '%s: tests fail\n%s' % (id, t.stdout[-600:])
        o = os.path.join(OUT, id)
        shutil.rmtree(o, ignore_errors=True)
        shutil.copytree(d, o)
        open(os.path.join(o, 'patch.diff'), 'w').write(diff)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(o, 'meta.json'), 'w'), indent=1)
        return '%s: kept (%s) %s' % (id, prop, b.stderr.strip().split('\n')[-1][:100])
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == '__main__':
    from concurrent.futures import ThreadPoolExecutor
    ids = sys.argv[1:] or [i for i in SEEDS if not os.path.exists(os.path.join(OUT, i))]
    with ThreadPoolExecutor(6) as ex:
        for m in ex.map(run, ids): print(m)
