"""python3-vt -m pv.worker run PROP CONTRACT OUT --seed --tier | replay FILE"""
import argparse
import importlib
import json
import os
import sys
import time
from . import env


def load(prop):
    from . import api
    importlib.import_module('specs.' + prop.lower())
    return api.REGISTRY[prop]


def run(a):
    env.setup()
    from . import api, native, source
    t0 = time.time()
    cs = load(a.prop)
    name, _, part = a.contract.partition('#')
    c = cs[name]
    lits = api.Lits(source.literals(env.src_files()))
    res = dict(contract=c.id, covers=list(c.covers), sym=None, native=None, bounded_sym=c.bounded_sym, why=c.why)
    first = []
    thorough = a.tier == 'thorough'
    if c.sym:
        from . import sym, solver, specs_models
        specs_models.install()
        ms = int(os.environ.get('PV_PROVE_MS', '20000' if thorough else '6000'))
        budget = max(a.sym_s, c.secs) if a.sym_s else 0
        kw = c.uses() if callable(c.uses) else {}
        r = sym.Run(c, time.time() + budget, ms, fix={c.shard: int(part)} if part else None, **kw).go()
        labels, complete, bad = r.verdict()
        obl = {}
        for l, rs in r.obl.by.items():
            be = {}
            for st, b, secs, why in rs: be[b] = be.get(b, 0) + 1
            obl[l] = dict(status=labels[l], vcs=len(rs), by=be, secs=round(sum(x[2] for x in rs), 3),
                          reasons=sorted(set(x[3] for x in rs if x[3]))[:4])
        res['sym'] = dict(labels=obl, complete=complete, unsupported=bad, error=r.error, paths=len(r.paths),
                          outcomes={k: sum(1 for o in r.paths if o[0] == k) for k in ('ok', 'exc', 'unsupported')},
                          secs=round(r.secs, 2), stats={k: round(v, 3) for k, v in solver.STATS.items()},
                          inlined=sorted(r.interp.inlined), contracts_used=sorted(r.interp.used_contracts),
                          loops=len(r.interp.loops), notes=sorted(r.interp.notes),
                          failed=[dict(label=f['label'], status=f['status'], backend=f['backend'], reason=f['reason'],
                                       goal=f['goal'], inputs=native.literal(f['inputs']) if f['inputs'] is not None else None)
                                  for f in r.obl.failed[:12]])
        first = [f['inputs'] for f in r.obl.failed if f['inputs'] is not None][:40] + r.cases[:200]
    native.install_stubs()
    s = native.Search(c, a.seed, lits)
    n = c.cases * (20 if thorough else 1) if part in ('', '0') else 0
    s.go(n, a.native_s, first)
    fl = []
    for l, d in s.failing:
        d2 = native.shrink(c, l, d, 8)
        fl.append(dict(label=l, inputs=native.literal(d2)))
    res['native'] = dict(ran=s.ran, skipped=s.skipped, labels=s.labels, failing=fl, distinct=len(s.distinct), samples=s.samples, secs=round(s.secs, 2),
                         from_paths=len(first))
    res['secs'] = round(time.time() - t0, 2)
    with open(a.out + '.tmp', 'w') as f: json.dump(res, f)
    os.rename(a.out + '.tmp', a.out)


def replay(path):
    env.setup()
    import ast
    from . import native
    d = json.load(open(path))
    if not d.get('inputs'):
        print('no failing input: obligation %s of %s' % (d.get('label'), d.get('contract')))
        print(json.dumps(d, indent=1))
        return 2
    c = load(d['property'])[d['contract'].split('.', 1)[1]]
    native.install_stubs()
    f = native.failures(c, ast.literal_eval(d['inputs']))
    print('contract %s, inputs %s' % (d['contract'], d['inputs'][:2000]))
    print('failed obligations: %s' % f)
    return 1 if f else 0


def main():
    p = argparse.ArgumentParser()
    p.add_argument('mode')
    p.add_argument('prop')
    p.add_argument('contract', nargs='?')
    p.add_argument('out', nargs='?')
    p.add_argument('--seed', default='1')
    p.add_argument('--tier', default='quick')
    p.add_argument('--sym-s', type=float, default=100, dest='sym_s')
    p.add_argument('--native-s', type=float, default=20, dest='native_s')
    a = p.parse_args()
    if a.mode == 'replay': sys.exit(replay(a.prop))
    if a.mode == 'list':
        env.setup()
        for n, c in load(a.prop).items():
            w = c.weight if c.applicable() else -1
            if c.shard and w >= 0:
                for i in range(len(c.inputs[c.shard].xs)): print('%s#%d %d %d' % (n, i, w, c.secs))
            else: print('%s %d %d' % (n, w, c.secs))
        return
    run(a)


if __name__ == '__main__': main()
