#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]: decide one property of /repo's working tree.

Every contract of the property is (1) verified symbolically from the current
source, one obligation per postcondition, and (2) run by CPython on bounded
concrete inputs, the verifier's own models and path witnesses first.
Exit 0: nothing found.  Exit 1 with a VIOLATION line: a postcondition fails.
"""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PV_REPO', '/repo')
PY = '/opt/veriftools/pyvenv/bin/python3'
if not os.path.exists(PY): PY = 'python3-vt'
TRUSTED = ['z3 5.3.2 (python3-vt)', 'cvc5 1.4.2', 'pv: symbolic interpreter for the Python subset used by jwkest (/verif/pv)',
           'pv/lib.py, pv/models.py: axioms for CPython built-ins and Cryptodome/json/base64/struct/hashlib/zlib/requests '
           '(run against the real libraries by tools/libtest.py)',
           'specs/ref.py: specification functions']


def known():
    out = []
    p = os.path.join(HERE, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'):
                d = dict(x.split('=', 1) for x in l.split(' -- ')[0].split()[1:])
                d['text'] = l.split(' -- ', 1)[1]
                out.append(d)
    return out


def merged(results):
    """One result per contract of the results of its parts."""
    out = {}
    for n, d in sorted(results.items()):
        n = n.split('#')[0]
        o = out.get(n)
        if o is None:
            out[n] = d
            continue
        for k in ('crashed',):
            if d.get(k): o[k] = d[k]
        a, b = o.get('sym'), d.get('sym')
        if not a or not b: o['sym'] = None
        else:
            rank = ['proved', 'incomplete', 'unknown', 'refuted']
            for l, v in b['labels'].items():
                w = a['labels'].setdefault(l, dict(status='proved', vcs=0, by={}, secs=0, reasons=[]))
                w['status'] = max(w['status'], v['status'], key=rank.index)
                w['vcs'] += v['vcs']
                w['secs'] += v['secs']
                w['reasons'] = (w['reasons'] + v['reasons'])[:4]
                for x, c in v['by'].items(): w['by'][x] = w['by'].get(x, 0) + c
            if not b['complete']: a['complete'] = False
            if not a['complete']:
                for w in a['labels'].values():
                    if w['status'] == 'proved': w['status'] = 'incomplete'
            for k in ('inlined', 'contracts_used', 'notes', 'unsupported'): a[k] = sorted(set(a[k]) | set(b[k]))
            a['error'] = a['error'] or b['error']
            a['paths'] += b['paths']
            for k, v in b['stats'].items(): a['stats'][k] = a['stats'].get(k, 0) + v
            a['failed'] += b['failed']
        a, b = o.get('native'), d.get('native')
        if not a: o['native'] = b
        elif b:
            for k in ('ran', 'skipped', 'distinct'): a[k] += b[k]
            a['samples'] = a['samples'][:2] + b['samples'][:1]
            a['failing'] += [f for f in b['failing'] if f['label'] not in [g['label'] for g in a['failing']]]
    return out


def main():
    prop = sys.argv[1]
    thorough = '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough'
    tier = 'thorough' if thorough else 'quick'
    seed = os.environ.get('VERIF_SEED', '1')
    t0 = time.time()
    env = dict(os.environ, PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    r = subprocess.run([PY, '-m', 'pv.worker', 'list', prop], cwd=HERE, env=env, capture_output=True, text=True)
    if r.returncode:
        print('cannot load the contracts of %s:\n%s' % (prop, r.stderr[-3000:]))
        sys.exit(2)
    lines = [l.split() for l in r.stdout.split('\n') if l.strip()]
    todo = [(int(l[1]), l[0]) for l in lines]
    more = {l[0]: float(l[2]) for l in lines}
    inapplicable = [n for w, n in todo if w < 0]
    todo = sorted(x for x in todo if x[0] >= 0)[::-1]
    work = os.path.join(HERE, 'evidence', '.work', '%s.%d' % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    sym_s, nat_s = (1200, 400) if thorough else (110, 25)
    if os.environ.get('PV_SYM_S'): sym_s = float(os.environ['PV_SYM_S'])
    cap = {n: max(sym_s, more[n]) * 1.5 + nat_s * 4 + 120 for n in more}
    jobs = int(os.environ.get('PV_JOBS', '8'))
    running, results, queue = {}, {}, [n for _, n in todo]
    names = list(queue)
    while queue or running:
        while queue and len(running) < jobs:
            n = queue.pop(0)
            out = os.path.join(work, n + '.json')
            log = open(os.path.join(work, n + '.log'), 'w')
            p = subprocess.Popen([PY, '-m', 'pv.worker', 'run', prop, n, out, '--seed', seed, '--tier', tier,
                                  '--sym-s', str(sym_s), '--native-s', str(nat_s)], cwd=HERE, env=env,
                                 stdout=log, stderr=subprocess.STDOUT)
            running[n] = (p, out, time.time(), log)
        time.sleep(.05)
        for n, (p, out, st, log) in list(running.items()):
            if p.poll() is None:
                if time.time() - st > cap[n]:
                    p.kill()
                    p.wait()
                else: continue
            log.close()
            del running[n]
            if os.path.exists(out): results[n] = json.load(open(out))
            else:
                tail = open(os.path.join(work, n + '.log')).read()[-1500:]
                results[n] = dict(contract='%s.%s' % (prop, n), crashed=tail or 'killed', sym=None, native=None, covers=[])
                if not any(a[1] == 'retry' for a in [(n, results[n].get('state'))]) and os.environ.get('PV_NO_RETRY') is None:
                    # one more attempt without the symbolic part
                    rc = subprocess.run([PY, '-m', 'pv.worker', 'run', prop, n, out, '--seed', seed, '--tier', tier,
                                         '--sym-s', '0', '--native-s', str(nat_s)], cwd=HERE, env=env,
                                        stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=None)
                    if os.path.exists(out):
                        results[n] = json.load(open(out))
                        results[n]['crashed'] = tail or 'killed'
    results = merged(results)
    names = list(dict.fromkeys(n.split('#')[0] for n in names))
    base = {}
    bp = os.path.join(HERE, 'baseline.json')
    if os.path.exists(bp): base = json.load(open(bp)).get(prop, {})
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    viol, knownhits, undecided = [], {}, []
    for n in inapplicable: undecided.append('%s.%s: a function it speaks about is gone' % (prop, n))
    obligations = discharged = 0
    kf = [k for k in known() if k.get('property') == prop]
    funcs, bounded, used, assumptions, samples = set(), [], set(), set(), []
    solver_s, backends, inlined = 0.0, {}, set()
    cases = 0
    for n in names:
        d = results[n]
        cid = d['contract']
        s, nat = d.get('sym'), d.get('native')
        if d.get('crashed'): undecided.append('%s: worker ended early: %s' % (cid, d['crashed'].strip().split('\n')[-1][:200]))
        proved_all = False
        failing = set()
        if nat:
            cases += nat['ran']
            for f in nat['failing']:
                k = next((k for k in kf if k['contract'] == cid and k['label'] == f['label']), None)
                failing.add(f['label'])
                if k is not None:
                    knownhits[k['id']] = k
                    continue
                rp = os.path.join(rdir, '%s.%s.json' % (cid, f['label']))
                json.dump(dict(property=prop, contract=cid, label=f['label'], inputs=f['inputs'],
                               run='cd /verif && python3-vt -m pv.worker replay %s' % rp), open(rp, 'w'), indent=1)
                viol.append((cid, f['label'], rp, ''))
            if not nat['ran'] and not nat['failing']: undecided.append('%s: no concrete case ran' % cid)
        else: undecided.append('%s: no concrete run' % cid)
        if s:
            funcs.update(s['inlined'])
            used.update(s['contracts_used'])
            assumptions.update(s['notes'])
            for k, v in s['stats'].items():
                if k.endswith('_s'): solver_s += v
            labs = {l: v for l, v in s['labels'].items() if l != 'no-exception'}
            for l, v in s['labels'].items():
                for b, c in v['by'].items(): backends[b] = backends.get(b, 0) + c
            obligations += len(labs) + 1
            for l, v in labs.items():
                if v['status'] == 'proved': discharged += 1
                else: undecided.append('%s:%s %s %s' % (cid, l, v['status'], '; '.join(v['reasons'])[:160]))
            esc = s['labels'].get('no-exception')
            if esc is None and s['complete']: discharged += 1
            elif esc is not None: undecided.append('%s:no-exception %s %s' % (cid, esc['status'], '; '.join(esc['reasons'])[:160]))
            proved_all = s['complete'] and all(v['status'] == 'proved' for v in s['labels'].values()) and bool(labs)
            for u in s['unsupported'] + ([s['error']] if s['error'] else []): undecided.append('%s: %s' % (cid, u))
            for f in s['failed']:
                if f['status'] != 'refuted' or f['label'] in failing: continue
                if base.get('%s:%s' % (cid, f['label'])) != 'proved': continue
                if any(k['contract'] == cid and k['label'] == f['label'] for k in kf): continue
                failing.add(f['label'])
                rp = os.path.join(rdir, '%s.%s.json' % (cid, f['label']))
                json.dump(dict(property=prop, contract=cid, label=f['label'], inputs=None, obligation='%s:%s' % (cid, f['label']),
                               verifier=f, run='cd /verif && python3-vt -m pv.worker run %s %s /tmp/out.json' % (prop, n)),
                          open(rp, 'w'), indent=1)
                viol.append((cid, f['label'], rp, ' no-failing-input-found'))
            if proved_all and d.get('bounded_sym'):
                bounded.append('%s: all inputs within: %s' % (cid, d['bounded_sym']))
        if not proved_all:
            why = d.get('why') or 'obligations not all discharged by the verifier'
            if nat: bounded.append('%s: bounded check, %d concrete cases (%s)' % (cid, nat['ran'], why))
        if nat: samples += ['%s: %s' % (cid, x) for x in nat.get('samples', [])[:2]]
    # a case counts only if it fails again in a process of its own
    final = []
    for cid, lab, rp, tail in viol:
        if not tail:
            r = subprocess.run([PY, '-m', 'pv.worker', 'replay', rp], cwd=HERE, env=env, capture_output=True, text=True)
            if r.returncode != 1:
                r = subprocess.run([PY, '-m', 'pv.worker', 'replay', rp], cwd=HERE, env=env, capture_output=True, text=True)
            if r.returncode != 1:
                undecided.append('%s:%s failed once and not when replayed' % (cid, lab))
                continue
        final.append((cid, lab, rp, tail))
    for k in knownhits.values(): print('KNOWN-FINDING: property=%s %s' % (prop, k['text']))
    level = 'exploration'
    try:
        for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']:
            if c['property'] == prop: level = c['level']
    except Exception: pass
    cov = dict(contracts=len(names), functions_interpreted=sorted(x for x in funcs if not x.startswith('specs')),
               functions_under_contract=sorted(set(x for n in names for x in results[n].get('covers', []))),
               callee_contracts=sorted(used), obligations=obligations, discharged=discharged, evaluations=cases,
               distinct_nontrivial=sum((results[n].get('native') or {}).get('distinct', 0) for n in names),
               rule='inputs of each contract drawn by its generators (boundary sizes, constants of the current source) plus '
                    'the models and path witnesses of the verifier; non-trivial: the precondition holds and a '
                    'postcondition was evaluated; distinct by value',
               samples=samples[:12], backends=backends, solver_seconds=round(solver_s, 2), bounded=bounded[:60],
               undecided=undecided[:60], checker_cmd='cd /verif && python3 check.py %s%s' % (prop, ' --thorough' if thorough else ''),
               trusted_base=TRUSTED)
    cov['explanation'] = ('%d of %d obligations generated from the current source discharged for all inputs; %d contracts checked on %d concrete cases (bounded); '
                          'see bounded and undecided' % (discharged, obligations, len(bounded), cases))
    ev = dict(property=prop, tier=tier, seed=int(seed) if seed.lstrip('-').isdigit() else 1, level=level, coverage=cov,
              assumptions=sorted(assumptions) + ['texts hold no lone surrogates', 'axioms of pv/lib.py for library functions'],
              wall_s=round(time.time() - t0, 2), violations=len(final))
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    if os.environ.get('PV_BASELINE'):
        b = {}
        for n in names:
            s = results[n].get('sym')
            if s:
                for l, v in s['labels'].items(): b['%s:%s' % (results[n]['contract'], l)] = v['status']
                if 'no-exception' not in s['labels'] and s['complete']: b['%s:no-exception' % results[n]['contract']] = 'proved'
        json.dump(b, open(os.environ['PV_BASELINE'], 'w'), indent=1, sort_keys=True)
    for x in os.listdir(work):
        try: os.unlink(os.path.join(work, x))
        except OSError: pass
    try: os.rmdir(work)
    except OSError: pass
    print('%s %s: %d contracts, %d of %d obligations discharged, %d concrete cases, %.1f s' % (
        prop, tier, len(names), discharged, obligations, cases, time.time() - t0))
    for u in undecided[:30]: print('  undecided: %s' % u)
    for cid, lab, rp, tail in final:
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, tail))
    if final: sys.exit(1)
    if not cases: sys.exit(2)
    sys.exit(0)


if __name__ == '__main__': main()
