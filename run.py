#!/usr/bin/env python3
"""usage: run.py PROPERTY [--tier quick|thorough] [--replay FILE] [--sub NAME] [--n N]

Decides one property of /repo by generated-input search. Exit 0: held on everything
explored. Exit 1 with a line 'VIOLATION property=<id> replay=<path>': a counterexample.
Any other exit: the check itself failed."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
ENV = {'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
       'MPLBACKEND': 'Agg', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
       'PYTHONNOUSERSITE': '1', 'VERIF_CHILD': '1'}


def bootstrap():
    import shutil
    import subprocess
    import tempfile
    tmp = tempfile.mkdtemp(prefix='verif-')
    env = dict(os.environ)
    env.update(ENV)
    env['VERIF_TMP'] = tmp
    env['PYTHONPYCACHEPREFIX'] = os.path.join(tmp, 'pyc')
    env['HYPOTHESIS_STORAGE_DIRECTORY'] = os.path.join(tmp, 'hyp')
    env['MPLCONFIGDIR'] = os.path.join(tmp, 'mpl')
    py = PY if os.path.exists(PY) else sys.executable
    try:
        return subprocess.call([py, os.path.abspath(__file__)] + sys.argv[1:], env=env)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def known_lines(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('KNOWN-FINDING: property=%s ' % prop):
                rest = line.split('property=%s ' % prop, 1)[1]
                kid = rest.split()[0]
                if not kid.startswith('id='):
                    raise SystemExit('bad known finding line: ' + line)
                out.append((kid[3:], line))
    return out


_MOD = None


def _job(a):
    from vlib import harness
    prop, subname, seed, tier, n = a
    sub = [s for s in _MOD.SUBS if s.name == subname][0]
    s2 = harness.Sub(sub.name, sub.gen, sub.check, n, n, sub.cases if seed % 64 == 0 else None)
    return harness.run_sub(prop, s2, seed, tier)


def main():
    import argparse
    import glob
    import importlib.util
    import json
    import multiprocessing
    import time
    import warnings
    from collections import Counter
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick',
                    choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--sub')
    ap.add_argument('--n', type=int)
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    a = ap.parse_args()
    t0 = time.monotonic()
    warnings.simplefilter('ignore')
    sys.path.insert(0, HERE)
    from vlib import deps
    deps.ensure(os.environ['VERIF_TMP'])
    from vlib import harness
    repo = os.path.realpath(harness.REPO)
    sys.path.insert(0, repo)
    import filterpy
    if not os.path.realpath(filterpy.__file__).startswith(repo + os.sep):
        print('filterpy comes from %s, not %s' % (filterpy.__file__, repo))
        return 3
    files = glob.glob(os.path.join(HERE, 'checks', a.prop.lower() + '_*.py'))
    if len(files) != 1:
        print('no check for', a.prop)
        return 2
    spec = importlib.util.spec_from_file_location('check_' + a.prop.lower(), files[0])
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    global _MOD
    _MOD = mod
    assert mod.PROPERTY == a.prop
    seed = int(os.environ.get('VERIF_SEED') or 1)

    if a.replay:
        r = json.load(open(a.replay))
        sub = [s for s in mod.SUBS if s.name == r['sub']][0]
        try:
            harness.run_case(sub, harness.dec(r['case']), harness.Ctx())
        except harness.Violation as v:
            print('%s/%s: %s' % (a.prop, sub.name, v))
            print('VIOLATION property=%s replay=%s' % (a.prop, os.path.abspath(a.replay)))
            return 1
        print('%s/%s: the property holds on this case' % (a.prop, sub.name))
        return 0

    shards = 4 if a.tier == 'quick' else 16
    jobs = []
    for s in mod.SUBS:
        if a.sub and s.name != a.sub:
            continue
        n = a.n or (s.quick if a.tier == 'quick' else s.thorough)
        k = min(shards, max(1, n // 25))
        for i in range(k):
            jobs.append((a.prop, s.name, seed * 64 + i, a.tier, -(-n // k)))
    order = {s.name: -(s.quick) for s in mod.SUBS}
    jobs.sort(key=lambda j: j[2])
    with multiprocessing.get_context('fork').Pool(a.jobs) as pool:
        res = pool.map(_job, jobs, chunksize=1)

    bad = [r for r in res if r['error']]
    viol = {}
    for r in res:
        if r['violation']:
            v = viol.get(r['sub'])
            if v is None or len(json.dumps(r['violation']['case'])) < len(json.dumps(v['case'])):
                viol[r['sub']] = r['violation']
    per = {}
    samples = []
    for r in res:
        p = per.setdefault(r['sub'], {'evaluations': 0, 'distinct_nontrivial': 0, 'labels': Counter()})
        p['evaluations'] += r['evaluations']
        p['distinct_nontrivial'] += r['nontrivial']
        p['labels'].update(r['labels'])
    got = Counter()
    for r in res:
        for s in r['samples']:
            if got[r['sub']] < 2:
                got[r['sub']] += 1
                samples.append(s)
    for p in per.values():
        p['labels'] = dict(sorted(p['labels'].items()))
    # listed findings: shown while they still fail
    known = getattr(mod, 'KNOWN', {})
    listed = known_lines(a.prop)
    shown = 0
    for kid, line in listed:
        if kid not in known:
            print('known finding %s has no probe' % kid)
            return 3
        try:
            known[kid]()
        except harness.Violation:
            print(line)
            shown += 1
    ev = {'property': a.prop, 'tier': a.tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': sum(p['evaluations'] for p in per.values()),
                       'distinct_nontrivial': sum(p['distinct_nontrivial'] for p in per.values()),
                       'rule': mod.RULE, 'samples': samples, 'per_subcheck': per,
                       'known_findings_seen': shown, 'exhaustive': False},
          'assumptions': getattr(mod, 'ASSUMPTIONS', []),
          'wall_s': round(time.monotonic() - t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for r in bad:
        print('HARNESS ERROR %s/%s: %s' % (a.prop, r['sub'], r['error']))
    for name, v in sorted(viol.items()):
        d = os.path.join(HERE, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s.json' % (a.prop, name))
        with open(path, 'w') as f:
            json.dump({'property': a.prop, 'sub': name, 'message': v['message'], 'case': v['case']},
                      f, indent=1)
        print('%s/%s: %s' % (a.prop, name, v['message'][:3000]))
        print('VIOLATION property=%s replay=%s' % (a.prop, path))
    if viol:
        return 1
    if bad:
        return 3
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs' % (
        a.prop, a.tier, seed, ev['coverage']['evaluations'],
        ev['coverage']['distinct_nontrivial'], ev['wall_s']))
    return 0


if __name__ == '__main__':
    if os.environ.get('VERIF_CHILD') != '1':
        sys.exit(bootstrap())
    sys.exit(main())
