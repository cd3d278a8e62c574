#!/usr/bin/env python3
"""check.py <property> : decides one property against /repo's working tree (see DESIGN.md)."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.path.insert(0, os.path.join(VERIF, 'engine'))
import build
from checks import CHECKS

def demangle(names):
    if not names:
        return []
    r = subprocess.run(['c++filt', '-p'], input='\n'.join(names), text=True, stdout=subprocess.PIPE)
    return r.stdout.split('\n')[:len(names)]

def known():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}

def replay(prop, h, viol, n):
    """re-runs the counterexample on an uninstrumented build; returns (reproduced, path of the replay file)"""
    exe = build.build(h['src'], h['libs'], 'plain' + ('ub' if h.get('kind', 'sym').endswith('ub') else ''), h.get('flags', ''))
    d = os.path.join(VERIF, 'replays'); os.makedirs(d, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='sxreplay')
    try:
        vf = os.path.join(scratch, 'values')
        with open(vf, 'w') as f:
            f.write(' '.join(v for _, v in viol['values']))
        try:
            r = subprocess.run([exe, vf, scratch + '/w'] if os.mkdir(scratch + '/w') is None else [], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120, text=True, errors='replace', cwd=scratch)
            out, rc = r.stdout, r.returncode
        except subprocess.TimeoutExpired as e:
            out, rc = 'SXVIOL timeout\n', 10
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    ok = rc == 10 or rc < 0 or (rc not in (0, 11))
    path = os.path.join(d, '%s-%d.txt' % (prop, n))
    with open(path, 'w') as f:
        f.write('property %s, harness %s\nfailed assertion: %s\nvalues:\n' % (prop, h['src'], viol['key']))
        for k, v in viol['values']:
            f.write('  %s = %s\n' % (k, v))
        f.write('documents as seen by the symbolic run:\n%s\nreplay on the uninstrumented build (exit %s):\n%s\n' % (viol.get('docs', ''), rc, out[-20000:]))
    return ok, path

def validate(h, samples):
    """re-runs passing paths on the uninstrumented build; returns (agreeing, disagreeing)"""
    exe = build.build(h['src'], h['libs'], 'plain' + ('ub' if h.get('kind', 'sym').endswith('ub') else ''), h.get('flags', ''))
    scratch = tempfile.mkdtemp(prefix='sxval')
    def one(k):
        d = '%s/%d' % (scratch, k); os.mkdir(d); os.mkdir(d + '/w')
        open(d + '/values', 'w').write(' '.join(samples[k]))
        try:
            r = subprocess.run([exe, d + '/values', d + '/w'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120, text=True, errors='replace', cwd=d)
            return r.returncode in (0, 11), r.stdout
        except subprocess.TimeoutExpired:
            return False, 'timeout'
    try:
        with ThreadPoolExecutor(build.JOBS) as ex:
            res = list(ex.map(one, range(len(samples))))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for ok, out in res:
        if not ok and os.environ.get('SX_DEBUG'):
            print(out[-3000:])
    return sum(1 for ok, _ in res if ok), sum(1 for ok, _ in res if not ok)

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    os.environ['VERIF_TIER'] = tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = CHECKS[prop]
    t0 = time.time()
    hs = [h for h in c['harnesses'] if not (h.get('tier') and h['tier'] != tier)]
    results, confirmed, unconfirmed, missing = [], [], [], []
    kf = known()
    n = 0
    for h in hs:
        exe = build.build(h['src'], h['libs'], h.get('kind', 'sym'), h.get('flags', ''))
        out = tempfile.mktemp(suffix='.json')
        budget = h.get(tier, h.get('quick', 60))
        env = dict(os.environ); env.update(h.get('env', {}))
        wd = tempfile.mkdtemp(prefix='sxrun')
        try:
            r = subprocess.run([exe, '-t', str(budget), '-s', str(seed), '-j', str(build.JOBS), '-o', out] + h.get('args', []), env=env, cwd=wd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        finally:
            shutil.rmtree(wd, ignore_errors=True)
        if r.returncode != 0 or not os.path.exists(out):
            print('check error: %s ended with %d\n%s' % (h['src'], r.returncode, r.stdout[-2000:]))
            return 2
        j = json.load(open(out)); os.unlink(out)
        j['harness'] = h['src']; j['budget_s'] = budget
        j['validated'], j['disagreeing'] = validate(h, j['samples'])
        if j['disagreeing']:
            print('note: %d of the sampled passing paths of %s fail on the uninstrumented build' % (j['disagreeing'], h['src']))
        results.append(j)
        print('%s: %d paths, %d decisions, %d queries (%d sat, %d unsat, %d unknown), solver %.1f s, wall %.1f s, complete=%s%s' % (
            h['src'], j['paths'], j['decisions'], j['queries'], j['sat'], j['unsat'], j['unknown'], j['solver_s'], j['wall_s'], j['complete'],
            '' if j['complete'] else ' (timeout=%s pending=%d killed=%d diverged=%d lost=%d) %s' % (j['timeout'], j['pending'], j['killed'], j['diverged'], j['lost'], {k: v for k, v in j['reasons'].items() if not k.startswith('(pinned)')})))
        for v in j['violations']:
            n += 1
            ok, path = replay(prop, h, v, n)
            (confirmed if ok else unconfirmed).append((h, v, path))
        for m in h.get('must', []):
            if m not in j['reached'] and not j['violations']:
                missing.append('%s:%s' % (h['src'], m))
    listed, fresh = [], []
    for h, v, path in confirmed:
        hit = [f for f in kf['findings'] if f['property'] == prop and f['key'] == v['key']]
        (listed if hit else fresh).append((h, v, path, hit))
    tot = lambda k: sum(r[k] for r in results)
    fns = sorted({f for r in results for f in r['functions'] if f != '(assertion)'})
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot('paths'),
            'transitions': tot('decisions'),
            'traces_validated_against_impl': tot('validated'),
            'traces_disagreeing_with_impl': tot('disagreeing'),
            'samples': [{'harness': r['harness'], 'path_inputs': s[:48]} for r in results for s in r['samples'][:3]][:8],
            'exhaustive': all(r['complete'] for r in results),
            'explanation': 'states = execution paths of the real code explored, one native run each; transitions = branch decisions on symbolic values along them; '
                           'every decision not yet explored from the other side was put to Z3, and the path was either shown infeasible or scheduled; traces validated = sampled passing paths re-run on the uninstrumented build with the same verdict.',
            'solver_queries': tot('queries'), 'queries_sat': tot('sat'), 'queries_unsat': tot('unsat'), 'queries_unknown': tot('unknown'),
            'solver_seconds': round(tot('solver_s'), 3),
            'functions_encoded': demangle([f for f in fns]),
            'bounds': c['bounds'],
            'outside': c['outside'],
            'harnesses': [{k: r[k] for k in ('harness', 'paths', 'decisions', 'queries', 'complete', 'timeout', 'pending', 'killed', 'diverged', 'lost', 'stale', 'pinned', 'budget_s', 'wall_s', 'solver_s', 'max_decisions', 'reached', 'reasons')} for r in results],
        },
        'assumptions': c.get('assumptions', []) + ENGINE_ASSUMPTIONS,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(fresh),
    }
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    with open(VERIF + '/evidence/%s.json' % prop, 'w') as f:
        json.dump(ev, f, indent=1)
    for h, v, path in unconfirmed:
        print('note: counterexample of %s did not reproduce on the uninstrumented build and is not reported: %s (%s)' % (h['src'], v['key'], path))
    for h, v, path, hit in listed:
        print('KNOWN-FINDING: property=%s %s' % (prop, hit[0]['what']))
    for h, v, path, hit in fresh:
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  %s: %s' % (h['src'], v['key']))
    if fresh:
        return 1
    if missing:
        print('check error: never reached: ' + ', '.join(missing))
        return 2
    return 0

ENGINE_ASSUMPTIONS = [
    'libxml2 parses the document text correctly: symbolic attribute text reaches the code through the content it returns',
    'the C library number parsers, character classifiers and memory comparisons behave as their summaries in engine/rt.cpp state',
    'text of diagnostics is not examined',
]

if __name__ == '__main__':
    try:
        rc = main()
    except Exception as e:
        print('check error: %s' % e)
        rc = 2
    sys.exit(rc)
