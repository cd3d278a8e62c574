#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below and checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
PARSE = 'lib/src/parse/'
import glob
def where(f):
    if '/' in f or '*' in f: return f if '/' in f else PARSE + f
    for d in ('lib/src/parse/', 'lib/src/gen/', 'app/commsdsl2comms/src/'):
        if os.path.exists('/repo/' + d + f): return d + f
    c = sorted(glob.glob('/repo/app/*/src/' + f))
    return c[0][len('/repo/'):] if c else PARSE + f
def p(id, title, statement, text, why, files, mech, over=('inputs',), state=None, observe=('the public classes of lib/include/commsdsl/parse',), level_note=None):
    if any(where(f).startswith('app/') for f in files): observe = ('the files written by the generator',)
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
             anchors=dict(files=[where(f) for f in files], mechanism=[dict(name=n, where=where(w)) for n, w in mech], observe_at=list(observe), hook_needed=None))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b) for a, b in state]
    PROPS.append(d); NOTES[id] = level_note
PROPS, NOTES, NA = [], {}, []
exec(open(os.path.join(V, 'tools/props.py')).read())
SYM = 'symbolic execution of the compiled code (own LLVM instrumentation), path by path, decided by Z3'
def main():
    with open(V + '/properties.jsonl', 'w') as f:
        for d in PROPS: f.write(json.dumps(d) + '\n')
    checks = []
    for d in PROPS:
        i = d['id']
        if i not in CHECKS: continue
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i, technique=SYM, level='model_checking',
            level_note=NOTES[i] or ('Every path of the real code within the stated bounds is decided by the solver (%s). Outside: %s. Trusted: clang, the instrumentation, Z3, libxml2, the summaries of the C library number parsers; counterexamples and a sample of the passing paths are replayed on an uninstrumented build.' % (c['bounds'], c['outside']))))
    missing = [d['id'] for d in PROPS if d['id'] not in CHECKS and d['id'] not in [n for n, _ in NA]]
    na = [dict(property=a, reason=b) for a, b in NA if a not in CHECKS] + [dict(property=a, reason='No check is built yet.') for a in missing]
    json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
    open(V + '/MANIFEST.json', 'a').write('\n')
def design():
    T = lambda n: open(V + '/tools/' + n).read()
    k = json.load(open(V + '/known_findings.json'))
    o = T('design_head.md')
    o += '\n## 5. Planted bugs (`seeded/`) and the checks which catch them\n\n' + T('bugs.md')
    o += '\n## 6. Known findings (recorded, not repaired)\n\n' + ''.join('* %s `%s`: %s\n' % (f['property'], f['key'], f['what']) for f in k['findings'])
    o += '\nThey take a decision of the maintainers on what such code should contain; the repair would change files users rely on.\n'
    o += '\n## 7. Genuine defects found and repaired in /repo (`fix:` commits)\n\n' + ''.join('* %s\n' % f[len('fixed: '):] for f in k['fixed'])
    o += '\n## Appendix: how each property is decided\n\nFor all: technique of section 2; oracle = the reference model in the harness, written from the documentation in `/repo/doc`; ' \
         'cost (quick) = seconds to two minutes of 8 cores after building (see `evidence/<id>.json` for paths, queries and solver seconds).\n'
    for d in PROPS:
        i = d['id']
        o += '\n### %s %s\n\n%s\n\n' % (i, d['title'], d['statement'])
        if i in CHECKS:
            c = CHECKS[i]
            o += '* Decided for: %s.\n* Harnesses: %s, on %s.\n* Within: %s.\n* Outside: %s.\n* What tests cannot reach: %s\n' % (d['quantifier']['text'],
                ', '.join('`harness/%s` (marks: %s)' % (h['src'], ' '.join(h['must'])) for h in c['harnesses']), ', '.join('`%s`' % f for f in d['anchors']['files']), c['bounds'], c['outside'], d['why_tests_cant'])
        else: o += '* Not applicable: %s\n' % dict(NA).get(i, 'no check is built yet.')
    open(V + '/DESIGN.md', 'w').write(o)
main()
design()
