#!/usr/bin/env python3
"""Writes DESIGN.md from docs/design_head.md, specs.py, the harnesses, known_findings.json and docs/seeds.json."""
import json, os, re, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, R)
import specs
out = [open(R + '/docs/design_head.md').read()]
props = {}
for l in open(R + '/properties.jsonl'):
    d = json.loads(l); props[d['id']] = d
num = lambda k: int(k[1:])
out.append('\n## 5. Properties, methods and bounds\nAll are decided as in section 1 (symbolic execution, z3); listed are the code encoded and, per harness, the symbolic inputs and bounds.\n')
n = 0
for k in sorted(specs.SPECS, key=num):
    s = specs.SPECS[k]; out.append('### %s %s\n' % (k, props[k]['title'])); out.append('Encoded: ' + '; '.join(s['functions']) + '\n')
    for h in s['harness']:
        t = open(R + '/harness/' + h).read()
        for m in re.finditer(r'^\s*SV_HARNESS(_T|_FP|_FP_T)?\(\s*(\w+)\s*,\s*((?:"(?:[^"\\]|\\.)*"\s*)+)\)', t, re.M):
            b = ''.join(re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(3))); tag = {'_T': ' (thorough)', '_FP': ' (IEEE)', '_FP_T': ' (IEEE, thorough)'}.get(m.group(1) or '', '')
            out.append('- `%s`%s: %s' % (m.group(2), tag, b)); n += 1
    out.append('')
out.append('%d harnesses in all.\n' % n)
k = json.load(open(R + '/known_findings.json'))
out.append('## 6. Defects found\nEach was shown by a replayed counterexample against the real code. Repaired by one `fix:` commit each (the check passes on the repaired tree and fails again if it returns):\n')
for e in sorted(k, key=lambda e: num(e['property'])):
    if e['status'] == 'fixed': out.append('- %s `%s` %s' % (e['property'], e['commit'], e['what']))
o = [e for e in k if e['status'] != 'fixed']
out.append('\nRecorded, not repaired (KNOWN-FINDING):\n'); out += ['- %s %s' % (e['property'], e['what']) for e in o] or ['- none']
p = R + '/docs/seeds.json'
if os.path.exists(p):
    out.append('\n## 7. Planted bugs (`seeded/`) and the checks that catch them\nWritten from the property texts, confirmed in scratch copies (builds, stable tests pass, demo fails with it and passes without).\n\n| change | what it breaks | needs | caught by |\n|---|---|---|---|')
    r = json.load(open(p))
    for i in sorted(r):
        m = R + '/seeded/%s/meta.json' % i
        if not os.path.exists(m): continue
        m = json.load(open(m)); out.append('| %s | %s | %s | %s |' % (i, m['what_it_breaks'], m['needs'], r[i]))
    if os.path.exists(R + '/docs/design_tail.md'): out.append(open(R + '/docs/design_tail.md').read())
open(R + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
