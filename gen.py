#!/usr/bin/env python3
"""Regenerates MANIFEST.json and DESIGN.md from props.py, rules/, notes/ and seeded/."""
import ast, glob, json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from props import P            # noqa: E402
NA = json.load(open('notes/not_applicable.json'))


def meta(path):
    t = ast.parse(open(path).read())
    d = {'doc': ast.get_docstring(t) or '', 'ASSUMPTIONS': [], 'TECHNIQUE': '', 'NOTE': ''}
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in d:
            d[n.targets[0].id] = ast.literal_eval(n.value)
    src = open(path).read()
    d['rules'] = []
    for n in ast.walk(t):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'rule':
            try:
                d['rules'].append((ast.literal_eval(n.args[0]), ast.literal_eval(n.args[1])))
            except Exception:
                pass
    return d


checks, na = [], []
sec = []
for p in P:
    f = 'rules/%s.py' % p['id'].lower()
    sec.append('### %s  %s\n' % (p['id'], p['title']))
    if os.path.exists(f):
        m = meta(f)
        checks.append(dict(property=p['id'], quick_cmd='python3 check.py ' + p['id'],
                           thorough_cmd='python3 check.py ' + p['id'],
                           technique=m['TECHNIQUE'] or 'static dataflow/dominance analysis of compiler IR',
                           level='other',
                           level_note=(m['NOTE'] or 'Decides the listed rules for every path and call site of the analysed '
                                       'units, without running anything; what the rules do not cover is stated in DESIGN.md.')))
        sec.append(m['doc'].split(':', 1)[-1].strip() + '\n')
        if m['rules']:
            sec.append('Rules decided on every run:\n')
            sec += ['- `%s`: %s.' % r for r in m['rules']]
            sec.append('')
        if m['ASSUMPTIONS']:
            sec.append('Assumes: ' + '; '.join(m['ASSUMPTIONS']) + '.\n')
    else:
        r = NA.get(p['id'], 'No sound static rule has been built for this property yet.')
        na.append(dict(property=p['id'], reason=r))
        sec.append('Not applicable: ' + r + '\n')
json.dump(dict(version=1, setup_cmd='python3 check.py setup', checks=checks, not_applicable=na),
          open('MANIFEST.json', 'w'), indent=1)
head = open('notes/design_head.md').read()
find = []
if os.path.exists('known_findings.jsonl'):
    for l in open('known_findings.jsonl'):
        if l.strip():
            d = json.loads(l)
            find.append('- %s %s: %s' % (d['property'], ('fixed in ' + d['commit']) if d['status'] == 'fixed' else
                                         'KNOWN (`%s`)' % d['key'], d['what']))
seeds = []
caught = json.load(open('notes/caught.json')) if os.path.exists('notes/caught.json') else {}
for d in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(d))
    i = d.split('/')[1]
    seeds.append('| %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'], ', '.join(caught.get(i, [])) or '-'))
open('DESIGN.md', 'w').write(
    head + '\n## Properties\n\n' + '\n'.join(sec) + '\n## Findings in the repository\n\n' + '\n'.join(find) +
    '\n\n## Planted bugs and what catches them\n\n| id | property | breaks | caught by |\n|---|---|---|---|\n' + '\n'.join(seeds) +
    '\n\n' + open('notes/design_tail.md').read())
try:
    import jsonschema
    jsonschema.validate(json.load(open('MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
except ImportError:
    pass
print(len(checks), 'checks,', len(na), 'not applicable,', len(seeds), 'seeds')
