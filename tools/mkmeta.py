"""Writes properties.jsonl and MANIFEST.json from meta/*.py (one file per property: P = dict(...)). Run by hand, never by a check."""
import glob
import json
import os
import sys

R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contract-based deductive verification: contracts and loop invariants over the current source, obligations discharged by z3/cvc5'
BASE = ('Trusted: clang front end, extractor, obligation generator and its library contracts, solvers; reals for doubles unless stated. '
        'A failed obligation is replayed by searching for an input on which the executable contract fails against the real code (sanitizers on); '
        'that bounded search is not counted as proof.')
props, checks, na = [], [], []
for f in sorted(glob.glob(os.path.join(R, 'meta', '*.py'))):
    ns = {}
    exec(open(f).read(), ns)
    p = ns['P']
    assert len(p['title']) <= 80, (f, len(p['title']))
    props.append(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p.get('over', ['inputs']), text=p['text']),
                      why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                                                            observe_at=p.get('observe', []), hook_needed=None)))
    if p.get('na'):
        na.append(dict(property=p['id'], reason=p['na']))
    else:
        c = p['id'].lower()
        checks.append(dict(property=p['id'], quick_cmd=f'VERIF_TIER=quick python3-vt checks/{c}.py', thorough_cmd=f'VERIF_TIER=thorough python3-vt checks/{c}.py',
                           evidence_file=f'evidence/{p["id"]}.json', technique=p.get('technique', TECH), level=p.get('level', 'proof'),
                           level_note=p['note'] + ' ' + BASE))
with open(os.path.join(R, 'properties.jsonl'), 'w') as o:
    for p in props:
        o.write(json.dumps(p) + '\n')
json.dump(dict(version=1, setup_cmd='mkdir -p build && bash tools/build.sh build/cxx2json', checks=checks, not_applicable=na,
               notes='Contracts are written against the API of /repo; every run re-extracts the current source (tools/cxx2json.cpp), generates the obligations '
                     '(engine/vc.py) and discharges them (z3, cvc5).'), open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(json.load(open(os.path.join(R, 'MANIFEST.json'))), json.load(open('/root/.vp/MANIFEST.schema.json')))
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in props:
        jsonschema.validate(p, s)
except ImportError:
    pass
print(len(props), 'properties', len(checks), 'checks', len(na), 'n/a')

# the generated parts of DESIGN.md: between <!-- NAME --> and <!-- end --> lines
import re
D = os.path.join(R, 'DESIGN.md')
t = open(D).read()


def part(name, text):
    global t
    t = re.sub(r'(<!-- %s -->\n).*?(<!-- end -->)' % name, lambda m: m.group(1) + text + m.group(2), t, flags=re.S)


def assumptions(c):
    f = os.path.join(R, 'checks', c + '.py')
    if not os.path.exists(f):
        return []
    import ast
    for x in ast.walk(ast.parse(open(f).read())):
        if isinstance(x, ast.keyword) and x.arg == 'assumptions':
            return [''.join(y.value for y in ast.walk(e) if isinstance(y, ast.Constant)) for e in getattr(x.value, 'elts', [])]
    return []


rows, ass = '| id | property | functions under contract | how decided | bounded replay |\n|---|---|---|---|---|\n', ''
for f in sorted(glob.glob(os.path.join(R, 'meta', '*.py'))):
    ns = {}
    exec(open(f).read(), ns)
    p = ns['P']
    if p.get('na'):
        continue
    c = p['id'].lower()
    h = [x for x in ('cpp', 'py') if os.path.exists(os.path.join(R, 'harness', c + '.' + x))]
    rows += '| %s | %s | %s | %s | %s |\n' % (p['id'], p['title'], '; '.join('%s: `%s`' % m for m in p['mech']), p['note'].replace('|', '/'), ', '.join('`harness/%s.%s`' % (c, x) for x in h) or 'none')
    a = assumptions(c)
    if a:
        ass += '- **%s**: %s.\n' % (p['id'], '; '.join(a))
part('properties', rows)
part('assumptions', ass)
part('not applicable', ''.join('- **%s** %s: %s\n' % (n['property'], next(p['title'] for p in props if p['id'] == n['property']), n['reason']) for n in na) or 'none\n')
rows = '| change | property | what it breaks | needs |\n|---|---|---|---|\n'
for d in sorted(glob.glob(os.path.join(R, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d))
    rows += '| %s | %s | %s | %s |\n' % (os.path.basename(os.path.dirname(d)), m['property'], m['what_it_breaks'], m['needs'])
part('seeds', rows)
part('findings', ''.join('- ' + x for x in open(os.path.join(R, 'known_findings.txt')) if x.startswith(('fixed', 'property', 'KNOWN', 'known'))))
open(D, 'w').write(t)
