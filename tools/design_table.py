"""Rewrites the generated part of DESIGN.md (between the markers) from the checks, properties.jsonl, MANIFEST.json, seeded/ and known_findings.json:
VP=1 PYTHONPATH=/repo:/verif /opt/venv/bin/python tools/design_table.py"""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = ['/repo', ROOT]
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
props = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
man = {c['property']: c for c in json.load(open(ROOT + '/MANIFEST.json'))['checks']}
out = []
for p in props:
    ch = importlib.import_module('checks.' + p['id'].lower()).check
    m = man[p['id']]
    out.append('### %s %s\n' % (p['id'], p['title']))
    out.append('*Over:* %s. *Why not tests:* %s\n' % (p['quantifier']['text'].rstrip('.'), p['why_tests_cant']))
    out.append('*Decided by:* %s. %s\n' % (m['technique'], m['level_note']))
    for s in ch.subs:
        doc = ' '.join((s.fn.__doc__ or '').split())
        n = '%d generated (thorough %d)' % (s.quick, s.thorough) if s.strategy is not None else ''
        f = '%d fixed' % len(list(s.fixed())) if s.fixed else ''
        out.append('- `%s` — %s%s' % (s.name, ' + '.join(x for x in (n, f) if x), ': ' + doc if doc else ''))
    out.append('')
text = open(ROOT + '/DESIGN.md').read()
a, b = '<!-- generated: properties -->\n', '<!-- end generated -->\n'
i, j = text.index(a) + len(a), text.index(b)
open(ROOT + '/DESIGN.md', 'w').write(text[:i] + '\n'.join(out) + text[j:])
