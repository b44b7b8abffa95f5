"""fills the tables of DESIGN.md (between markers) from the evidence files, known_findings.json and seeded/"""
import json, os, re, glob, importlib, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
p = os.path.join(H, 'DESIGN.md')
s = open(p).read()


def put(tag, text):
    global s
    a, b = '<!-- %s -->' % tag, '<!-- /%s -->' % tag
    new = a + '\n' + text.rstrip() + '\n' + b
    if '@@%s@@' % tag in s:
        s = s.replace('@@%s@@' % tag, new)
    else:
        i, j = s.index(a), s.index(b)
        s = s[:i] + new + s[j + len(b):]


rows, bounded = ['| property | level | contract units | obligations | wall (s) | note |', '|---|---|---|---|---|---|'], []
for l in open(os.path.join(H, 'properties.jsonl')):
    q = json.loads(l)
    i = q['id']
    f = os.path.join(H, 'contracts', i.lower() + '.py')
    if not os.path.exists(f):
        rows.append('| %s %s | not applicable | - | - | - | |' % (i, q['title']))
        continue
    m = importlib.import_module('contracts.' + i.lower())
    e = os.path.join(H, 'evidence', i + '.json')
    e = json.load(open(e)) if os.path.exists(e) else {}
    c = e.get('coverage', {})
    lev = getattr(m, 'LEVEL', 'proof')
    rows.append('| %s %s | %s | %d | %s | %s | %s |' % (i, q['title'], lev, len(m.UNITS), c.get('obligations', ''), round(e.get('wall_s', 0)), getattr(m, 'NOTE', '').replace('\n', ' ')))
    if lev != 'proof':
        bounded.append('* %s: %s (harness %s)' % (i, q['title'], ', '.join(h['name'] for h in m.HARNESS)))
put('TABLE', '\n'.join(rows))
put('BOUNDED', '\n'.join(bounded) or 'none as the deciding step')
k = json.load(open(os.path.join(H, 'known_findings.json')))
put('FIXED', '\n'.join('* ' + x['entry'] for x in k))
rows = ['| seed | property | needs | breaks | caught by |', '|---|---|---|---|---|']
cp = os.path.join(H, 'tools', 'catches.json')
catches = json.load(open(cp)) if os.path.exists(cp) else {}
for d in sorted(glob.glob(os.path.join(H, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    rows.append('| %s | %s | %s | %s | %s |' % (n, m['property'], m['needs'], m['what_it_breaks'], catches.get(n, '')))
put('SEEDS', '\n'.join(rows))
open(p, 'w').write(s)
