"""Fills the tables of DESIGN.md (doc/design.in) from properties, evidence, findings and seeded bugs."""
import ast, glob, json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
j = lambda *a: os.path.join(V, *a)
props = [json.loads(l) for l in open(j('properties.jsonl'))]
man = json.load(open(j('MANIFEST.json')))
claimed = {c['property_id'] if 'property_id' in c else c['property']: c for c in man['checks']} if isinstance(man['checks'], list) else man['checks']
out = []
for p in props:
    c = claimed.get(p['id'])
    if not c:
        continue
    m = ast.parse(open(j('checks', p['id'] + '.py')).read())
    doc = re.sub(r'\s+', ' ', ast.get_docstring(m))
    asm = []
    for n in m.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'ASSUMPTIONS':
            asm = ast.literal_eval(n.value)
    try:
        e = json.load(open(j('evidence', p['id'] + '.json')))
        n = e['coverage'].get('obligations')
        t = '%.0f s' % max(1, e['wall_s'])
    except Exception:
        n, t = '?', '?'
    out.append('### %s - %s\n\n%s\n\n*Obl.* %s, %s. *Bounds and level:* %s%s\n' % (
        p['id'], p['title'], doc, n, t, c.get('level_note', ''), (' *Assumes:* ' + '; '.join(asm) + '.') if asm else ''))
na = man['not_applicable']
nas = '## 3. Not claimed\n\n' + '\n'.join('* **%s** (%s): %s' % (x['property'] if 'property' in x else x['property_id'],
    next(p['title'] for p in props if p['id'] == (x.get('property') or x.get('property_id'))), x['reason']) for x in na)
fx, fi = [], []
for l in open(j('known_findings.txt')):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m:
        fx.append('* %s, commit %s: %s' % m.groups())
    m = re.match(r'finding: property=(\S+) (.*)', l)
    if m:
        fi.append('* %s: %s' % m.groups())
sd = ['| bug | property | needs | caught by |', '|---|---|---|---|']
try:
    caught = json.load(open(j('dev', 'caught.json')))
except Exception:
    caught = {}
for d in sorted(glob.glob(j('seeded', '*'))):
    m = json.load(open(os.path.join(d, 'meta.json')))
    i = os.path.basename(d)
    sd.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), ', '.join(caught.get(i, [])) or 'none'))
s = open(j('doc', 'design.in')).read()
for k, v in (('TABLE', '\n'.join(out)), ('NA', nas), ('FIXED', '\n'.join(fx)), ('FINDINGS', '\n'.join(fi)), ('SEEDS', '\n'.join(sd))):
    s = s.replace('@@%s@@' % k, v)
open(j('DESIGN.md'), 'w').write(s)
