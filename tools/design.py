"""writes DESIGN.md: tools/design.txt (prose), the rules' own descriptions, the planted bugs and the findings"""
import sys, os, json, glob, importlib, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
txt = open(V + '/tools/design.txt').read()
pre, rest = txt.split('\n@@PROPERTIES\n')
props, post = rest.split('\n@@END\n')
notes = {}
for part in re.split(r'\n(?=@[A-Z]\d\d)', '\n' + props.strip()):
    m = re.match(r'\n?@([A-Z]\d\d)\n?', part)
    if m:
        notes[m.group(1)] = part[m.end():].strip()
P = [json.loads(l) for l in open(V + '/properties.jsonl')]
M = json.load(open(V + '/MANIFEST.json'))
na = {x['property_id'] if 'property_id' in x else x.get('property', x.get('id')): x['reason'] for x in M['not_applicable']}
out = [pre.strip(), '', '## The properties', '']
for p in P:
    i = p['id']
    out += ['### %s %s' % (i, p['title']), '']
    f = '%s/engine/rules/%s.py' % (V, i.lower())
    if os.path.exists(f):
        m = importlib.import_module('engine.rules.' + i.lower())
        if i in notes:
            out += [notes[i], '']
        out += ['Rules:', '']
        out += ['- `%s`: %s' % (r.__name__, ' '.join((r.__doc__ or '').split())) for r in m.RULES] + ['']
    else:
        out += ['Not claimed: ' + na.get(i, '') + ('\n\n' + notes[i] if i in notes else ''), '']
out += ['## Planted bugs', '', 'Each was written from the text of its property and the code, confirmed with its demonstration (passes on the tree, fails with the patch) and against the stable tests, and then shown to the checks.', '', '| bug | property | what it needs | caught |', '|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d))
    out.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['needs'].replace('|', '/').replace('\n', ' '), m.get('caught', 'by the check of its property')))
K = json.load(open(V + '/known_findings.json'))
out += ['', '## Genuine defects', '', 'Recorded, not repaired (the repair is not small, or needs a decision of the maintainers); each is listed in known_findings.json by its site:', '']
out += ['- %s `%s`: %s' % (k['property'], k['key'].split('|')[1], k['what']) for k in K['findings']]
out += ['', 'Repaired by `fix:` commits in /repo:', '']
out += ['- ' + re.sub(r'^fixed: property=', '', k) for k in K['fixed']]
out += ['', post.strip(), '']
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
