"""Fill the tables of DESIGN.md (findings, planted bugs) from their sources."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
head = open(V+'/tools/design_head.md').read()
tail = open(V+'/tools/design_tail.md').read()
f = json.load(open(V+'/known_findings.json'))['findings']
rows = ['* %s `%s` (%s): %s' % (k['id'], k.get('commit', ''), k['property'], re.sub(r'^fixed: property=\w+ \w+ ', '', k['text'])) for k in f if k['status'] == 'fixed']
rows += ['', 'Open (recorded, not repaired):'] + ['* %s (%s): %s' % (k['id'], k['property'], k['text']) for k in f if k['status'] == 'open']
s = ['', '| id | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m = json.load(open(d))
    s.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['needs'], m.get('caught_by', m['property'])))
open(V+'/DESIGN.md', 'w').write(head+tail.replace('@@FINDINGS', '\n'.join(rows)).replace('@@SEEDS', '\n'.join(s)))
