"""Update the table of planted bugs in DESIGN.md."""
import os
import re
import glob
import json
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for fn in sorted(glob.glob(os.path.join(VERIF, 'seeded/*/meta.json'))):
	with open(fn) as inp:
		m = json.load(inp)
	rows.append((m['property'], fn.split('/')[-2], m['needs'],
			m['what_it_breaks'], m.get('caught', 'yes')))
text = ['<!-- seeds -->', '## Planted bugs', '',
	'| property | id | needs | breaks | caught |', '|---|---|---|---|---|']
text += ['| %s | %s | %s | %s | %s |' % tuple(x.replace('|', '\\|') for x in r)
		for r in sorted(rows)]
text += ['', 'Each is caught by the check of its own property.', '<!-- end -->']
path = os.path.join(VERIF, 'DESIGN.md')
with open(path) as inp:
	s = inp.read()
s = s.replace('SEEDS_TABLE', '<!-- seeds -->\n<!-- end -->')
a, b = s.index('<!-- seeds -->'), s.index('<!-- end -->') + 12
with open(path, 'w') as o:
	o.write(s[:a] + '\n'.join(text) + s[b:])
