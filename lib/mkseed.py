"""Development tool: write a planted bug. usage: mkseed.py SPECFILE
A spec file: python defining SEEDS = [dict(id, property, edits=[(file, old,
new)], needs, breaks, demo)]."""
import os
import sys
import json
import shutil
import subprocess
import tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for s in ns['SEEDS']:
	if only and s['id'] not in only:
		continue
	d = '/verif/seeded/' + s['id']
	os.makedirs(d, exist_ok=True)
	tmp = tempfile.mkdtemp(prefix='mkseed')
	for f, old, new in s['edits']:
		src = open('/repo/' + f, encoding='utf8').read()
		assert src.count(old) == 1, (s['id'], f, src.count(old), old)
		for side, text in (('a', src), ('b', src.replace(old, new))):
			p = os.path.join(tmp, side, f)
			os.makedirs(os.path.dirname(p), exist_ok=True)
			if side == 'b' and os.path.exists(p):
				text = open(p).read().replace(old, new)
			if side == 'a' and os.path.exists(p):
				continue
			open(p, 'w', encoding='utf8').write(text)
	diff = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', 'a', 'b'],
			cwd=tmp, stdout=subprocess.PIPE).stdout.decode('utf8')
	shutil.rmtree(tmp)
	open(d + '/patch.diff', 'w').write(diff)
	open(d + '/demo.sh', 'w').write('#!/bin/bash\n# run in /repo after the '
			'build; fails if the property is broken\n'
			'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=. exec /opt/venv/bin/python '
			'"$(dirname "$0")/demo.py"\n')
	os.chmod(d + '/demo.sh', 0o755)
	open(d + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
	json.dump(dict(property=s['property'], needs=s['needs'],
			what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
	print(s['id'], len(diff))
