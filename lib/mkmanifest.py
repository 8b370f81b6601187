"""Write MANIFEST.json from props/*.py and properties.jsonl."""
import os
import sys
import json
import importlib
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True

NA = {}
with open(os.path.join(VERIF, 'lib', 'not_applicable.json')) as inp:
	NA = json.load(inp)
checks, na = [], []
with open(os.path.join(VERIF, 'properties.jsonl')) as inp:
	props = [json.loads(line) for line in inp]
for p in props:
	pid = p['id']
	if not os.path.exists(os.path.join(VERIF, 'props', pid.lower() + '.py')):
		na.append(dict(property=pid, reason=NA[pid]))
		continue
	P = importlib.import_module('props.' + pid.lower())
	proof = P.LEVEL == 'proof'
	checks.append(dict(property=pid, quick_cmd='./check %s' % pid,
			thorough_cmd='VERIF_TIER=thorough ./check %s' % pid,
			evidence_file='evidence/%s.json' % pid,
			technique=getattr(P, 'TECHNIQUE',
				'contract-based deductive verification: obligations generated '
				'from the current source, discharged by SMT; bounded run-time '
				'contract checking of the functions outside its reach' if proof
				else 'contracts on the real functions; bounded stand-in: '
				'contracts evaluated at run time on generated cases '
				'(functions outside the deductive engine\'s reach)'),
			level=P.LEVEL, level_note=getattr(P, 'LEVEL_NOTE',
				'Bounded: every generated case runs the real code and '
				'compares it with an independent oracle; nothing is counted as '
				'proved. Assumes the oracle states the property.')))
out = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
		notes='Each check rebuilds what it needs from /repo in a scratch '
		'directory. No hooks in /repo are needed.')
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as o:
	json.dump(out, o, indent=1)
	o.write('\n')
