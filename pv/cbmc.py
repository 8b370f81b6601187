"""Loop-free full-domain harnesses on real C headers, decided by CBMC."""
import os
import re
import subprocess
import time
from .vc import Obligation, PROVED, REFUTED, UNKNOWN
import z3


def run(source, functions, includes=('/repo/discodop', ), unwind=66,
		timeout=120, scratch='/tmp'):
	"""source: C text of harness functions. Returns obligations (decided)."""
	path = os.path.join(scratch, 'cbmc_harness.c')
	with open(path, 'w') as out:
		out.write(source)
	procs = []
	for f in functions:
		cmd = ['cbmc'] + ['-I' + i for i in includes] + [path, '--function',
				f, '--unwind', str(unwind), '--unwinding-assertions',
				'--bounds-check', '--pointer-check',
				'--undefined-shift-check', '--no-standard-checks'][:-1]
		procs.append((f, time.time(), subprocess.Popen(['timeout',
				str(timeout)] + cmd, stdout=subprocess.PIPE,
				stderr=subprocess.STDOUT)))
	obs = []
	for f, t, p in procs:
		text = p.communicate()[0].decode('utf8', 'replace')
		found = re.findall(r'(?m)^\[(\S+)\] (.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$',
				text)
		if not found:
			o = Obligation(f, 'cbmc', [], z3.BoolVal(False))
			o.status, o.backend = UNKNOWN, 'cbmc'
			o.model = dict(output=text[-1500:])
			o.vacuous = False
			obs.append(o)
		for pid, desc, res in found:
			o = Obligation(f, re.sub(r'line \d+ ', '', desc), [],
					z3.BoolVal(False), where=pid)
			o.status = PROVED if res == 'SUCCESS' else (
					REFUTED if res == 'FAILURE' else UNKNOWN)
			o.backend, o.time = 'cbmc 6.11.0', (time.time() - t) / len(found)
			o.vacuous = False
			obs.append(o)
	return obs
