"""Run the check of one property.

Usage: check.py PROP [--replay FILE]

Stage 1 (deductive): contracts of /verif/props/<prop>.py -> verification
conditions generated from /repo's current sources -> SMT solvers / CBMC.
Stage 2 (bounded): the same contracts evaluated at run time on the real code,
over the cases of /verif/harness/<prop>.py.
"""
import os
import re
import sys
import json
import time
import shutil
import tempfile
import importlib
import subprocess
import traceback
import concurrent.futures

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
REPO = '/repo'
PY = '/opt/venv/bin/python'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')


def knownfindings(prop):
	"""Read known-findings.txt: {key: text}; fixed entries are ignored."""
	res = {}
	path = os.path.join(VERIF, 'known-findings.txt')
	if os.path.exists(path):
		with open(path) as inp:
			for line in inp:
				m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
				if m and m.group(1) == prop:
					res[m.group(2)] = m.group(3).strip()
	return res


def build(mods, scratch):
	ext = os.path.join(scratch, 'ext')
	cache = os.environ.get('VERIF_EXTCACHE')  # development only
	if cache and os.path.isdir(cache):
		return cache, ''
	os.makedirs(ext)
	p = subprocess.run([PY, '-B', os.path.join(VERIF, 'lib', 'buildext.py'),
			ext] + list(mods), stdout=subprocess.PIPE,
			stderr=subprocess.STDOUT, env=dict(os.environ, VERIF_OPT=
				os.environ.get('VERIF_OPT', '-O0')))
	return ext, '' if p.returncode == 0 else p.stdout.decode(
			'utf8', 'replace')


def harness(prop, ext, scratch, budget, extra=(), tag='run', seed=SEED):
	"""Run the harness; returns its report."""
	script = os.path.join(VERIF, 'harness', prop.lower() + '.py')
	out = os.path.join(scratch, '%s-%s.json' % (prop, tag))
	work = os.path.join(scratch, 'work-' + tag)
	os.makedirs(work, exist_ok=True)
	env = dict(os.environ, VERIF_EXT=ext, VERIF_BUDGET=str(budget),
			PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
			PYTHONIOENCODING='utf8', TMPDIR=work, VERIF_SEED=str(seed),
			VERIF_DIR=VERIF, LC_ALL='C.UTF-8', OMP_NUM_THREADS='1')
	hard = budget * 1.5 + 90 if not extra else 75
	start = time.time()
	with open(out + '.log', 'wb') as log:
		p = subprocess.Popen([PY, '-B', script, out] + list(extra), cwd=work,
				stdout=log, stderr=subprocess.STDOUT, env=env,
				start_new_session=True)
		try:
			rc = p.wait(hard)
		except subprocess.TimeoutExpired:
			os.killpg(p.pid, 9)
			p.wait()
			rc = 'killed after %d s' % hard
	with open(out + '.log', 'rb') as inp:
		log = inp.read().decode('utf8', 'replace')
	if os.path.exists(out):
		with open(out) as inp:
			report = json.load(inp)
		report['log'] = log[-2000:]
		return report
	report = dict(sections=[], evaluations=0, distinct=0, violations=[],
			log=log[-4000:], wall_s=time.time() - start)
	cur = out + '.cur'
	if os.path.exists(cur) and os.path.getsize(cur):
		with open(cur) as inp:
			sec, _, case = inp.read().partition('\n')
		report['violations'].append(dict(section=sec, key='%s:%s' % (sec,
				'hang' if isinstance(rc, str) else 'crash'), case=case,
				message='process ended with %s\n%s' % (rc, log[-1500:]),
				count=1))
	else:
		# the code under test could not even be imported or set up
		report['violations'].append(dict(section='setup', key='setup:crash',
				case='None', message='status %s\n%s' % (rc, log[-3000:]),
				count=1))
	return report


def confirm(prop, viol, ext, scratch):
	"""Replay one violation in a fresh process."""
	if viol['section'] == 'setup':
		return True
	case = os.path.join(scratch, 'case.txt')
	with open(case, 'w') as o:
		o.write(viol['case'])
	r = harness(prop, ext, scratch, 60, ['--replay', viol['section'], case],
			tag='replay')
	return bool(r.get('violation') or r.get('violations'))


def writereplay(prop, viol, confirmed, failing=()):
	os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
	name = re.sub(r'[^A-Za-z0-9_.-]+', '_', viol['key'])[:80]
	path = os.path.join(VERIF, 'replays', '%s-%s.json' % (prop, name))
	with open(path, 'w') as o:
		json.dump(dict(property=prop, section=viol['section'],
				case=viol['case'], key=viol['key'], message=viol['message'],
				times_seen=viol.get('count'), confirmed_in_fresh_process=confirmed,
				failed_obligations=[o.asdict() for o in failing][:50],
				replay_cmd='/verif/check %s --replay %s' % (prop, path)), o,
				indent=1)
	return path


def main():
	prop = sys.argv[1]
	start = time.time()
	scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
	try:
		return run(prop, scratch, start)
	finally:
		shutil.rmtree(scratch, ignore_errors=True)


def run(prop, scratch, start):
	P = importlib.import_module('props.' + prop.lower())
	known = knownfindings(prop)
	lines, assumptions = [], list(getattr(P, 'ASSUMPTIONS', ()))
	level = P.LEVEL
	exts = getattr(P, 'EXT', ('bit', ))
	if len(sys.argv) > 3 and sys.argv[2] == '--replay':
		with open(sys.argv[3]) as inp:
			rep = json.load(inp)
		if 'obligation' in rep:
			print(json.dumps(rep, indent=1))
			return 1
		ext, err = build(exts, scratch)
		bad = confirm(prop, rep, ext, scratch)
		with open(os.path.join(scratch, '%s-replay.json.log' % prop)) as inp:
			print(inp.read())
		return 1 if bad else 0
	thorough = TIER == 'thorough'
	budget = getattr(P, 'BUDGET', 40) * (8 if thorough else 1)
	budget = float(os.environ.get('VERIF_FORCEBUDGET', budget))
	with concurrent.futures.ThreadPoolExecutor(2) as pool:
		fut = pool.submit(build, exts, scratch)
		# ---- stage 1: deductive --------------------------------------------
		ded = None
		if hasattr(P, 'deductive'):
			try:
				ded = P.deductive(TIER, scratch)
			except Exception:  # pylint: disable=W0703
				ded = dict(obligations=[], outside=[dict(function='*',
						reason=traceback.format_exc()[-1500:])], trusted=[])
		ext, builderr = fut.result()
	violations, failing = [], []
	report = dict(sections=[], evaluations=0, distinct=0, violations=[])
	if builderr:
		violations.append(dict(section='setup', key='setup:build',
				case='None', message=builderr[-3000:], count=1))
	elif os.path.exists(os.path.join(VERIF, 'harness', prop.lower() + '.py')):
		failing[:] = [o for o in (ded or {}).get('obligations', ())
				if o.status != 'proved']
		report = harness(prop, ext, scratch, budget)
		violations.extend(report['violations'])
		if failing and not [v for v in violations if v['key'] not in known]:
			# look harder for an input before reporting an obligation
			budget = max(20, min(budget, (600 - time.time() + start) / 2))
			more = harness(prop, ext, scratch, min(budget * 2, 150),
					tag='more', seed=SEED + 1000)
			violations.extend(more['violations'])
			for a in ('evaluations', 'distinct'):
				report[a] += more[a]
	# ---- decide ------------------------------------------------------------
	new, reported = 0, set()
	for v in violations:
		if v['key'] in known:
			continue
		if v['key'] in reported:
			continue
		reported.add(v['key'])
		ok = (builderr or new >= 3 or time.time() - start > 600
				or confirm(prop, v, ext, scratch))
		path = writereplay(prop, v, bool(ok), failing)
		new += 1
		print('%s: %s: case %s\n   %s' % (prop, v['key'], v['case'][:300],
				v['message'][-700:].replace('\n', '\n   ')))
		lines.append('VIOLATION property=%s replay=%s' % (prop, path))
	for key, text in sorted(known.items()):
		print('KNOWN-FINDING: property=%s %s [key %s%s]' % (prop, text, key,
				'' if any(v['key'] == key for v in violations)
				else '; not met on this run'))
	coverage = dict(evaluations=report['evaluations'],
			distinct_nontrivial=report['distinct'],
			rule='; '.join('%s: %s' % (s['name'], s['rule'])
				for s in report['sections'])[:6000],
			samples=[x for s in report['sections'] for x in s['samples'][:2]][:40],
			bounded_sections=report['sections'],
			bounded='contracts evaluated at run time on the real code; '
				'bounded, not counted as proved')
	unproved = []
	if ded is not None:
		from pv import vc
		obs = ded['obligations']
		unproved = [o for o in obs if o.status != 'proved']
		for o in unproved[:12]:
			print('%s: failed obligation: %s: %s (%s) %s' % (prop, o.function,
					o.name, o.where, o.status))
		vacuous = vacuousfunctions(obs)
		s = vc.summary(obs)
		funcs = sorted({o.function for o in obs})
		coverage.update(obligations=s['obligations'],
				discharged=s['discharged'], by_backend=s['by_backend'],
				solver_time_s=s['solver_time_s'],
				functions_under_contract=funcs,
				functions_outside_reach=ded.get('outside', []),
				vacuous=vacuous,
				checker_cmd='python3-vt -B /verif/lib/check.py %s' % prop,
				trusted_base=ded.get('trusted', []),
				obligations_detail=[o.asdict() for o in obs][:4000],
				extraction=ded.get('extraction', ''))
		if vacuous:
			lines.append(obligationviolation(prop, 'vacuous', dict(
					obligation='precondition satisfiable',
					functions=vacuous)))
			new += 1
		if unproved and not new:
			byfunc = {}
			for o in unproved:
				byfunc.setdefault(o.function, []).append(o)
			for f, os_ in byfunc.items():
				lines.append(obligationviolation(prop, f, dict(
						obligation='%s: %s' % (f, os_[0].name),
						failed=[o.asdict() for o in os_],
						note='the solver did not accept these obligations; '
						'no failing input was found by executing the real '
						'code on %d cases' % report['evaluations'])))
		if not obs and not report['evaluations']:
			print('%s: zero obligations and zero evaluations' % prop)
			lines.append(obligationviolation(prop, 'none', dict(
					obligation='at least one obligation is generated',
					outside=ded.get('outside', []))))
		for x in ded.get('outside', []):
			print('%s: outside of the verifier\'s reach on this tree, only '
					'covered by the bounded stand-in: %s (%s)' % (prop,
					x['function'], x['reason'].strip().splitlines()[-1][:200]))
		expected = getattr(P, 'EXPECTED', None)
		print('%s: %d/%d obligations discharged, %d functions under '
				'contract%s' % (prop, s['discharged'], s['obligations'],
				len(funcs), '' if expected is None
				else ' (reviewed tree: %d)' % expected))
	print('%s: %d cases executed on the real code (%d distinct non-trivial)'
			% (prop, report['evaluations'], report['distinct']))
	if level == 'other':
		coverage['explanation'] = getattr(P, 'EXPLANATION', '')
	evidence = dict(property=prop, tier=TIER if TIER in ('quick', 'thorough')
			else 'quick', seed=SEED, level=level, coverage=coverage,
			assumptions=assumptions, wall_s=round(time.time() - start, 2),
			violations=len(lines))
	os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
	with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as o:
		json.dump(evidence, o, indent=1, default=str)
	for line in lines:
		print(line)
	return 1 if lines else 0


def vacuousfunctions(obs):
	"""Functions all of whose obligations have contradictory assumptions."""
	byfunc = {}
	for o in obs:
		byfunc.setdefault(o.function, []).append(o)
	return [f for f, os_ in byfunc.items() if all(o.vacuous for o in os_)]


def obligationviolation(prop, name, data):
	os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
	path = os.path.join(VERIF, 'replays', '%s-obligation-%s.json' % (prop,
			re.sub(r'[^A-Za-z0-9_.-]+', '_', name)[:60]))
	with open(path, 'w') as o:
		json.dump(dict(property=prop, **data), o, indent=1, default=str)
	print('%s: failed obligation: %s' % (prop, data['obligation']))
	return ('VIOLATION property=%s replay=%s no-failing-input-found'
			% (prop, path))


if __name__ == '__main__':
	try:
		sys.exit(main())
	except SystemExit:
		raise
	except BaseException:  # pylint: disable=W0703
		# an error of the check itself: neither held nor violated
		traceback.print_exc()
		sys.exit(2)
