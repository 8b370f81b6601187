"""Runtime-checked contracts on the real code: the bounded stand-in.

A harness module defines sections: a generator of cases (Python literals) and
a function that calls the real code from /repo on one case and checks its
contract against an oracle. The runner enumerates / samples cases, catches
violations (contract failures, unexpected exceptions, calls which do not
return within a time limit), and writes a JSON report.

Usage: HARNESS.py OUT.json            run all sections
       HARNESS.py OUT.json --replay SECTION CASEFILE
"""
import os
import sys
import ast
import json
import time
import random
import signal
import hashlib
import traceback
import faulthandler

faulthandler.enable()
REPO = os.environ.get('VERIF_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
EXTDIR = os.environ.get('VERIF_EXT', '')
BUDGET = float(os.environ.get('VERIF_BUDGET', '45'))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
if sys.path[0] != REPO:
	sys.path.insert(0, REPO)
if EXTDIR:
	sys.path.append(EXTDIR)
import discodop
assert os.path.dirname(discodop.__file__) == os.path.join(REPO, 'discodop'), (
		discodop.__file__)
if EXTDIR:
	# extension modules built from /repo's current tree come first; any .so
	# next to the sources may be stale.
	discodop.__path__.insert(0, EXTDIR)


class Violation(Exception):
	"""The real code broke a contract; key identifies the kind of failure."""
	def __init__(self, key, msg=''):
		super().__init__(key, msg)
		self.key, self.msg = key, msg


class Skip(Exception):
	"""The case is outside of the contract's precondition."""


class Timeout(BaseException):
	pass


def fail(key, msg=''):
	raise Violation(key, str(msg)[:2000])


def require(cond, key, msg=''):
	if not cond:
		raise Violation(key, str(msg() if callable(msg) else msg)[:2000])


def equal(a, b, key, msg=''):
	if a != b:
		raise Violation(key, ('%s got %r expected %r' % (msg, a, b))[:2000])


class Section(object):
	def __init__(self, name, fn, gen, rule, share, limit, functions):
		self.name, self.fn, self.gen = name, fn, gen
		self.rule, self.share, self.limit = rule, share, limit
		self.functions = functions


SECTIONS = []


def section(name, gen, rule='', share=1.0, limit=20, functions=()):
	"""Register a check function (one case -> nontrivial?).

	:param gen: function(rng, tier) yielding literal cases.
	:param share: share of the time budget.
	:param limit: seconds after which one case counts as not terminating.
	:param functions: the functions whose contract is checked."""
	def deco(fn):
		SECTIONS.append(Section(name, fn, gen, rule, share, limit, functions))
		return fn
	return deco


def _alarm(signum, frame):
	raise Timeout()


def runcase(sec, case):
	"""Returns (nontrivial, None) or (None, (key, message))."""
	signal.signal(signal.SIGALRM, _alarm)
	signal.setitimer(signal.ITIMER_REAL, sec.limit)
	try:
		res = sec.fn(case)
		signal.setitimer(signal.ITIMER_REAL, 0)
		return res is not False, None
	except Skip:
		return False, None
	except Violation as err:
		return None, (err.key, err.msg)
	except Timeout:
		return None, ('does-not-terminate',
				'no result within %s seconds' % sec.limit)
	except RecursionError:
		return None, ('recursion', traceback.format_exc()[-1500:])
	except Exception as err:  # pylint: disable=W0703
		return None, ('exception:' + type(err).__name__,
				traceback.format_exc()[-1800:])
	finally:
		signal.setitimer(signal.ITIMER_REAL, 0)


def main():
	out = sys.argv[1]
	if len(sys.argv) > 2 and sys.argv[2] == '--replay':
		sec = [s for s in SECTIONS if s.name == sys.argv[3]][0]
		with open(sys.argv[4]) as inp:
			case = ast.literal_eval(inp.read())
		_, viol = runcase(sec, case)
		with open(out, 'w') as o:
			json.dump(dict(violation=viol), o)
		print('violation: %s: %s' % viol if viol else 'no violation')
		sys.exit(1 if viol else 0)
	only = os.environ.get('VERIF_SECTION')
	report = dict(sections=[], evaluations=0, distinct=0, violations=[])
	curfile = open(out + '.cur', 'w')
	total = sum(s.share for s in SECTIONS) or 1
	pool = 0.0
	for sec in SECTIONS:
		if only and sec.name != only:
			continue
		rng = random.Random('%d %s' % (SEED, sec.name))
		start = time.time()
		deadline = start + BUDGET * sec.share / total + pool
		n, seen, samples, viols, exhausted = 0, set(), [], {}, True
		slow = 0
		for case in sec.gen(rng, TIER):
			if time.time() > deadline and n >= 20:
				exhausted = False
				break
			n += 1
			text = repr(case)
			curfile.seek(0)
			curfile.truncate()
			curfile.write(sec.name + '\n' + text)
			curfile.flush()
			nontrivial, viol = runcase(sec, case)
			if viol is not None:
				key = '%s:%s' % (sec.name, viol[0])
				prev = viols.get(key)
				if prev is None or len(text) < len(prev['case']):
					viols[key] = dict(section=sec.name, key=key, case=text,
							message=viol[1],
							count=(prev['count'] if prev else 0) + 1)
				else:
					prev['count'] += 1
				if viol[0] == 'does-not-terminate':
					slow += 1
					if slow >= 2:
						exhausted = False
						break
				if len(viols) > 40:
					exhausted = False
					break
				nontrivial = True
			if nontrivial:
				seen.add(hashlib.md5(text.encode('utf8',
						'surrogatepass')).digest()[:8])
				if len(samples) < 2 or (len(samples) < 3 and n % 50 == 0):
					samples.append(text[:600])
		spent = time.time() - start
		pool = max(0.0, deadline - time.time())
		report['sections'].append(dict(name=sec.name, rule=sec.rule,
				functions=list(sec.functions), evaluations=n,
				distinct_nontrivial=len(seen), exhausted=exhausted,
				samples=samples, wall_s=round(spent, 2)))
		report['evaluations'] += n
		report['distinct'] += len(seen)
		report['violations'].extend(viols.values())
	with open(out, 'w') as o:
		json.dump(report, o)
	curfile.close()
	os.unlink(out + '.cur')
	sys.exit(0)
