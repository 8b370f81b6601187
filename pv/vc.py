"""Verification conditions: collection and discharge.

An Obligation is the claim ``assumptions => goal``.  It is discharged when an
SMT solver reports that ``assumptions and not goal`` is unsatisfiable.
Every obligation is serialized to SMT-LIB text and sent to a worker process
running z3; what z3 does not decide in time is sent to cvc5.
"""
import os
import time
import multiprocessing
import z3

PROVED, REFUTED, UNKNOWN = 'proved', 'refuted', 'unknown'


class Unsupported(Exception):
	"""The code uses a construct outside the verifier's subset."""


class Obligation(object):
	"""A single verification condition."""
	def __init__(self, function, name, assumptions, goal, where='',
			timeout=None, env=None):
		self.function = function
		self.name = name
		self.assumptions = list(assumptions)
		self.goal = goal
		self.where = where
		self.timeout = timeout
		self.status = None
		self.backend = None
		self.time = 0.0
		self.model = None
		self.vacuous = None
		self.env = env or {}

	def smt2(self, negate=True, recent=None):
		""":param recent: leave out all but so many quantified assumptions (a
		weaker hypothesis, so that only a proof has a meaning)."""
		s = z3.Solver()
		use = self.assumptions
		if recent is not None:
			quant = [n for n, a in enumerate(use) if hasquant(a)]
			out = set(quant[:-recent])
			if recent == 0:
				# those about the state of the heap which the goal is about
				about = [x for x in symbols(self.goal) if x.startswith('h_')]
				out = {n for n in quant if not symbols(use[n]) & set(about)}
			use = [a for n, a in enumerate(use) if n not in out]
		for a in use:
			s.add(a)
		if negate:
			s.add(z3.Not(self.goal))
		return s.to_smt2()

	def asdict(self):
		return dict(function=self.function, name=self.name, where=self.where,
				status=self.status, backend=self.backend,
				time=round(self.time, 3), model=self.model)


def hasquant(e, seen=None):
	seen = set() if seen is None else seen
	if e.get_id() in seen:
		return False
	seen.add(e.get_id())
	return z3.is_quantifier(e) or any(hasquant(x, seen) for x in e.children())


_symbols = {}


def symbols(e):
	"""Names of the functions and constants in a term."""
	key = e.get_id()
	if key not in _symbols:
		res, todo, seen = set(), [e], set()
		while todo:
			x = todo.pop()
			if x.get_id() in seen:
				continue
			seen.add(x.get_id())
			if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
				res.add(x.decl().name())
			todo.extend(x.children())
		_symbols[key] = e, frozenset(res)  # keeps e alive: ids are reused
	return _symbols[key][1]


def _cvc5(text, timeout):
	import cvc5
	tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
	slv = cvc5.Solver(tm) if tm is not None else cvc5.Solver()
	slv.setOption('tlimit-per', str(int(timeout * 1000)))
	parser = cvc5.InputParser(slv)
	parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6,
			'(set-logic ALL)\n' + text, 'vc')
	sm = parser.getSymbolManager()
	out = ''
	while True:
		cmd = parser.nextCommand()
		if cmd.isNull():
			break
		out = cmd.invoke(slv, sm)
	return out.strip()


def _work(job):
	"""Decide one query (in a worker process)."""
	idx, text, timeout, wantmodel, strategy = job
	start = time.time()
	status, model, backend = UNKNOWN, None, 'z3 ' + z3.get_version_string()
	if strategy == 'cvc5':
		try:
			import cvc5
			backend = 'cvc5 ' + cvc5.__version__
			res = _cvc5(text, timeout)
			status = dict(unsat=PROVED, sat=REFUTED).get(res, UNKNOWN)
		except Exception as err:  # pylint: disable=W0703
			model = {'cvc5': str(err)[:200]}
		return idx, status, backend, time.time() - start, model
	try:
		ctx = z3.Context()
		s = z3.Solver(ctx=ctx)
		s.set('timeout', int(timeout * 1000))
		if strategy == 'ematching':
			s.set('mbqi', False)
			s.set('auto_config', False)
		elif strategy.startswith('seed'):
			s.set('random_seed', int(strategy[4:] or 7))
		elif strategy.startswith('match'):
			s.set('mbqi', False)
			s.set('auto_config', False)
			s.set('random_seed', int(strategy[5:]))
		s.from_string(text)
		res = s.check()
		if res == z3.unsat:
			status = PROVED
		elif res == z3.sat and not strategy.startswith('recent'):
			status = REFUTED
			if wantmodel:
				try:
					model = {str(d): str(s.model()[d])[:400]
							for d in s.model().decls() if d.arity() == 0}
				except Exception:  # model printing is only informative
					model = None
	except z3.Z3Exception as err:
		status, model = UNKNOWN, {'error': str(err)[:300]}
	return idx, status, backend, time.time() - start, model


def _subproc(job, conn):
	conn.send(_work(job))
	conn.close()


def runjobs(jobs, procs=8):
	"""Run queries, each in its own killable process with a hard limit."""
	ctx = multiprocessing.get_context('fork')
	pending = list(jobs)[::-1]
	running = []
	results = {}
	while pending or running:
		while pending and len(running) < procs:
			job = pending.pop()
			a, b = ctx.Pipe(False)
			p = ctx.Process(target=_subproc, args=(job, b))
			p.start()
			b.close()
			running.append((p, a, job, time.time()))
		still = []
		for p, a, job, t0 in running:
			limit = job[2] * 1.2 + 15
			if a.poll(0):
				try:
					res = a.recv()
				except EOFError:
					res = (job[0], UNKNOWN, 'z3 (crashed)', time.time() - t0, None)
				results[job[0]] = res
				p.join()
				a.close()
			elif not p.is_alive() or time.time() - t0 > limit:
				if p.is_alive():
					p.kill()
				p.join()
				results[job[0]] = (job[0], UNKNOWN, 'z3 (killed)',
						time.time() - t0, None)
				a.close()
			else:
				still.append((p, a, job, t0))
		running = still
		if running:
			time.sleep(0.002)
	return results


def trivial(o):
	"""Decide trivial goals without a solver call."""
	g = z3.simplify(o.goal) if z3.is_expr(o.goal) else z3.BoolVal(bool(o.goal))
	o.goal = g
	if z3.is_true(g):
		o.status, o.backend = PROVED, 'simplifier'
		return True
	return False


def discharge(obligations, timeout=20, procs=None, retry=3, vacuity=True):
	"""Discharge all obligations; sets status on each of them."""
	procs = procs or os.cpu_count() or 4
	start, tier = time.time(), os.environ.get('VERIF_TIER', 'quick')
	first = min(timeout, 4)
	todo = [n for n, o in enumerate(obligations)
			if o.status is None and not trivial(o)]
	texts = {n: obligations[n].smt2() for n in todo}
	# a portfolio: most obligations are decided at once; others by another
	# solver, another strategy, or a longer time limit.
	for strategy, limit in (('z3', first), ('cvc5', first),
			('ematching', first), ('recent0', first), ('recent8', first),
			('recent16', first),
			('cvc5', timeout * retry),
			('z3', timeout * retry), ('seed', timeout * retry)):
		if not todo:
			break
		rest = []
		if time.time() - start > 330 and tier != 'thorough':
			# only when proofs break down; what is left counts as failed
			break
		if limit > first:  # bound the total time when a proof breaks down
			many = max(procs, int(150 * procs / limit))
			todo, rest = todo[:many], todo[many:]
		jobs = [(n, obligations[n].smt2(recent=int(strategy[6:]))
				if strategy.startswith('recent') else texts[n], (obligations[n].timeout or limit)
				if strategy == 'z3' and limit == first else limit,
				True, strategy) for n in todo]
		for n, status, backend, t, model in runjobs(jobs, procs).values():
			o = obligations[n]
			o.status, o.backend = status, backend
			o.model = model or o.model
			o.time += t
		todo = [n for n in todo if obligations[n].status == UNKNOWN] + rest
	if 0 < len(todo) <= 6 and time.time() - start < 330:
		# a last attempt with different random seeds, side by side
		jobs = [((n, strategy), texts[n], 2 * timeout, True, strategy)
				for n in todo for strategy in ('match11', 'seed23', 'cvc5',
				'match42', 'seed5')]
		for (n, _), status, backend, t, model in runjobs(jobs, procs).values():
			o = obligations[n]
			o.time += t
			if status != UNKNOWN and o.status == UNKNOWN:
				o.status, o.backend = status, backend
				o.model = model or o.model
	if vacuity:
		# reachability: for each function, the assumptions of at least one of
		# its obligations must not be contradictory.
		jobs, texts = [], {}
		for n, o in enumerate(obligations):
			if o.vacuous is not None:
				continue
			text = o.smt2(negate=False)
			if text in texts:
				texts[text].append(n)
			else:
				texts[text] = [n]
				jobs.append((n, text, 1, False, 'z3'))
		res = {n: status for n, status, _, _, _ in runjobs(jobs,
				procs).values()}
		for idx in texts.values():
			for n in idx:
				obligations[n].vacuous = res.get(idx[0]) == PROVED
	return obligations


def summary(obligations):
	"""Counts for the evidence file."""
	byback = {}
	for o in obligations:
		if o.status == PROVED:
			byback[o.backend] = byback.get(o.backend, 0) + 1
	return dict(obligations=len(obligations),
			discharged=sum(o.status == PROVED for o in obligations),
			by_backend=byback,
			solver_time_s=round(sum(o.time for o in obligations), 2))
