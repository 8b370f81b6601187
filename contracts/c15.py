"""Contracts of evaluation measures (C15)."""
import z3
from pv import vc, pyexec as X, pylib
from pv.pyexec import (V, Int, Bool, SInt, SDyn, SRef, SNone, STup, SStr, SBool,
		SReal, SSeq, SPure, Case, Contract, LoopSpec, Engine, fresh, toV)
from pv.vc import Obligation

EVAL = 'discodop/eval.py'
Real = z3.RealSort()
# multisets: the number of times an element occurs, the different elements
CNT = z3.Function('occurrences', V, V, Int)
NK = z3.Function('numelements', V, Int)
KEY = z3.Function('element', V, Int, V)
POS = z3.Function('elementpos', V, V, Int)
TOTAL = z3.Function('total', V, Int)
BOTH = z3.Function('intersection', V, V, V)
NAN = V.vstr(X.strlit('NaN'))


def least(a, b):
	return z3.If(a <= b, a, b)


def multiset(c):
	"""A finite multiset; total: lemma below."""
	j, x = z3.Int('j'), z3.Const('x', V)
	return [NK(c) >= 0, X.forall([j], z3.Implies(z3.And(0 <= j, j < NK(c)),
			z3.And(CNT(c, KEY(c, j)) >= 1, POS(c, KEY(c, j)) == j)),
			patterns=[KEY(c, j)]),
		X.forall([x], z3.And(CNT(c, x) >= 0, z3.Implies(CNT(c, x) > 0, z3.And(
			0 <= POS(c, x), POS(c, x) < NK(c), KEY(c, POS(c, x)) == x))),
			patterns=[CNT(c, x)]),
		TOTAL(c) >= 0, (TOTAL(c) == 0) == (NK(c) == 0)]


def both(a, b):
	x = z3.Const('x', V)
	c = BOTH(a, b)
	return [X.forall([x], CNT(c, x) == least(CNT(a, x), CNT(b, x)),
			patterns=[CNT(c, x)]), X.forall([x], CNT(c, x) == least(CNT(a, x),
			CNT(b, x)), patterns=[z3.MultiPattern(CNT(a, x), CNT(b, x))]),
			] + multiset(c)


# --- models -----------------------------------------------------------------
def use_and(eng, st, a, b):
	if not (isinstance(a, SPure) and isinstance(b, SPure)):
		raise vc.Unsupported('intersection')
	st.assume(*both(a.e, b.e))
	yield st, SPure(BOTH(a.e, b.e))


def use_keys(eng, st, c, args, kwargs):
	yield st, SSeq(NK(c.e), lambda j: SDyn(KEY(c.e, j)))


def use_values(eng, st, c, args, kwargs):
	yield st, SSeq(NK(c.e), lambda j: SInt(CNT(c.e, KEY(c.e, j))))


def use_items(eng, st, c, args, kwargs):
	yield st, SSeq(NK(c.e), lambda j: STup([SDyn(KEY(c.e, j)), SInt(CNT(c.e,
			KEY(c.e, j)))]))


def use_count(eng, st, c, x):
	"""Counter.__getitem__: zero for what is not an element."""
	yield st, SInt(CNT(c.e, toV(x)))


def use_bool(eng, st, c, args, kwargs):
	yield st, NK(c.e) > 0


def use_len(eng, st, c, args, kwargs):
	yield st, SInt(NK(c.e))


def use_sum(eng, st, args, kwargs):
	"""sum(): also, a sum over the elements of a multiset is its total."""
	if len(args) != 1 or kwargs:
		raise vc.Unsupported('sum')
	for s, it in eng.iterable(args[0], st):
		n, get, arr = pylib.elementarray(eng, it, s)
		val = lambda e: z3.If(V.is_vbool(e), z3.If(V.b(e), z3.IntVal(1),
				z3.IntVal(0)), V.i(e))
		w = fresh(Int, 'notint')
		bad = s.fork()
		bad.assume(0 <= w, w < n, z3.Not(V.is_vint(get(w))), z3.Not(V.is_vbool(
				get(w))))
		if X.feasible(bad, full=True):
			raise vc.Unsupported('sum of other values than integers')
		res = fresh(Int, 'sum')
		s.assume(*psum(res, n, lambda j: val(get(j))))
		s.ghost['sum'] = res, n, lambda j: val(get(j))
		known = s.ghost.get('multisets')
		if known:
			a, b = known
			c = BOTH(a, b)
			s.assume(*both(a, b))
			for keys, counts in ((a, a), (b, b), (c, c), (a, c), (b, c)):
				w = fresh(Int, 'differs')
				k = KEY(keys, w)
				s.assume(z3.Or(n != NK(keys), z3.And(0 <= w, w < n,
					val(get(w)) != CNT(counts, k)), res == TOTAL(counts)))
		yield s, SInt(res)


# sums of sequences, for the specification
SEQSUM = z3.Function('sumofseq', z3.ArraySort(Int, Int), Int, Int)


def psum(res, n, val):
	"""res is the sum of val(0) ... val(n - 1)."""
	a = fresh(z3.ArraySort(Int, Int), 'terms')
	j = z3.Int('j')
	return [X.forall([j], a[j] == val(j), patterns=[a[j]]), res == SEQSUM(a,
			n)]


def use_decimal(eng, st, args, kwargs):
	"""Decimal numbers as real numbers: rounding is not modelled."""
	if len(args) != 1 or kwargs:
		raise vc.Unsupported('Decimal')
	x = args[0]
	if isinstance(x, SStr):
		s = z3.simplify(x.e)
		if not (s.eq(X.strlit('NaN')) or s.eq(X.strlit('nan'))):
			raise vc.Unsupported('Decimal of string')
		yield st, SPure(NAN)
	elif isinstance(x, SInt):
		yield st, SReal(z3.ToReal(x.e))
	elif isinstance(x, (SReal, SPure)):
		yield st, x
	else:
		raise vc.Unsupported('Decimal')


def nanop(eng, st, a, b):
	for v in (a, b):
		if isinstance(v, SPure) and not v.e.eq(NAN):
			raise vc.Unsupported('arithmetic')
	yield st, SPure(NAN)


def isnan(v):
	return isinstance(v, SPure) and v.e.eq(NAN)


# --- precision, recall, f-measure --------------------------------------------
def setup2(eng, st):
	a, b = z3.Consts('reference candidate', V)
	st.assume(*multiset(a))
	st.assume(*multiset(b))
	st.assume(*both(a, b))
	st.ghost['multisets'] = a, b
	return [SPure(a), SPure(b)], {}


def ratio(which):
	"""The part of a multiset which is shared."""
	def post(P):
		a, b = P.st.ghost['multisets']
		c = (a, b)[which]
		if isnan(P.result):
			return [('undefined only without elements', NK(c) == 0)]
		if not isinstance(P.result, SReal):
			return [('result is a number', z3.BoolVal(False))]
		return [('defined only with elements', NK(c) > 0), (
			'shared part of the total', P.result.e * z3.ToReal(TOTAL(c))
			== z3.ToReal(TOTAL(BOTH(a, b))))]
	return post


def c_recall():
	return Contract('%s:recall' % EVAL, [Case('', setup2, ratio(0))])


def c_precision():
	return Contract('%s:precision' % EVAL, [Case('', setup2, ratio(1))])


def use_ratio(which):
	def fn(eng, st, args, kwargs):
		if len(args) != 2 or kwargs or not all(isinstance(x, SPure)
				for x in args):
			raise vc.Unsupported('arguments')
		a, b = args[0].e, args[1].e
		c = (a, b)[which]
		st.assume(*both(a, b))
		for s, some in eng.split(st, NK(c) > 0):
			if not some:
				yield s, SPure(NAN)
				continue
			r = fresh(Real, 'ratio')
			s.assume(r * z3.ToReal(TOTAL(c)) == z3.ToReal(TOTAL(BOTH(a, b))),
				TOTAL(BOTH(a, b)) <= TOTAL(a), TOTAL(BOTH(a, b)) <= TOTAL(b))
			yield s, SReal(r)
	return fn


def c_fmeasure():
	def post(P):
		a, b = P.st.ghost['multisets']
		shared, n = TOTAL(BOTH(a, b)), TOTAL(a) + TOTAL(b)
		if isnan(P.result):
			return [('undefined only if nothing is shared', shared == 0)]
		if not isinstance(P.result, SReal):
			return [('result is a number', z3.BoolVal(False))]
		return [('something is shared', shared > 0), ('harmonic mean of '
			'precision and recall', P.result.e * z3.ToReal(n) == 2
			* z3.ToReal(shared))]
	return Contract('%s:f_measure' % EVAL, [Case('', setup2, post)],
			timeout=30)


# --- accuracy, mean -----------------------------------------------------------
def setupseqs(eng, st):
	n, m = z3.Ints('n m')
	a, b = z3.Consts('seq1 seq2', z3.ArraySort(Int, V))
	st.assume(n >= 0, m >= 0)
	st.ghost['seqs'] = a, n, b, m
	return [SSeq(n, lambda j: SStr(V.s(a[j]))), SSeq(m, lambda j: SStr(V.s(
			b[j])))], {}


def c_accuracy():
	def post(P):
		a, n, b, m = P.st.ghost['seqs']
		want = fresh(Int, 'matches')
		match = lambda j: z3.If(V.s(a[j]) == V.s(b[j]), z3.IntVal(1),
				z3.IntVal(0))
		P.st.assume(*psum(want, n, match))
		if 'sum' in P.st.ghost:
			# equal terms have equal sums
			res, k, val = P.st.ghost['sum']
			w = fresh(Int, 'differs')
			P.st.assume(z3.Or(n != k, z3.And(0 <= w, w < n, val(w) != match(
					w)), res == want))
		return [('sequences of the same length', n == m)] + ([('fraction of '
			'equal pairs', P.result.e * z3.ToReal(n) == z3.ToReal(want))]
			if isinstance(P.result, SReal) else [('result is a number',
			z3.BoolVal(False))])

	def wrong(P):
		a, n, b, m = P.st.ghost['seqs']
		return [('lengths differ', n != m)]

	def empty(P):
		a, n, b, m = P.st.ghost['seqs']
		return [('no elements', n == 0)]
	return Contract('%s:accuracy' % EVAL, [Case('', setupseqs, post,
			raises=dict(ValueError=wrong, ZeroDivisionError=empty))])


RSUM = z3.Function('sumofreals', Int, Real)
INV = z3.Function('sumofinverses', Int, Real)


def setupreals(eng, st):
	n = z3.Int('n')
	a = z3.Const('values', z3.ArraySort(Int, Real))
	i = z3.Int('i')
	st.assume(n >= 0, RSUM(0) == 0, INV(0) == 0)
	st.ghost['values'] = a, n
	return [SSeq(n, lambda j: SReal(a[j]))], {}


def meaninv(S):
	a, n = S.st.ghost['values']
	k = S.i
	S.st.assume(RSUM(k + 1) == RSUM(k) + a[k], RSUM(0) == 0)
	return [('sum so far', S['numerator'].e == RSUM(k)), ('number so far',
			S['denominator'].e == z3.ToReal(k))]


def c_mean():
	def post(P):
		a, n = P.st.ghost['values']
		if isnan(P.result):
			return [('undefined only without values', n == 0)]
		return [('sum of the values by their number', P.result.e
			* z3.ToReal(n) == RSUM(n))]
	return Contract('%s:mean' % EVAL, [Case('', setupreals, post)])


def harinv(S):
	a, n = S.st.ghost['values']
	k, i = S.i, z3.Int('i')
	S.st.assume(z3.Implies(a[k] != 0, INV(k + 1) == INV(k) + 1 / a[k]), INV(0)
			== 0)
	return [('number so far', S['numerator'].e == z3.ToReal(k)), (
			'sum of inverses so far', S['denominator'].e == INV(k)),
		('no zeros so far', X.forall([i], z3.Implies(z3.And(0 <= i, i < k),
			a[i] != 0), patterns=[a[i]]))]


def c_harmean():
	def post(P):
		a, n = P.st.ghost['values']
		i = z3.Int('i')
		if isnan(P.result):
			zero = P.st.ghost.get('zero')
			return [('undefined', z3.Or(INV(n) == 0, z3.Exists([i], z3.And(
				0 <= i, i < n, a[i] == 0))))]
		return [('harmonic mean', P.result.e * INV(n) == z3.ToReal(n))]
	return Contract('%s:harmean' % EVAL, [Case('', setupreals, post)])


# --- edit distance -------------------------------------------------------------
LEV = z3.Function('levenshtein', Int, Int, Int)


def setuplev(eng, st):
	args, kw = setupseqs(eng, st)
	st.ghost['base'] = st.heap.alloc
	return args, kw


def step(a, b, i, j):
	"""Distance of the first i + 1 and j + 1 elements."""
	x, y = LEV(i, j + 1) + 1, LEV(i + 1, j) + 1
	z = LEV(i, j) + z3.If(V.s(a[i]) == V.s(b[j]), z3.IntVal(0), z3.IntVal(1))
	return LEV(i + 1, j + 1) == least(least(x, y), z)


def rows(S):
	"""The table: a list of different lists."""
	a, n, b, m = S.st.ghost['seqs']
	h, base, i = S.h, S.st.ghost['base'], z3.Int('i')
	r = S.ref('lev')
	row = h['lget'][r][i]
	rowof = S.st.ghost['rowof']
	return [('table', z3.And(r >= base, h['llen'][r] == n + 1, X.clsof(r)
			== S.eng.classid('list'), r < h.alloc)),
		('rows of the table', X.forall([i], z3.Implies(z3.And(0 <= i,
			i <= n), z3.And(V.is_vref(row), V.ref(row) != r, V.ref(row) > 0,
			V.ref(row) < h.alloc, X.clsof(V.ref(row)) == S.eng.classid('list'),
			h['llen'][V.ref(row)] == m + 1, rowof[V.ref(row)] == i)),
			patterns=[row]))]


def rowinit(S):
	"""Ghost: the number of a row."""
	h, r = S.h, S.ref('lev')
	i = z3.Int('i')
	row = h['lget'][r][i]
	f = fresh(z3.ArraySort(Int, Int), 'rowof')
	first, second = V.ref(h['lget'][r][0]), V.ref(h['lget'][r][1])
	x = z3.Int('x')
	S.st.assume(X.forall([x], f[x] == z3.If(second == first + 2, (x - first)
			/ 2, x - first), patterns=[f[x]]))
	return f


def cell(S, i, j):
	h, r = S.h, S.ref('lev')
	return h['lget'][V.ref(h['lget'][r][i])][j]


def cells(S, done, i=None):
	x, y = z3.Ints('x y')
	a, n, b, m = S.st.ghost['seqs']
	c = cell(S, x, y)
	return X.forall([x, y], z3.Implies(z3.And(0 <= x, x <= n, 0 <= y, y <= m,
			done(x, y)), c == V.vint(LEV(x, y))), patterns=[c])


def ints(S):
	return ('cells are numbers', X.forall([z3.Int('x'), z3.Int('y')],
		z3.Implies(z3.And(0 <= z3.Int('x'), z3.Int('x') <= S.st.ghost['seqs'][
		1], 0 <= z3.Int('y'), z3.Int('y') <= S.st.ghost['seqs'][3]),
		V.is_vint(cell(S, z3.Int('x'), z3.Int('y')))), patterns=[cell(S,
		z3.Int('x'), z3.Int('y'))]))


def edges(S):
	"""Distance to an empty sequence."""
	a, n, b, m = S.st.ghost['seqs']
	i = z3.Int('i')
	S.st.assume(X.forall([i], z3.Implies(i >= 0, z3.And(LEV(i, 0) == i, LEV(0,
			i) == i)), patterns=[LEV(i, 0), LEV(0, i)]))


def inv0(S):
	edges(S)
	return rows(S) + [ints(S), ('first column', cells(S, lambda x, y: z3.And(
		y == 0, x < S.i)))]


def inv1(S):
	edges(S)
	return rows(S) + [ints(S), ('first row and column', cells(S, lambda x, y:
		z3.Or(y == 0, z3.And(x == 0, y < S.i))))]


def inv2(S):
	edges(S)
	return rows(S) + [ints(S), ('rows so far', cells(S, lambda x, y: z3.Or(
		y == 0, x <= S.i)))]


def inv3(S):
	edges(S)
	a, n, b, m = S.st.ghost['seqs']
	i = S.int('i')
	S.st.assume(step(a, b, i, S.i))
	return rows(S) + [ints(S), ('row', z3.And(0 <= i, i < n)), ('cells so far',
		cells(S, lambda x, y: z3.Or(y == 0, x <= i, z3.And(x == i + 1, y
		<= S.i))))]


def c_editdistance():
	def post(P):
		a, n, b, m = P.st.ghost['seqs']
		return [('edit distance', toV(P.result) == V.vint(LEV(n, m)))]
	return Contract('%s:editdistance' % EVAL, [Case('', setuplev, post)],
			timeout=30)


# --- intervals -------------------------------------------------------------------
START = z3.Function('firstofrun', Int, Int)
RUN = z3.Function('runnumber', Int, Int)
IDX = z3.Function('member', Int, Int)


def brk(i):
	return z3.Or(i == 0, IDX(i) != IDX(i - 1) + 1)


def defrun(i):
	return z3.Implies(i >= 0, z3.And(START(i) == z3.If(brk(i), i, START(
			i - 1)), RUN(i) == z3.If(i == 0, z3.IntVal(0), z3.If(brk(i), RUN(
			i - 1) + 1, RUN(i - 1)))))


def use_getbits(eng, st, args, kwargs):
	"""getbits(): the members of the bit set, in order (proved in C05)."""
	eng.oblige(st, 'indices of the bit set', toV(args[0]) == toV(
			eng.entryargs[0]))
	yield st, SSeq(st.ghost['nbits'], lambda j: SInt(IDX(j)))


def interval(a, b):
	return toV(STup([SInt(IDX(a)), SInt(IDX(b))]))


def runs(S, k):
	"""The runs that end before position k (or are followed by a gap)."""
	h, out, i = S.h, S.st.out, z3.Int('i')
	return [('runs so far', X.forall([i], z3.Implies(z3.And(0 <= i, i < k - 1,
		brk(i + 1)), z3.And(0 <= RUN(i), RUN(i) < h['llen'][out],
		h['lget'][out][RUN(i)] == interval(START(i), i))), patterns=[RUN(
		i)]))]


def intervalsinv(S):
	k = S.i
	h, out = S.h, S.st.out
	S.st.assume(defrun(k), defrun(k - 1))
	start, prev = S.v('start'), S.v('prev')
	return [('current run', z3.If(k == 0, z3.And(start == V.none, prev
			== V.none), z3.And(start == V.vint(IDX(START(k - 1))), prev
			== V.vint(IDX(k - 1)), 0 <= START(k - 1), RUN(k - 1) >= 0))), (
		'number of runs', h['llen'][out] == z3.If(k == 0, z3.IntVal(0), RUN(
			k - 1)))] + runs(S, k)


def c_intervals():
	def setup(eng, st):
		b, n = z3.Ints('bitset nbits')
		st.assume(b >= 0, n >= 0)
		st.ghost['nbits'] = n
		return [SInt(b)], {}

	def post(P):
		n, h, out, i = P.st.ghost['nbits'], P.h, P.st.out, z3.Int('i')
		P.st.assume(defrun(n - 1))
		return [('one interval for each run', h['llen'][out] == z3.If(n == 0,
			z3.IntVal(0), RUN(n - 1) + 1)), ('first and last of each run',
			X.forall([i], z3.Implies(z3.And(0 <= i, i < n, z3.Or(i == n - 1,
			brk(i + 1))), z3.And(0 <= RUN(i), RUN(i) < h['llen'][out],
			h['lget'][out][RUN(i)] == interval(START(i), i))), patterns=[RUN(
			i)]))]
	return Contract('%s:intervals' % EVAL, [Case('', setup, post,
			generator=True)])


# --- bracketings -------------------------------------------------------------------
SUB = z3.Function('subtree', Int, V)  # the nodes of the tree, in order
LABEL = z3.Function('labelof', V, X.Str)
BITSET = z3.Function('bitsetof', V, Int)
NKIDS = z3.Function('numkids', V, Int)
CHILD = z3.Function('childof', V, V)  # the first child
PHRASAL = z3.Function('isnode', V, Bool)
PARENT = z3.Function('parentof', V, V)
DISC = z3.Function('discontinuous', V, Bool)
DELETED = z3.Function('deleted', V, Bool)


def use_allsubtrees(eng, st, recv, args, kwargs):
	"""subtrees() visits each node once (proved in C03)."""
	if args or kwargs:
		raise vc.Unsupported('arguments of subtrees')
	eng.oblige(st, 'nodes of the whole tree', recv.e == st.ghost['tree'])
	yield st, SSeq(st.ghost['nodes'], lambda j: SPure(SUB(j)))


def use_isinstance(eng, st, args, kwargs):
	yield st, SBool(PHRASAL(toV(args[0])))


def use_child(eng, st, r, i):
	eng.oblige(st, 'first child', z3.And(toV(i) == V.vint(0), NKIDS(r.e) > 0))
	yield st, SDyn(CHILD(r.e))


def use_nkids(eng, st, r, args, kwargs):
	yield st, SInt(NKIDS(r.e))


def use_nonempty(eng, st, r, args, kwargs):
	yield st, NKIDS(r.e) > 0


def get_label(eng, st, r):
	yield st, SStr(LABEL(r.e))


def get_bitset(eng, st, r):
	yield st, SInt(BITSET(r.e))


def get_parent(eng, st, r):
	yield st, SPure(PARENT(r.e))


def use_getattr(eng, st, args, kwargs):
	"""getattr(parent, 'label', ''): the root has no parent (None)."""
	if not (len(args) == 3 and isinstance(args[1], SStr) and z3.simplify(
			args[1].e).eq(X.strlit('label'))):
		raise vc.Unsupported('getattr')
	x = toV(args[0])
	yield st, SDyn(z3.If(V.is_none(x), toV(args[2]), V.vstr(LABEL(x))))


def use_isdisc(eng, st, args, kwargs):
	yield st, SBool(DISC(toV(args[0])))


def in_dellabel(eng, st, r, x):
	yield st, DELETED(toV(x))


def use_counter(eng, st, gexp, args, node):
	"""Counter(generator): a multiset of the values."""
	for s, r in pylib.listcomp(eng, gexp, st):
		if isinstance(r, X.Exc):
			yield s, r
			continue
		s.ghost['counted'] = s.heap['lget'][r.e], s.heap['llen'][r.e]
		yield s, SPure(z3.Const('counter', V))


def brackets(parented):
	def make():
		def setup(eng, st):
			tree, n, j = z3.Const('tree', V), z3.Int('nodes'), z3.Int('j')
			st.assume(n >= 0, X.forall([j], NKIDS(SUB(j)) >= 0, patterns=[SUB(
					j)]))
			st.ghost['tree'], st.ghost['nodes'] = tree, n
			return [SPure(tree), SBool(z3.Bool('labeled')), SPure(z3.Const(
					'dellabel', V)), SBool(z3.Bool('disconly'))], {}

		def post(P):
			n = P.st.ghost['nodes']
			if 'counted' not in P.st.ghost or 'comp' not in P.st.ghost:
				return [('multiset of bracketings', z3.BoolVal(False))]
			arr, m = P.st.ghost['counted']
			g, inv, _ = P.st.ghost['comp']
			i, j = z3.Ints('i j')
			labeled, disconly = z3.Bools('labeled disconly')
			x = SUB(j)
			keep = z3.And(NKIDS(x) > 0, PHRASAL(CHILD(x)), z3.Not(DELETED(
					V.vstr(LABEL(x)))), z3.Or(z3.Not(disconly), DISC(x)))
			item = STup([SStr(z3.If(labeled, LABEL(x), X.strlit(''))), SInt(
					BITSET(x))])
			if parented:
				item = STup([item, SDyn(z3.If(V.is_none(PARENT(x)), V.vstr(
					X.strlit('')), V.vstr(LABEL(PARENT(x)))))])
			return [('each phrase which is not excluded is counted',
				X.forall([j], z3.Implies(z3.And(0 <= j, j < n, keep), z3.And(
				0 <= inv(j), inv(j) < m, arr[inv(j)] == toV(item))), patterns=[
				x])),
				('once', X.forall([j], z3.Implies(z3.And(0 <= j, j < n, keep),
				g(inv(j)) == j), patterns=[x])),
				('nothing else', X.forall([i], z3.Implies(z3.And(0 <= i,
				i < m), z3.And(0 <= g(i), g(i) < n, inv(g(i)) == i,
				z3.substitute(keep, (j, g(i))))), patterns=[g(i)]))]
		return Contract('%s:%sbracketings' % (EVAL, 'parented' if parented
				else ''), [Case('', setup, post)])
	return make


def same(name):
	return lambda S: S.st.ghost[name]


UNIV = z3.Function('anyelement', Int, V)
PART = z3.Function('totalsofar', V, Int, Int)


def lemmas():
	"""What the totals mean.

	The elements of two multisets are listed as anyelement(0), ...,
	anyelement(m - 1); the total of a multiset is the sum of its counts."""
	a, b, m, k = z3.Const('ref', V), z3.Const('cand', V), z3.Int('m'), z3.Int(
			'k')
	c, d = BOTH(a, b), BOTH(b, a)
	x = z3.Const('x', V)
	facts = [m >= 0, k >= 0, k < m]
	for e in (a, b, c, d):
		facts += [PART(e, 0) == 0, PART(e, k + 1) == PART(e, k) + CNT(e, UNIV(
				k)), CNT(e, UNIV(k)) >= 0]
	facts += [CNT(e, UNIV(k)) == least(CNT(a, UNIV(k)), CNT(b, UNIV(k)))
			for e in (c, d)]
	at = lambda e: CNT(e, UNIV(k))
	res = []

	def induction(name, claim):
		res.append(Obligation('lemma', '%s: base' % name, [PART(e, 0) == 0
				for e in (a, b, c, d)], claim(z3.IntVal(0))))
		res.append(Obligation('lemma', '%s: step' % name, facts + [claim(k)],
				claim(k + 1)))
	induction('shared total is at most either total', lambda k: z3.And(
			0 <= PART(c, k), PART(c, k) <= PART(a, k), PART(c, k) <= PART(b,
			k)))
	induction('shared total does not depend on the order', lambda k:
			PART(c, k) == PART(d, k))
	# equality of totals: a ghost witness for a difference
	W = z3.Function('differsbefore', Int, Bool)
	facts.append(W(k + 1) == z3.Or(W(k), at(a) != at(b)))
	induction('perfect only if equal', lambda k: z3.And(PART(c, k)
			<= PART(a, k), PART(c, k) <= PART(b, k), z3.Implies(k == 0, z3.Not(
			W(k))), (z3.And(PART(c, k) == PART(a, k), PART(c, k) == PART(b,
			k)) == z3.Not(W(k)))) if not z3.is_int_value(k) else z3.Implies(
			z3.Not(W(0)), z3.And(PART(c, 0) == PART(a, 0), PART(c, 0)
			== PART(b, 0))))
	# a total is positive if there is an element
	S = z3.Function('occursbefore', Int, Bool)
	facts.append(S(k + 1) == z3.Or(S(k), at(a) > 0))
	induction('total of a multiset with elements', lambda k: z3.Implies(
			S(0) == False, z3.And(PART(a, k) >= 0, (PART(a, k) > 0) == S(k))))
	# scores
	t, u, v = z3.Reals('shared gold cand')
	r, p, f = z3.Reals('r p f')
	pre = [0 <= t, t <= u, t <= v, u > 0, v > 0, r * u == t, p * v == t]
	res.append(Obligation('lemma', 'recall and precision are between 0 and 1',
			pre, z3.And(0 <= r, r <= 1, 0 <= p, p <= 1)))
	res.append(Obligation('lemma', 'precision and recall are one only if the '
			'totals are equal', pre, z3.And((r == 1) == (t == u), (p == 1)
			== (t == v))))
	fpre = pre + [t > 0, f * (u + v) == 2 * t]
	res.append(Obligation('lemma', 'f-measure is the harmonic mean', fpre,
			f * (p + r) == 2 * p * r))
	res.append(Obligation('lemma', 'f-measure is one only if both are', fpre,
			z3.And(0 < f, f <= 1, (f == 1) == z3.And(t == u, t == v))))
	return res


TBL = ['lget']
LOOPS = {
	('mean', 0): LoopSpec(meaninv, kinds=dict(a='undef')),
	('harmean', 0): LoopSpec(harinv, kinds=dict(a='undef')),
	('intervals', 0): LoopSpec(intervalsinv, modifies=['lget', 'llen'],
		kinds=dict(a='undef', start='dyn', prev='dyn')),
	('editdistance', 0): LoopSpec(inv0, modifies=TBL, kinds=dict(i='undef'),
		ghosts=dict(rowof=(rowinit, same('rowof')))),
	('editdistance', 1): LoopSpec(inv1, modifies=TBL, kinds=dict(j='undef')),
	('editdistance', 2): LoopSpec(inv2, modifies=TBL, kinds=dict(i='undef',
		j='undef', a='undef', b='undef', c='undef')),
	('editdistance', 3): LoopSpec(inv3, modifies=TBL, kinds=dict(j='undef',
		a='undef', b='undef', c='undef')),
	}
CALLEES = {
	'sum': use_sum, 'Decimal': use_decimal, 'SPure.__and__': use_and,
	'SPure.__iter__': use_keys, 'SPure.keys': use_keys,
	'SPure.values': use_values, 'SPure.items': use_items,
	'SPure.__getitem__': use_count, 'SPure.__bool__': use_bool,
	'SPure.__len__': use_len, 'SPure.__truediv__': nanop,
	'SPure.__add__': nanop, 'SPure.__sub__': nanop, 'SPure.__mul__': nanop,
	'recall': use_ratio(0), 'precision': use_ratio(1), 'getbits': use_getbits,
	}
TREES = {
	'SPure.subtrees': use_allsubtrees, 'SPure.__getitem__': use_child,
	'SPure.__len__': use_nkids, 'SPure.__bool__': use_nonempty,
	'SPure.__contains__': in_dellabel, 'get label': get_label,
	'get bitset': get_bitset, 'get parent': get_parent,
	'isinstance': use_isinstance, 'getattr': use_getattr,
	'isdisc': use_isdisc, 'gen Counter': use_counter,
	}


def mk(name):
	return Engine(classes={}, attrs={}, loops=LOOPS, refeq='identity',
			callees=TREES if name.endswith('bracketings') else CALLEES, dynclasses=['list'])


CONTRACTS = [c_recall, c_precision, c_fmeasure, c_accuracy, c_mean, c_harmean,
		c_editdistance, c_intervals, brackets(False), brackets(True)]
