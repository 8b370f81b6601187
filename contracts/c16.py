"""Contracts of yield functions (C16): composition and encodings."""
import z3
from pv import vc, pyexec as X, pylib
from pv import intbits as ib
from pv.pyexec import (V, Int, Bool, SInt, SDyn, SRef, SNone, STup, SStr, SBool,
		SReal, SCallback, Case, Contract, LoopSpec, Engine, fresh, toV)
from pv.vc import Obligation

GEN = 'discodop/gen.py'
TT = 'discodop/treetransforms.py'
ALLOCS = ['lget', 'llen']
# number of arguments before argument b of component n that come from the
# left (right) nonterminal; position in its component of what comes from it.
LEFT = z3.Function('fromleft', Int, Int, Int)
RIGHT = z3.Function('fromright', Int, Int, Int)
OFF = z3.Function('offset', Int, Int, Int)


class Rule(object):
	"""The yield function of a rule and the spans of its right-hand side."""
	def __init__(self, eng, st):
		self.h = h = st.heap.copy()
		self.rule, self.l1, self.l2 = z3.Ints('rule l1 l2')
		self.args, self.lengths = V.ref(h['args'][self.rule]), V.ref(h[
				'lengths'][self.rule])
		self.lst = eng.classid('list')

	def ncomp(self):
		return self.h['llen'][self.lengths]

	def len(self, n):
		return V.i(self.h['lget'][self.lengths][n])

	def right(self, n, b):
		return ib.shr(V.i(self.h['lget'][self.args][n]), b) % 2 == 1

	def span(self, n, b):
		"""The list of words which is argument b of component n."""
		return V.ref(z3.If(self.right(n, b), self.h['lget'][self.l2][RIGHT(n,
				b)], self.h['lget'][self.l1][LEFT(n, b)]))

	def define(self, n, b):
		"""Definitions at argument b of component n."""
		r = self.right(n, b)
		one = lambda c: z3.If(c, z3.IntVal(1), z3.IntVal(0))
		return z3.Implies(z3.And(0 <= n, n < self.ncomp(), 0 <= b,
			b < self.len(n)), z3.And(RIGHT(n, b + 1) == RIGHT(n, b) + one(r),
			LEFT(n, b + 1) == LEFT(n, b) + one(z3.Not(r)), OFF(n, b + 1)
			== OFF(n, b) + self.h['llen'][self.span(n, b)]))

	def start(self, n):
		"""Definitions at the start of component n."""
		return z3.And(OFF(n, 0) == 0, z3.If(n == 0, z3.And(RIGHT(n, 0) == 0,
				LEFT(n, 0) == 0), z3.And(RIGHT(n, 0) == RIGHT(n - 1,
				self.len(n - 1)), LEFT(n, 0) == LEFT(n - 1, self.len(n - 1))
				)))

	def wf(self):
		h = self.h
		i, n, b = z3.Ints('i n b')
		islist = lambda r: z3.And(0 < r, r < h.alloc, X.clsof(r) == self.lst,
				h['llen'][r] >= 0)
		item = lambda l: h['lget'][l][i]
		used = lambda n, b: z3.If(self.right(n, b), z3.And(0 <= RIGHT(n, b),
				RIGHT(n, b) < h['llen'][self.l2]), z3.And(0 <= LEFT(n, b),
				LEFT(n, b) < h['llen'][self.l1]))
		return [islist(x) for x in (self.l1, self.l2, self.args,
				self.lengths)] + [self.l1 != self.l2, self.args != self.l1,
			self.args != self.l2, self.lengths != self.l1,
			self.lengths != self.l2, self.lengths != self.args,
			V.is_vref(h['args'][self.rule]), V.is_vref(h['lengths'][
				self.rule]), h['llen'][self.args] == self.ncomp(),
			X.forall([i], z3.Implies(z3.And(0 <= i, i < self.ncomp()), z3.And(
				V.is_vint(item(self.args)), V.i(item(self.args)) >= 0)),
				patterns=[item(self.args)]),
			X.forall([i], z3.Implies(z3.And(0 <= i, i < self.ncomp()), z3.And(
				V.is_vint(item(self.lengths)), V.i(item(self.lengths)) >= 0)),
				patterns=[item(self.lengths)]),
			# spans are lists, none of them one of the lists above
			] + [X.forall([i], z3.Implies(z3.And(0 <= i, i < h['llen'][l]),
				z3.And(V.is_vref(item(l)), islist(V.ref(item(l))), V.ref(
				item(l)) != self.l1, V.ref(item(l)) != self.l2)),
				patterns=[item(l)]) for l in (self.l1, self.l2)] + [
			# there are as many spans as the yield function uses
			X.forall([n, b], z3.Implies(z3.And(0 <= n, n < self.ncomp(),
				0 <= b, b < self.len(n)), used(n, b)), patterns=[
				OFF(n, b)])]


def consumed(S, r, n, b):
	"""What is left of the spans of both sides at argument b of n."""
	h, o = S.h, r.h
	i = z3.Int('i')
	res = []
	for l, cnt, who in ((r.l1, LEFT(n, b), 'left'), (r.l2, RIGHT(n, b),
			'right')):
		res.extend([('%s: number of spans left' % who, z3.And(cnt >= 0,
				h['llen'][l] == o['llen'][l] - cnt)),
			('%s: spans left' % who, X.forall([i], z3.Implies(z3.And(0 <= i,
				i < h['llen'][l]), h['lget'][l][i] == o['lget'][l][cnt + i]),
				patterns=[h['lget'][l][i]]))])
	return res


def frame(S, r):
	k = z3.Int('k')
	h, o = S.h, r.h
	return [('other lists are unchanged', X.forall([k], z3.Implies(z3.And(
			0 < k, k < o.alloc, k != r.l1, k != r.l2), z3.And(h['llen'][k]
			== o['llen'][k], h['lget'][k] == o['lget'][k])),
			patterns=[h['llen'][k], h['lget'][k]]))]


def component(S, r, l, n, upto):
	"""The list l is the concatenation of the first arguments of n."""
	return z3.And(S.h['llen'][l] == OFF(n, upto), contents(S, r, l, n, upto))


def contents(S, r, l, n, upto, first=None):
	h = S.h
	b, i = z3.Ints('b i')
	sp = r.span(n, b)
	bound, pat, cond = [b, i], [OFF(n, b), r.h['lget'][sp][i]], True
	if first is not None:
		bound, pat, cond = [n] + bound, pat + [l], first
	return X.forall(bound, z3.Implies(z3.And(cond, 0 <= b, b < upto, 0 <= i,
		i < r.h['llen'][sp]), z3.And(0 <= OFF(n, b), OFF(n, b) + i
		< h['llen'][l], h['lget'][l][OFF(n, b) + i] == r.h['lget'][sp][i])),
		patterns=[z3.MultiPattern(*pat)])


def composed(S, r, res, k):
	"""The first k components of the result."""
	h = S.h
	n = z3.Int('n')
	it = h['lget'][res][n]
	return [('result is a new list', z3.And(res >= r.h.alloc, res < h.alloc,
			h['llen'][res] == k)),
		('components are new lists', X.forall([n], z3.Implies(z3.And(0 <= n,
			n < k), z3.And(V.is_vref(it), V.ref(it) >= r.h.alloc, V.ref(it)
			< h.alloc, V.ref(it) != res)), patterns=[it])),
		('lengths of components', X.forall([n], z3.Implies(z3.And(0 <= n,
			n < k), h['llen'][V.ref(it)] == OFF(n, r.len(n))),
			patterns=[it])),
		('components are composed', contents(S, r, V.ref(it), n, r.len(n),
			z3.And(0 <= n, n < k)))]


def outerinv(S):
	r = S.st.ghost['rule']
	n = S.st.ghost['comp'] = S.i
	S.st.assume(r.start(n))
	return composed(S, r, S.ref('result'), n) + consumed(S, r, n,
			z3.IntVal(0)) + frame(S, r)


def innerinv(S):
	r = S.st.ghost['rule']
	n, b, arg, res = S.st.ghost['comp'], S.i, S.ref('arg'), S.ref('result')
	k = z3.Int('k')
	h, o = S.h, S.pre
	S.st.assume(r.define(n, b - 1), r.define(n, b), OFF(n, b) == OFF(n, b))
	return [('vector of this component', z3.And(0 <= n, n < r.ncomp(),
			V.i(h['lget'][r.args][n]) >= 0, h['lget'][r.args] == r.h['lget'][r.args])),
		('component is a new list', z3.And(arg >= r.h.alloc, arg < h.alloc,
			arg != res, OFF(n, b) >= 0)),
		('component is not in the result', X.forall([k], z3.Implies(z3.And(
			0 <= k, k < h['llen'][res]), V.ref(h['lget'][res][k]) != arg),
			patterns=[h['lget'][res][k]])),
		('the result so far is unchanged', X.forall([k], z3.Implies(z3.And(
			r.h.alloc <= k, k < o.alloc, k != arg), z3.And(h['llen'][k]
			== o['llen'][k], h['lget'][k] == o['lget'][k])), patterns=[
			h['llen'][k], h['lget'][k]])),
		('component so far', component(S, r, arg, n, b))
		] + consumed(S, r, n, b) + frame(S, r)


def c_compose():
	def setup(eng, st):
		r = Rule(eng, st)
		st.assume(0 < r.rule, r.rule < st.heap.alloc, X.clsof(r.rule)
				== eng.classid('Rule'), *r.wf())
		st.assume(X.forall([z3.Int('i')], r.h['llen'][z3.Int('i')] >= 0,
				patterns=[r.h['llen'][z3.Int('i')]]))
		st.assume(*ib.shiftaxioms())
		st.ghost['rule'] = r
		p1, p2 = z3.Reals('p1 p2')
		return [SRef(r.rule, 'Rule'), STup([SReal(p1), SRef(r.l1, 'list')]),
				STup([SReal(p2), SRef(r.l2, 'list')]), SBool(False)], {}

	def post(P):
		r = P.st.ghost['rule']
		p, res = P.result.items
		p1, p2 = z3.Reals('p1 p2')
		return [('probability is the product', p.e == V.r(r.h['prob'][r.rule])
				* p1 * p2)] + composed(P, r, res.e, r.ncomp()) + frame(P, r)
	return Contract('%s:compose' % GEN, [Case('', setup, post)])


# --- getyf -------------------------------------------------------------------
POS = z3.Function('changes', Int, Int)


class Parts(object):
	"""Which of two nodes has each terminal, as a run-length encoded string.

	ch(n) is the symbol of terminal n: '0' for the left node, '1' for the
	right one, ',' for neither; POS(n): number of changes before n."""
	def __init__(self, left, right):
		self.left, self.right = left, right

	def bits(self):
		a, b = ib.blen(self.left), ib.blen(self.right)
		return z3.If(a >= b, a, b)

	def ch(self, n):
		has = lambda x: ib.shr(x, n) % 2 == 1
		lit = lambda c: V.vstr(X.strlit(c))
		return z3.If(n < 0, lit(','), z3.If(has(self.left), lit('0'), z3.If(
				has(self.right), lit('1'), lit(','))))

	def changed(self, n):
		return self.ch(n) != self.ch(n - 1)

	def define(self, n):
		return z3.Implies(n >= 0, POS(n + 1) == POS(n) + z3.If(self.changed(n),
				z3.IntVal(1), z3.IntVal(0)))

	def claim(self, get, length, n):
		"""The list are the symbols of terminals before n where they change."""
		k = z3.Int('k')
		return [('number of parts', z3.And(length == 1 + POS(n), POS(n) >= 0)),
			('starts with ;', get(z3.IntVal(0)) == V.vstr(X.strlit(';'))),
			('one part for every change', X.forall([k], z3.Implies(z3.And(
				0 <= k, k < n), z3.And(0 <= POS(k), POS(k) <= POS(n),
				z3.Implies(self.changed(k), z3.And(POS(k) < POS(n),
				get(1 + POS(k)) == self.ch(k))))), patterns=[POS(k)]))]


def yfinv(S):
	p = S.st.ghost['parts']
	n, res = S.i, S.ref('result')
	h = S.h
	cur = toV(S['cur'])
	S.st.assume(p.define(n), p.define(n - 1), POS(0) == 0)
	return p.claim(lambda k: h['lget'][res][k], h['llen'][res], n) + [
			('last symbol', cur == p.ch(n - 1)),
			('list is new', z3.And(res >= S.st.ghost['h0'].alloc,
			res < h.alloc))]


def use_join(eng, st, recv, args, kwargs):
	"""str.join: a function of the separator and the sequence of strings."""
	n, get, arr = pylib.elementarray(eng, args[0], st)
	st.ghost['joined'] = (recv.e, arr, n)
	yield st, SStr(z3.Function('join', X.Str, arr.sort(), Int, X.Str)(recv.e,
			arr, n))


def c_getyf():
	def mk(two):
		def setup(eng, st):
			h0 = st.heap.copy()
			a, b = z3.Ints('a b')
			ha, hb = h0['bitset'][a], h0['bitset'][b]
			one = lambda x: [0 < x, x < h0.alloc, X.clsof(x) == eng.classid(
					'Tree'), V.is_vint(h0['bitset'][x]), V.i(h0['bitset'][x])
					>= 0]
			st.assume(*one(a))
			st.assume(*ib.shiftaxioms())
			if two:
				st.assume(*one(b))
			st.ghost['parts'] = Parts(V.i(ha), V.i(hb) if two
					else z3.IntVal(0))
			k, zero = z3.Int('k'), z3.IntVal(0)
			st.assume(ib.unfold_blen(zero), X.forall([k], z3.Implies(k >= 0,
					ib.L_shrzero(zero, zero, k)), patterns=[ib.shr(zero, k)]))
			st.ghost['h0'] = h0
			return [SRef(a, 'Tree'), SRef(b, 'Tree') if two else SNone()], {}
		return setup

	def post(P):
		p = P.st.ghost['parts']
		if 'joined' not in P.st.ghost:
			return [('result is joined from parts', z3.BoolVal(False))]
		sep, arr, n = P.st.ghost['joined']
		k = z3.Int('k')
		return [('parts are joined without separator', z3.And(
				sep == X.strlit(''), P.result.e == z3.Function('join', X.Str,
				arr.sort(), Int, X.Str)(sep, arr, n)))] + p.claim(lambda k:
				arr[k], n, p.bits()) + [
				('no other terminals', X.forall([k], z3.Implies(k >= p.bits(),
				p.ch(k) == V.vstr(X.strlit(','))), patterns=[ib.shr(p.left,
				k)])), ('nothing is changed', z3.And(P.h['bitset'] is
				not None, P.h['bitset'] == P.st.ghost['h0']['bitset']))]
	return Contract('%s:getyf' % TT, [Case('two nodes', mk(True), post),
			Case('one node', mk(False), post)])


# --- packed yield functions --------------------------------------------------
BITS = dict(I=32, H=16)


def use_array(eng, st, args, kwargs):
	"""array.array: a new sequence; its elements have to fit."""
	code = args[0].e
	size = None
	for c, n in BITS.items():
		if code.eq(X.strlit(c)):
			size = n
	if size is None or len(args) > 2:
		raise vc.Unsupported('array of unknown type')
	if len(args) == 1:
		r = eng.alloc(st, 'arraytype')
		st.heap['itemsize'] = z3.Store(st.heap['itemsize'], r,
				V.vint(size // 8))
		yield st, SRef(r, 'arraytype')
		return
	for s, it in eng.iterable(args[1], st):
		n, get, arr = pylib.elementarray(eng, it, s)
		j = z3.Int('j')
		eng.oblige(s, 'elements fit in %d bits' % size, X.forall([j],
				z3.Implies(z3.And(0 <= j, j < n), z3.And(V.is_vint(arr[j]),
				V.i(arr[j]) >= 0, V.i(arr[j]) < 2 ** size))))
		yield s, eng.newlist(s, n=n, arr=arr)


def L_join(a, m, d, k):
	"""Bits of a + d * 2 ** m where a has m bits."""
	top = z3.If(d, ib.pow2(m), z3.IntVal(0))
	return z3.Implies(z3.And(m >= 0, k >= 0, 0 <= a, a < ib.pow2(m)), z3.And(
			ib.bit(a + top, k) == z3.If(k < m, ib.bit(a, k), z3.And(k == m,
			d))))


def L_digits(digit, arr, m, k):
	"""The first m terms digit(i) * 2 ** i of arr have the digits as bits."""
	t = pylib.PSUM(arr, m)
	return z3.Implies(z3.And(m >= 0, k >= 0), z3.And(0 <= t, t < ib.pow2(m),
			ib.bit(t, k) == z3.And(k < m, digit(k))))


def lemmas():
	a, m, k = z3.Ints('a m k')
	d = z3.Bool('d')
	half = a / 2
	top = z3.If(d, ib.pow2(m), z3.IntVal(0))
	obs = [Obligation('lemma', 'bits of a number with a new first bit', [
			ib.unfold_pow2(m), ib.unfold_shr(a, k), ib.unfold_shr(a + top, k),
			ib.shr(half, 0) == half, ib.shr((a + top) / 2, 0) == (a + top) / 2,
			ib.unfold_shr(half, k - 1), z3.Implies(m == 0, z3.Implies(k > 0,
			ib.shr(0, k - 1) == 0)), ib.shr(z3.IntVal(0), 0) == 0,
			z3.Implies(m > 0, z3.And(ib.pow2(m - 1) > 0, z3.Implies(k > 0,
			L_join(half, m - 1, d, k - 1))))], L_join(a, m, d, k))]
	arr = z3.Const('arr', z3.ArraySort(Int, V))
	f = z3.Function('digit', Int, Bool)
	t = pylib.PSUM(arr, m - 1)
	obs.append(Obligation('lemma', 'bits of a sum of digits', [m > 0,
			pylib.PSUM(arr, m) == t + z3.If(f(m - 1), ib.pow2(m - 1),
			z3.IntVal(0)), L_digits(f, arr, m - 1, k), ib.unfold_pow2(m),
			ib.pow2(m - 1) > 0, L_join(t, m - 1, f(m - 1), k)],
			L_digits(f, arr, m, k)))
	obs.append(Obligation('lemma', 'bits of no digits', [pylib.PSUM(arr, 0)
			== 0, z3.Implies(k >= 0, ib.shr(0, k) == 0), ib.pow2(0) == 1],
			L_digits(f, arr, z3.IntVal(0), k)))
	obs.append(Obligation('lemma', 'nothing is a member of zero', [
			ib.unfold_shr(z3.IntVal(0), k), z3.Implies(k > 0, ib.shr(0, k - 1)
			== 0)], z3.Implies(k >= 0, ib.shr(0, k) == 0)))
	x = z3.Int('x')
	obs.append(Obligation('lemma', 'powers of two increase', [
			ib.unfold_pow2(m), z3.Implies(z3.And(0 <= k, k <= m - 1),
			ib.pow2(k) <= ib.pow2(m - 1)), z3.Implies(m > 0, ib.pow2(m - 1)
			> 0)], z3.Implies(z3.And(0 <= k, k <= m), ib.pow2(k)
			<= ib.pow2(m))))
	return obs + ib.shiftlemmas()


def use_sum(eng, st, args, kwargs):
	"""sum() of digits of a binary number (lemma, see L_digits)."""
	for s, r in pylib.b_sum(eng, st, args, kwargs):
		if 'sum' not in s.ghost:
			yield s, r
			continue
		arr, n = s.ghost['sum']
		i, k = z3.Ints('i k')
		eng.oblige(s, 'terms are digits of a binary number', X.forall([i],
				z3.Implies(z3.And(0 <= i, i < n), z3.Or(arr[i] == V.vint(0),
				arr[i] == V.vint(ib.pow2(i)))), patterns=[arr[i]]))
		s.assume(X.forall([k], L_digits(lambda i: arr[i] != V.vint(0), arr, n,
				k), patterns=[ib.shr(r.e, k)]), r.e >= 0,
				z3.Implies(z3.And(0 <= n, n <= 32), ib.pow2(n) <= ib.pow2(32)),
				r.e < ib.pow2(n), z3.IntVal(2 ** 32) == ib.pow2(32))
		yield s, r


def use_map(eng, st, args, kwargs):
	fn, it = args
	if not (isinstance(fn, X.SName) and fn.name == 'len'):
		raise vc.Unsupported('map')
	q = X.SSeq(it.n, lambda j: SInt(it.get(j).n))
	yield st, q


def c_yfarray():
	n = z3.Int('ncomponents')
	m = z3.Function('nargs', Int, Int)
	bit = z3.Function('yfbit', Int, z3.ArraySort(Int, V))

	def setup(eng, st):
		i, k = z3.Ints('i k')
		st.assume(0 <= n, n <= 16, X.forall([i], z3.Implies(z3.And(0 <= i,
				i < n), z3.And(0 <= m(i), m(i) <= 32)), patterns=[m(i)]),
				X.forall([i, k], z3.Implies(z3.And(0 <= i, i < n, 0 <= k,
				k < m(i)), z3.Or(bit(i)[k] == V.vint(0), bit(i)[k] == V.vint(1)
				)), patterns=[bit(i)[k]]), *ib.shiftaxioms())

		def row(i):
			q = X.SSeq(m(i), lambda k: SDyn(bit(i)[k]))
			q.types, q.arr = ('tuple', ), bit(i)
			return q
		q = X.SSeq(n, row)
		q.types = ('tuple', )
		return [q], {}

	def post(P):
		a, l = P.result.items
		get, ln = P.h['lget'], P.h['llen']
		i, k = z3.Ints('i k')
		vec = get[a.e][i]
		return [('one vector and length for each component', z3.And(
				ln[a.e] == n, ln[l.e] == n)),
			('lengths', X.forall([i], z3.Implies(z3.And(0 <= i, i < n),
				get[l.e][i] == V.vint(m(i))))),
			('vectors', X.forall([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(
				V.is_vint(vec), V.i(vec) >= 0)))),
			('bits are the arguments', X.forall([i, k], z3.Implies(z3.And(
				0 <= i, i < n, 0 <= k), ib.bit(V.i(vec), k) == z3.And(
				k < m(i), bit(i)[k] == V.vint(1)))))]
	return Contract('%s:yfarray' % GEN, [Case('', setup, post)])


def c_arraytoyf():
	def setup(eng, st):
		h = st.heap
		a, l = z3.Ints('a l')
		i = z3.Int('i')
		ok = lambda r: [0 < r, r < h.alloc, X.clsof(r) == eng.classid('list'),
				h['llen'][r] >= 0, X.forall([i], z3.Implies(z3.And(0 <= i,
				i < h['llen'][r]), z3.And(V.is_vint(h['lget'][r][i]),
				V.i(h['lget'][r][i]) >= 0)), patterns=[h['lget'][r][i]])]
		st.assume(*(ok(a) + ok(l) + ib.shiftaxioms() + [
				h['llen'][a] == h['llen'][l]]))
		st.ghost['h0'] = h.copy()
		return [SRef(a, 'list'), SRef(l, 'list')], {}

	def post(P):
		h = P.st.ghost['h0']
		a, l = z3.Ints('a l')
		i, k = z3.Ints('i k')
		q = P.result
		if not isinstance(q, X.SSeq) or not isinstance(q.get(i), X.SSeq):
			return [('a tuple of tuples', z3.BoolVal(False))]
		row = q.get(i)
		inr = z3.And(0 <= i, i < h['llen'][l])
		return [('one component for each vector', q.n == h['llen'][l]),
			('lengths', X.forall([i], z3.Implies(inr, row.n == V.i(h['lget'][l][
				i])))),
			('arguments are the bits', X.forall([i, k], z3.Implies(z3.And(inr,
				0 <= k, k < row.n), toV(row.get(k)) == V.vint(z3.If(ib.bit(
				V.i(h['lget'][a][i]), k), z3.IntVal(1), z3.IntVal(0))))))]
	return Contract('%s:arraytoyf' % GEN, [Case('', setup, post)])


LOOPS = {
	('getyf', 0): LoopSpec(yfinv, modifies=ALLOCS,
		kinds=dict(n='undef', mask='undef')),
	('compose', 0): LoopSpec(outerinv, modifies=ALLOCS, allocs=True,
		kinds=dict(n='undef', a='undef', arg='undef', b='undef')),
	('compose', 1): LoopSpec(innerinv, modifies=ALLOCS, kinds=dict(b='undef'),
		allocs=True),
	}
CLASSES = {'Rule': [], 'Tree': [], 'arraytype': []}
ATTRS = {('arraytype', 'itemsize'): 'int', ('Tree', 'bitset'): 'int', ('Rule', 'args'): 'list', ('Rule', 'lengths'): 'list',
	('Rule', 'prob'): 'real'}


def mk(name):
	callees = {'SStr.join': use_join, 'array': use_array, 'sum': use_sum,
			'map': use_map}
	return Engine(classes=CLASSES, attrs=ATTRS, loops=LOOPS, bits=ib.pybits, dynclasses=('list', ),
			refeq='identity', callees=callees)


CONTRACTS = [c_compose, c_getyf, c_yfarray, c_arraytoyf]
