"""Contracts of the functions on spans (C05): blocks, discontinuity, bit sets.

BREAK(s, i): a block starts at s[i]; START(i): start of the block of position i;
BLK(i): number of blocks before that of position i. The definitions determine
these functions uniquely for every sequence."""
import z3
from pv import vc, pyexec as X, pylib
from pv import intbits as ib
from pv.pyexec import (V, Int, Bool, SInt, SDyn, SRef, SNone, STup, SStr, SBool,
		SCallback, Case, Contract, LoopSpec, Engine, fresh, toV)
from pv.vc import Obligation

TREE = 'discodop/tree.py'
GRAMMAR = 'discodop/grammar.py'
TT = 'discodop/treetransforms.py'
START = z3.Function('blockstart', Int, Int)
BLK = z3.Function('blockno', Int, Int)
ALLOCS = ['lget', 'llen']


class Spans(object):
	def __init__(self, get, n):
		self.get, self.n = get, n

	def at(self, i):
		return V.i(self.get(i))

	def brk(self, i):
		return z3.Or(i == 0, self.at(i) != self.at(i - 1) + 1)

	def define(self, i):
		"""The definition of START and BLK at i."""
		return z3.Implies(z3.And(0 <= i, i < self.n), z3.And(START(i)
				== z3.If(self.brk(i), i, START(i - 1)), BLK(i) == z3.If(
				i == 0, z3.IntVal(0), z3.If(self.brk(i), BLK(i - 1) + 1,
				BLK(i - 1)))))

	def sameblock(self, i, j):
		"""The positions from START(i) up to i are one block."""
		return z3.Implies(z3.And(0 <= i, i < self.n), z3.And(0 <= START(i),
				START(i) <= i, 0 <= BLK(i), self.brk(START(i)), z3.Implies(
				z3.And(START(i) <= j, j <= i), z3.And(START(j) == START(i),
				BLK(j) == BLK(i), z3.Implies(j > START(i), z3.Not(self.brk(
				j)))))))

	def axioms(self):
		"""Proved by induction in lemmas()."""
		i, j = z3.Ints('i j')
		return [X.forall([i, j], self.sameblock(i, j), patterns=[
				z3.MultiPattern(START(i), BLK(j))])]


def lemmas():
	"""Induction on i: sameblock(i, j) for all j."""
	get = z3.Const('elements', z3.ArraySort(Int, V))
	sp = Spans(lambda i: get[i], z3.Int('n'))
	i, j = z3.Ints('i j')
	base = Obligation('lemma:sameblock', 'i = 0', [sp.define(z3.IntVal(0))],
			sp.sameblock(z3.IntVal(0), j))
	step = Obligation('lemma:sameblock', 'i > 0', [i > 0, sp.define(i),
			z3.ForAll([j], sp.sameblock(i - 1, j), patterns=[BLK(j)]),
			START(j) == START(j), BLK(j) == BLK(j)], sp.sameblock(i, j))
	return [base, step] + ib.shiftlemmas() + sumlemmas()


def seqlist(eng, st, name='seq'):
	"""A list of integers."""
	r = z3.Const(name, Int)
	h = st.heap
	i = z3.Int('i')
	get = h['lget'][r]
	st.assume(0 < r, r < h.alloc, X.clsof(r) == eng.classid('list'),
			h['llen'][r] >= 0, X.forall([i], z3.Implies(z3.And(0 <= i,
			i < h['llen'][r]), V.is_vint(get[i])), patterns=[get[i]]))
	sp = Spans(lambda i: get[i], h['llen'][r])
	st.ghost['sp'] = sp
	st.ghost['entry'] = h.copy()
	return SRef(r, 'list'), sp


def unchanged(P):
	n = z3.Int('n')
	h, o = P.h, P.st.ghost['entry']
	return [('existing lists are unchanged', X.forall([n], z3.Implies(z3.And(
			0 < n, n < o.alloc), z3.And(h['llen'][n] == o['llen'][n],
			h['lget'][n] == o['lget'][n])), patterns=[h['llen'][n],
			h['lget'][n]]))]


def blocks(P, l, upto, k):
	"""The list l has the blocks of the first k elements, the last of which
	belongs to block number upto - 1."""
	sp = P.st.ghost['sp']
	h = P.h
	o = P.st.ghost['entry']
	i, b = z3.Ints('i b')
	item = lambda i: h['lget'][l][BLK(i)]
	blk = lambda b: h['lget'][l][b]
	return [('number of blocks', h['llen'][l] == upto),
		('blocks are new lists', X.forall([b], z3.Implies(z3.And(0 <= b,
			b < upto), z3.And(V.is_vref(blk(b)), V.ref(blk(b)) >= o.alloc,
			V.ref(blk(b)) < h.alloc, V.ref(blk(b)) != l, X.clsof(V.ref(blk(
			b))) == P.eng.classid('list'))), patterns=[blk(b)])),
		('elements are in their blocks', X.forall([i], z3.Implies(z3.And(
			0 <= i, i < k), z3.And(BLK(i) < upto, h['lget'][V.ref(item(i))][
			i - START(i)] == sp.get(i), i - START(i) < h['llen'][V.ref(
			item(i))])), patterns=[sp.get(i)])),
		('blocks end where they end', X.forall([i], z3.Implies(z3.And(
			1 <= i, i <= k, z3.Or(i == k, sp.brk(i))), h['llen'][V.ref(item(
			i - 1))] == i - START(i - 1)), patterns=[BLK(i - 1)]))]


def rangesinv(S):
	sp = S.st.ghost['sp']
	h, o = S.h, S.st.ghost['entry']
	rng, out, k = S.ref('rng'), S.st.out, S.i
	st0 = z3.If(k == 0, z3.IntVal(0), START(k - 1))
	j, b = z3.Ints('j b')
	nblk = z3.If(k == 0, z3.IntVal(0), BLK(k - 1))
	return [('current block is a new list', z3.And(rng >= o.alloc, rng
			< h.alloc, rng != out, out >= o.alloc, out < h.alloc,
			X.clsof(rng) == S.eng.classid('list'))),
		('current block is not produced yet', X.forall([b], z3.Implies(
			z3.And(0 <= b, b < nblk), h['lget'][out][b] != V.vref(rng)),
			patterns=[h['lget'][out][b]])),
		('length of current block', h['llen'][rng] == k - st0),
		('current block is nonempty', z3.Implies(k > 0, h['llen'][rng] > 0)),
		('current block', X.forall([j], z3.Implies(z3.And(0 <= j,
			j < k - st0), h['lget'][rng][j] == sp.get(st0 + j)),
			patterns=[h['lget'][rng][j]])),
		] + blocks(S, out, nblk, st0) + unchanged(S)


def rangespost(P):
	sp = P.st.ghost['sp']
	n = sp.n
	return blocks(P, P.st.out, z3.If(n == 0, z3.IntVal(0), BLK(n - 1) + 1),
			n) + unchanged(P)


def c_ranges(path):
	def make():
		def setup(eng, st):
			s, sp = seqlist(eng, st)
			st.assume(*sp.axioms())
			return [s], {}
		return Contract('%s:ranges' % path, [Case('', setup, rangespost,
				generator=True)])
	return make


def members(st, sp, name='in'):
	"""in(x): x is one of the elements of the list."""
	IN = z3.Function(name + '_s', Int, Bool)
	AT = z3.Function(name + '_at', Int, Int)
	i, x = z3.Ints('i x')
	st.assume(X.forall([i], z3.Implies(z3.And(0 <= i, i < sp.n), IN(sp.at(
			i))), patterns=[sp.get(i)]), X.forall([x], z3.Implies(IN(x),
			z3.And(0 <= AT(x), AT(x) < sp.n, sp.at(AT(x)) == x,
			sp.get(AT(x)) == V.vint(x))), patterns=[IN(x)]))
	st.ghost['in'] = IN
	return IN


def increasing(st, sp):
	i, j = z3.Ints('i j')
	st.assume(X.forall([i, j], z3.Implies(z3.And(0 <= i, i < j, j < sp.n),
			sp.at(i) < sp.at(j)), patterns=[z3.MultiPattern(sp.get(i),
			sp.get(j))]))


def c_rangeheads():
	def setup(eng, st):
		s, sp = seqlist(eng, st)
		members(st, sp)
		increasing(st, sp)
		return [s], {}

	def post(P):
		sp, IN = P.st.ghost['sp'], P.st.ghost['in']
		l = P.result.e
		get, n = P.h['lget'][l], P.h['llen'][l]
		i, j = z3.Ints('i j')
		x = V.i(get[i])
		return [('each is the start of a block', X.forall([i], z3.Implies(
				z3.And(0 <= i, i < n), z3.And(V.is_vint(get[i]), IN(x),
				z3.Not(IN(x - 1)))), patterns=[get[i]])),
			('every start of a block occurs', X.forall([i], z3.Implies(z3.And(
				0 <= i, i < sp.n, z3.Not(IN(sp.at(i) - 1))), z3.Exists([j],
				z3.And(0 <= j, j < n, get[j] == sp.get(i)))),
				patterns=[sp.get(i)])),
			('they are in order', X.forall([i, j], z3.Implies(z3.And(0 <= i,
				i < j, j < n), V.i(get[i]) < V.i(get[j])), patterns=[
				z3.MultiPattern(get[i], get[j])]))] + unchanged(P)
	return Contract('%s:rangeheads' % GRAMMAR, [Case('', setup, post)])


# --- discontinuity -------------------------------------------------------------
DISC = z3.Const('disc', Bool)
BITS = z3.Function('bitset', Int, Int)
ATTRS = {('Tree', 'label'): 'dyn', ('Tree', 'children'): 'list',
	('Tree', 'source'): 'dyn', ('Tree', 'type'): 'dyn',
	('ImmutableTree', 'bitset'): 'int'}
CLASSES = {'Tree': [(TREE, 'Tree')],
	'ImmutableTree': [(TREE, 'ImmutableTree'), (TREE, 'Tree')]}


def use_leaves(eng, st, args, kwargs):
	"""Contract of Tree.leaves (proved in C03): the leaves, in a new list."""
	sp = st.ghost['sp']
	arr = st.ghost['entry']['lget'][z3.Const('leaves', Int)]
	yield st, eng.newlist(st, n=sp.n, arr=arr)


def use_bitfanout(eng, st, args, kwargs):
	"""Contract of bit.fanout (proved in C01)."""
	yield st, SInt(ib.blocks(args[0].e))


def c_isdisc():
	def setup(cls):
		def s(eng, st):
			l, sp = seqlist(eng, st, 'leaves')
			IN = members(st, sp)
			i, j = z3.Ints('i j')
			u, w = z3.Ints('u w')
			# a gap: u is a leaf, u + 1 is not, w > u + 1 is
			st.assume(sp.n >= 1, X.forall([i, j], z3.Implies(z3.And(0 <= i,
				i < j, j < sp.n), sp.at(i) != sp.at(j)), patterns=[
				z3.MultiPattern(sp.get(i), sp.get(j))]),
				X.forall([i, j], z3.Implies(z3.And(0 <= i, i < sp.n, 0 <= j,
				j < sp.n, sp.at(i) + 1 < sp.at(j), z3.Not(IN(sp.at(i) + 1))),
				DISC), patterns=[z3.MultiPattern(sp.get(i), sp.get(j))]),
				z3.Implies(DISC, z3.And(IN(u), IN(w), u + 1 < w, z3.Not(IN(
				u + 1)))))
			me = z3.Const('node', Int)
			st.assume(0 < me, me < st.heap.alloc, X.clsof(me)
					== eng.classid(cls))
			return [SRef(me, cls)], {}
		return s

	def post(P):
		return [('exactly when there is a gap', P.result.e == DISC)
				] + unchanged(P)

	def ipost(P):
		return [('exactly when there is more than one block', P.result.e
				== (ib.blocks(V.i(P.old['bitset'][P.args[0].e])) > 1))
				] + unchanged(P)

	def other(eng, st):
		x = z3.Const('x', V)
		st.assume(z3.Or(z3.Not(V.is_vref(x)), z3.Not(eng.isinst(V.ref(x),
				'Tree'))))
		st.ghost['entry'] = st.heap.copy()
		return [SDyn(x)], {}

	def no(P):
		return [('not a tree', z3.Not(P.result.e))] + unchanged(P)
	return Contract('%s:isdisc' % TREE, [Case('tree', setup('Tree'), post),
			Case('immutable', setup('ImmutableTree'), ipost),
			Case('other', other, no)])


def isdiscinv(S):
	sp = S.st.ghost['sp']
	k = S.i
	it = S.it
	get = lambda i: toV(S.eng.iterget(it, i, S.st))
	i, x = z3.Ints('i x')
	IN, first = S.st.ghost['in'], V.i(get(z3.IntVal(0)))
	p = S.v('prev')
	res = [('prev is the last leaf', z3.If(k == 0, V.is_none(p), p == get(
			k - 1)))]
	if 'start' in S.st.env:
		s = S.v('start')
		res.append(('start is the first leaf', z3.If(k == 0, V.is_none(s),
			s == get(z3.IntVal(0)))))
	return res + [('consecutive so far', X.forall([i], z3.Implies(z3.And(
			0 <= i, i < k), V.i(get(i)) == V.i(get(z3.IntVal(0))) + i),
			patterns=[get(i)])), ('no gap so far', X.forall([x], z3.Implies(
			z3.And(0 <= x - first, x - first < k), IN(x)), patterns=[IN(x)]))
			] + unchanged(S)


# --- bit sets ------------------------------------------------------------------
def bitset(st, name='bitset'):
	b = z3.Const(name, Int)
	st.assume(b >= 0, *ib.shiftaxioms())
	st.ghost['entry'] = st.heap.copy()
	return b


def c_getbits():
	def setup(eng, st):
		b = bitset(st)
		k = z3.Int('k!')
		st.assume(X.forall([k], ib.L_shrstep(b, k), patterns=[ib.shr(b, k)]))
		return [SInt(b)], {}

	def post(P):
		b = P.args[0].e
		return positions(P, b, ib.blen(b)) + unchanged(P)
	return Contract('%s:getbits' % TT, [Case('', setup, post,
			generator=True)])


def positions(P, b, upto):
	"""The output has the members of b below a position, in order."""
	out = P.st.out
	get, n = P.h['lget'][out], P.h['llen'][out]
	i, j = z3.Ints('i j')
	x = V.i(get[i])
	POS = z3.Function('posof', Int, Int)
	return [('each is a member', X.forall([i], z3.Implies(z3.And(0 <= i,
			i < n), z3.And(V.is_vint(get[i]), 0 <= x, x < upto, ib.bit(b,
			x))), patterns=[get[i]])),
		('every member occurs', X.forall([i], z3.Implies(z3.And(0 <= i,
			i < upto, ib.bit(b, i)), z3.Exists([j], z3.And(0 <= j, j < n,
			get[j] == V.vint(i)))), patterns=[ib.shr(b, i)])),
		('they are in order', X.forall([i, j], z3.Implies(z3.And(0 <= i,
			i < j, j < n), x < V.i(get[j])), patterns=[z3.MultiPattern(
			get[i], get[j])]))]


def getbitsinv(S):
	b, n = S.args[0].e, S.int('n')
	out = S.st.out
	return [('what is left', z3.And(n >= 0, S.int('bitset') == ib.shr(b, n))),
		('output is a new list', z3.And(out >= S.st.ghost['entry'].alloc))
		] + positions(S, b, n) + unchanged(S)


def c_fanout():
	def setup(eng, st):
		me = z3.Const('tree', V)
		h = st.heap
		st.assume(z3.Implies(V.is_vref(me), z3.And(0 < V.ref(me), V.ref(me)
				< h.alloc)), z3.Implies(z3.And(V.is_vref(me), eng.isinst(
				V.ref(me), 'Tree')), z3.And(X.clsof(V.ref(me)) == eng.classid(
				'ImmutableTree'), V.i(h['bitset'][V.ref(me)]) >= 0)))
		st.ghost['entry'] = h.copy()
		return [SDyn(me)], {}

	def post(P):
		me = P.args[0].e
		return [('number of blocks', P.result.e == z3.If(z3.And(V.is_vref(me),
				P.eng.isinst(V.ref(me), 'Tree')), ib.blocks(V.i(P.h['bitset'][
				V.ref(me)])), z3.IntVal(1)))]
	return Contract('%s:fanout' % TT, [Case('', setup, post)])


def c_bitfanout():
	"""The version used when the extension is not available."""
	def setup(eng, st):
		b = bitset(st, 'arg')
		a = z3.Int('a!')
		st.assume(*ib.axioms())
		return [SInt(b)], {}

	def post(P):
		return [('number of blocks', P.result.e == ib.blocks(P.args[0].e))]
	return Contract('%s:bitfanout' % TREE, [Case('', setup, post)])


def bitfanoutinv(S):
	b = S.args[0].e
	arg, prev = S.int('arg'), S.int('prev')
	return [('components removed so far', z3.And(arg >= 0, prev == arg,
			S.int('result') >= 0, S.int('result') + ib.blocks(arg)
			== ib.blocks(b)))]


def use_land(eng, op, a, b, st):
	return ib.pybits(eng, op, a, b, st)


def exponent(v):
	return LOG2(V.i(v))


LOG2 = z3.Function('log2', Int, Int)


def L_sum(arr, n, at, x):
	"""A sum of different powers of two is the set of the exponents; at(x) is
	the position of exponent x, -1 if it does not occur."""
	s = pylib.PSUM(arr, n)
	return z3.Implies(z3.And(n >= 0, x >= 0), z3.And(s >= 0, ib.bit(s, x)
			== z3.And(0 <= at(x), at(x) < n)))


def sumlemmas():
	arr = z3.Const('arr', z3.ArraySort(Int, V))
	n, x, k, b = z3.Ints('n x k b')
	exp = z3.Function('exp', Int, Int)
	at = z3.Function('at', Int, Int)
	i, j = z3.Ints('i j')
	half = b / 2
	obs = [Obligation('lemma', 'adding a power of two that is not a member',
			[ib.unfold_pow2(k), ib.unfold_shr(b, k), ib.unfold_shr(b, x),
			ib.unfold_shr(b + ib.pow2(k), x), ib.shr(half, 0) == half,
			ib.shr((b + ib.pow2(k)) / 2, 0) == (b + ib.pow2(k)) / 2,
			ib.unfold_shr(half, x - 1), ib.unfold_shr(half, k - 1),
			z3.Implies(k > 0, z3.And(ib.pow2(k - 1) > 0, z3.Implies(x > 0,
				L_add(half, k - 1, x - 1))))], L_add(b, k, x))]
	sn = pylib.PSUM(arr, n)
	obs.append(Obligation('lemma', 'sum of different powers of two', [n > 0,
			pylib.PSUM(arr, n) == pylib.PSUM(arr, n - 1) + ib.pow2(exp(n - 1)),
			exp(n - 1) >= 0, ib.pow2(exp(n - 1)) > 0, x >= 0, at(exp(n - 1)) == n - 1,
			z3.Implies(z3.And(0 <= at(x), at(x) < n), exp(at(x)) == x),
			L_sum(arr, n - 1, at, x), L_sum(arr, n - 1, at, exp(n - 1)),
			L_add(pylib.PSUM(arr, n - 1), exp(n - 1), x)],
			L_sum(arr, n, at, x)))
	obs.append(Obligation('lemma', 'sum of no powers of two', [
			pylib.PSUM(arr, 0) == 0, ib.shr(0, x) == 0],
			L_sum(arr, z3.IntVal(0), at, x)))
	obs.append(Obligation('lemma', 'nothing is a member of zero', [
			ib.unfold_shr(z3.IntVal(0), x), z3.Implies(x > 0, ib.shr(0, x - 1)
			== 0)], z3.Implies(x >= 0, ib.shr(0, x) == 0)))
	return obs


def L_add(b, k, x):
	return z3.Implies(z3.And(b >= 0, k >= 0, x >= 0, z3.Not(ib.bit(b, k))),
			ib.bit(b + ib.pow2(k), x) == z3.Or(ib.bit(b, x), x == k))


def use_sum(eng, st, args, kwargs):
	"""sum() of different powers of two (lemma, see sumlemmas)."""
	for s, r in pylib.b_sum(eng, st, args, kwargs):
		if 'sum' not in s.ghost:
			yield s, r
			continue
		arr, n = s.ghost['sum']
		i, j, x = z3.Ints('i j x')
		e = lambda i: LOG2(V.i(arr[i]))
		eng.obligeall(s, [('terms are powers of two', X.forall([i],
				z3.Implies(z3.And(0 <= i, i < n), z3.And(e(i) >= 0, arr[i]
				== V.vint(ib.pow2(e(i))))), patterns=[arr[i]])),
				('terms are different', X.forall([i, j], z3.Implies(z3.And(
				0 <= i, i < j, j < n), e(i) != e(j)), patterns=[
				z3.MultiPattern(arr[i], arr[j])]))])
		at = z3.Function('expat!%d' % next(X._cnt), Int, Int)
		s.assume(X.forall([x], z3.Implies(x >= 0, z3.And(ib.bit(r.e, x)
				== z3.And(0 <= at(x), at(x) < n), z3.Implies(z3.And(0 <= at(
				x), at(x) < n), e(at(x)) == x))), patterns=[ib.shr(r.e, x)]),
				X.forall([i], z3.Implies(z3.And(0 <= i, i < n), at(e(i))
				== i), patterns=[arr[i]]), r.e >= 0)
		yield s, r


LEAFN = z3.Function('leafcount', Int, Int)
LEAVES = z3.Function('leavesof', Int, z3.ArraySort(Int, V))
SUBN = z3.Function('nodecount', Int, Int)
SUBS = z3.Function('nodesof', Int, z3.ArraySort(Int, V))
INLEAF = z3.Function('isleafof', Int, Int, Bool)
LEAFPOS = z3.Function('leafpos', Int, Int, Int)


def leafaxioms():
	"""Leaves are different non-negative integers."""
	n, i, j, x = z3.Ints('n i j x')
	at = lambda i: LEAVES(n)[i]
	inr = z3.And(0 <= i, i < LEAFN(n))
	return [X.forall([n], LEAFN(n) >= 0, patterns=[LEAFN(n)]),
		X.forall([n, i], z3.Implies(inr, z3.And(V.is_vint(at(i)), V.i(at(i))
			>= 0, LEAFPOS(n, V.i(at(i))) == i, INLEAF(n, V.i(at(i))))),
			patterns=[at(i)]),
		X.forall([n, x], z3.Implies(INLEAF(n, x), z3.And(0 <= LEAFPOS(n, x),
			LEAFPOS(n, x) < LEAFN(n), at(LEAFPOS(n, x)) == V.vint(x))),
			patterns=[INLEAF(n, x)])]


def use_nodeleaves(eng, st, args, kwargs):
	"""Contract of Tree.leaves (C03)."""
	n = args[0].e
	yield st, eng.newlist(st, n=LEAFN(n), arr=LEAVES(n))


def use_subtrees(eng, st, args, kwargs):
	"""Contract of Tree.subtrees (C03)."""
	n = args[0].e
	st.assume(SUBN(n) >= 1)
	q = X.SSeq(SUBN(n), lambda i: SRef(V.ref(SUBS(n)[i]), 'ImmutableTree'))
	st.ghost['root'] = n
	yield st, q


def use_freeze(eng, st, args, kwargs):
	"""A frozen copy."""
	r = SRef(eng.alloc(st, 'ImmutableTree'), 'ImmutableTree')
	n, i = r.e, z3.Int('i')
	yield st, r


def isbitset(h, n):
	x = z3.Int('x')
	b = h['bitset'][n]
	return z3.And(V.is_vint(b), V.i(b) >= 0, X.forall([x], z3.Implies(x >= 0,
			ib.bit(V.i(b), x) == INLEAF(n, x)), patterns=[INLEAF(n, x),
			ib.shr(V.i(b), x)]))


def c_addbitsets():
	def setup(cls):
		def s(eng, st):
			me = z3.Const('tree', Int)
			n, i, k, x = z3.Ints('n i k! x')
			h = st.heap
			st.assume(0 < me, me < h.alloc, X.clsof(me) == eng.classid(cls),
				*(leafaxioms() + ib.shiftaxioms() + [X.forall([k],
					z3.Implies(k >= 0, LOG2(ib.pow2(k)) == k),
					patterns=[ib.pow2(k)]), X.forall([n, i], z3.Implies(
					z3.And(0 <= i, i < SUBN(n)), z3.And(V.is_vref(SUBS(n)[i]),
					0 < V.ref(SUBS(n)[i]), X.clsof(V.ref(SUBS(n)[i]))
					== eng.classid('ImmutableTree'))), patterns=[SUBS(n)[i]]
					)]))
			st.ghost['entry'] = h.copy()
			return [SRef(me, cls)], {}
		return s

	def post(P):
		r = P.result.e
		i = z3.Int('i')
		return [('the result is immutable', X.clsof(r) == P.eng.classid(
				'ImmutableTree')),
			('an immutable tree is its own result', z3.BoolVal(True)
				if P.args[0].cls == 'Tree' else r == P.args[0].e),
			('every node has the set of its leaves', X.forall([i],
				z3.Implies(z3.And(0 <= i, i < SUBN(r)), isbitset(P.h, V.ref(
				SUBS(r)[i]))), patterns=[SUBS(r)[i]]))] + unchanged(P)
	return Contract('%s:addbitsets' % TT, [Case('immutable', setup(
			'ImmutableTree'), post), Case('mutable', setup('Tree'), post)])


def addbitsetsinv(S):
	r = S.ref('result')
	i = z3.Int('i')
	return [('nodes so far have the set of their leaves', X.forall([i],
			z3.Implies(z3.And(0 <= i, i < S.i), isbitset(S.h, V.ref(SUBS(r)[
			i]))), patterns=[SUBS(r)[i]]))] + unchanged(S)


LOOPS = {
	('ranges', 0): LoopSpec(rangesinv, modifies=ALLOCS, allocs=True,
		kinds=dict(a='undef'), ghost=lambda S: [S.st.ghost['sp'].define(
		S.i - 1)]),
	('isdisc', 0): LoopSpec(isdiscinv, kinds=dict(a='undef', start='dyn',
		prev='dyn')),
	('bitfanout', 0): LoopSpec(bitfanoutinv),
	('addbitsets', 0): LoopSpec(addbitsetsinv, modifies=['bitset'] + ALLOCS,
		allocs=True, kinds=dict(a='undef')),
	('getbits', 0): LoopSpec(getbitsinv, modifies=[
		('lget', lambda S: [S.st.out]), ('llen', lambda S: [S.st.out])]),
	}


def mk(name):
	callees = {'Tree.leaves': use_leaves, 'bitfanout': use_bitfanout,
		'fanout': use_bitfanout}
	if name.endswith(':bitfanout'):
		callees.pop('bitfanout')
	if name.endswith(':addbitsets'):
		callees.update({'Tree.leaves': use_nodeleaves, 'Tree.subtrees':
			use_subtrees, 'ImmutableTree.leaves': use_nodeleaves,
			'ImmutableTree.subtrees': use_subtrees, 'Tree.freeze': use_freeze, 'sum': use_sum})
	return Engine(classes=CLASSES, attrs=ATTRS, loops=LOOPS,
			bits=ib.pybits, refeq='identity', dynclasses=('Tree', 'ImmutableTree'),
			callees=callees)


CONTRACTS = [c_ranges(TREE), c_ranges(GRAMMAR), c_rangeheads, c_isdisc, c_getbits, c_fanout, c_bitfanout,
	c_addbitsets]
