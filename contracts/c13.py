"""Contracts of tree edit distance (C13): the dynamic program.

Functions of an annotated tree t (nodes are numbered in postorder from 0):

- N(t): the number of nodes; NODE(t, k): node k, with its LABEL;
- L(t, k): the leftmost node below node k (k itself for a leaf);
- NK(t), KR(t, i): the key roots, in order; RK(t, k): the index of the key root
  with the same leftmost node as k.

Nodes a..x form a forest (empty when x < a). D(t, u, a, x, b, y) is the minimum
number of operations between the forests a..x of t and b..y of u, by removal,
insertion or relabelling of the rightmost root:

	D = 0 for two empty forests; the number of nodes when one is empty;
	D(a, x, b, y) = min(D(a, x - 1, b, y) + 1, D(a, x, b, y - 1) + 1,
		D(a, L(x) - 1, b, L(y) - 1) + D(L(x), x - 1, L(y), y - 1)
		+ (0 if the labels of x and y are equal else 1))

That a tree edit distance is a metric, and that forests can be compared
separately, are lemmas about D proved by induction.
"""
import z3
from pv import vc, pyexec as X, pylib
from pv.pyexec import (V, Int, Bool, SInt, SDyn, SRef, SNone, STup, SStr, SBool,
		SSeq, Case, Contract, LoopSpec, Engine, fresh, toV)
from pv.vc import Obligation

TD = 'discodop/treedist.py'
TREE = 'discodop/tree.py'
N = z3.Function('treesize', V, Int)
NODE = z3.Function('nodeat', V, Int, V)
LABEL = z3.Function('labelof', V, X.Str)
L = z3.Function('leftmost', V, Int, Int)
NK = z3.Function('numkeyroots', V, Int)
KR = z3.Function('keyroot', V, Int, Int)
RK = z3.Function('keyrootof', V, Int, Int)
D = z3.Function('distance', V, V, Int, Int, Int, Int, Int)
E = z3.Function('equalforests', V, V, Int, Int, Int, Int, Bool)
PREP = z3.Function('prepared', V, V)


def inr(t, k):
	return z3.And(0 <= k, k < N(t))


def shape(t):
	"""Postorder numbers, leftmost nodes and key roots of a tree."""
	k, m, i = z3.Ints('k m i')
	return [N(t) > 0, L(t, N(t) - 1) == 0, RK(t, N(t) - 1) == NK(t) - 1,
		X.forall([k], z3.Implies(inr(t, k), z3.And(0 <= L(t, k), L(t, k)
			<= k)), patterns=[L(t, k)]),
		X.forall([k, m], z3.Implies(z3.And(inr(t, k), L(t, k) <= m, m <= k),
			L(t, m) >= L(t, k)), patterns=[z3.MultiPattern(L(t, k),
			L(t, m))]),
		X.forall([k], z3.Implies(inr(t, k), z3.And(0 <= RK(t, k), RK(t, k)
			< NK(t), L(t, KR(t, RK(t, k))) == L(t, k), k <= KR(t, RK(t, k)))),
			patterns=[RK(t, k)]),
		X.forall([i], z3.Implies(z3.And(0 <= i, i < NK(t)), z3.And(inr(t,
			KR(t, i)), RK(t, KR(t, i)) == i)), patterns=[KR(t, i)]),
		X.forall([k, m], z3.Implies(z3.And(inr(t, k), inr(t, m), L(t, k)
			== L(t, m)), RK(t, k) == RK(t, m)), patterns=[z3.MultiPattern(
			RK(t, k), RK(t, m))]),
		X.forall([i, m], z3.Implies(z3.And(0 <= i, i < m, m < NK(t)),
			KR(t, i) < KR(t, m)), patterns=[z3.MultiPattern(KR(t, i),
			KR(t, m))])]


def shapeat(t, i, k):
	"""Facts about node k, below node i if it is in its interval."""
	return z3.Implies(z3.And(inr(t, k), inr(t, i)), z3.And(0 <= L(t, i), L(t,
			i) <= i, 0 <= L(t, k), L(t, k) <= k, z3.Implies(z3.And(L(t, i)
			<= k, k <= i), L(t, k) >= L(t, i))))


def rel(t, u, x, y):
	return z3.If(LABEL(NODE(t, x)) == LABEL(NODE(u, y)), z3.IntVal(0), z3.IntVal(1))


def zmin(*args):
	res = args[0]
	for x in args[1:]:
		res = z3.If(x < res, x, res)
	return res


def defD(t, u, a, x, b, y):
	"""Definition of the distance of two forests."""
	e, f = x < a, y < b
	lx, ly = L(t, x), L(u, y)
	return z3.Implies(z3.And(a >= 0, b >= 0, x >= -1, y >= -1, x < N(t),
		y < N(u)), D(t, u, a, x, b, y) == z3.If(z3.And(e, f), z3.IntVal(0),
		z3.If(f, D(t, u, a, x - 1, b, y) + 1, z3.If(e, D(t, u, a, x, b,
		y - 1) + 1, zmin(D(t, u, a, x - 1, b, y) + 1, D(t, u, a, x, b, y - 1)
		+ 1, D(t, u, a, lx - 1, b, ly - 1) + D(t, u, lx, x - 1, ly, y - 1)
		+ rel(t, u, x, y))))))


def closed(t, c, x):
	"""Nodes c..x are complete trees."""
	z = z3.Int('z')
	return X.forall([z], z3.Implies(z3.And(c <= z, z <= x), L(t, z) >= c),
			patterns=[L(t, z)])


def subadd(t, u, a, c, x, b, d, y):
	"""Comparing two parts separately does not give a smaller distance."""
	return z3.Implies(z3.And(0 <= a, a <= c, c <= x + 1, x < N(t), 0 <= b,
		b <= d, d <= y + 1, y < N(u), closed(t, c, x), closed(u, d, y)),
		D(t, u, a, x, b, y) <= D(t, u, a, c - 1, b, d - 1) + D(t, u, c, x, d,
		y))


def steps(t, u, a, x, b, y):
	return [defD(t, u, a, x, b, y), defD(t, u, a, a - 1, b, b - 1)]


def positive(t, u, a, x, b, y):
	return z3.Implies(z3.And(a >= 0, b >= 0, x >= -1, y >= -1, x < N(t),
			y < N(u)), D(t, u, a, x, b, y) >= 0)


def within(t, a, x):
	return z3.And(a >= 0, x >= -1, x < N(t))


def symmetric(t, u, a, x, b, y):
	return z3.Implies(z3.And(within(t, a, x), within(u, b, y)), D(t, u, a, x,
			b, y) == D(u, t, b, y, a, x))


def defE(t, u, a, x, b, y):
	"""Forests are equal."""
	lx, ly = L(t, x), L(u, y)
	return z3.Implies(z3.And(within(t, a, x), within(u, b, y)), E(t, u, a, x,
		b, y) == z3.If(z3.Or(x < a, y < b), z3.And(x < a, y < b), z3.And(
		LABEL(NODE(t, x)) == LABEL(NODE(u, y)), E(t, u, a, lx - 1, b, ly - 1),
		E(t, u, lx, x - 1, ly, y - 1))))


def zero(t, u, a, x, b, y):
	return z3.Implies(z3.And(within(t, a, x), within(u, b, y)), (D(t, u, a, x,
			b, y) == 0) == E(t, u, a, x, b, y))


def forest(t, a, x):
	return z3.And(0 <= a, a <= x + 1, x < N(t), closed(t, a, x))


def triangle(t, u, w, a, x, b, y, c, z):
	return z3.Implies(z3.And(forest(t, a, x), forest(u, b, y), forest(w, c,
			z)), D(t, w, a, x, c, z) <= D(t, u, a, x, b, y) + D(u, w, b, y,
			c, z))


def lemmas():
	t, u, w = z3.Consts('t u w', V)
	a, b, c, d, x, y, p, z, e = z3.Ints('a b c d x y p z e')
	tu = shape(t) + shape(u)
	obs = []

	def lemma(name, assume, goal):
		obs.append(Obligation('lemma', name, assume, goal))
	lx, ly, lz = L(t, x), L(u, y), L(w, z)
	ih = [z3.Implies(x >= c, subadd(t, u, a, c, x - 1, b, d, y)),
		z3.Implies(y >= d, subadd(t, u, a, c, x, b, d, y - 1)),
		z3.Implies(z3.And(x >= c, y >= d), subadd(t, u, a, c, lx - 1, b, d,
		ly - 1))]
	lemma('parts of forests (step)', tu + ih + [defD(t, u, a, x, b, y),
		defD(t, u, c, x, d, y)], subadd(t, u, a, c, x, b, d, y))
	lemma('trees are complete', shape(t) + [inr(t, x)], z3.And(closed(t, lx,
		x), closed(t, lx, x - 1)))
	lemma('distances are not negative (step)', tu + [z3.Implies(x >= a,
		positive(t, u, a, x - 1, b, y)), z3.Implies(y >= b, positive(t, u, a,
		x, b, y - 1)), z3.Implies(z3.And(x >= a, y >= b), z3.And(positive(t,
		u, a, lx - 1, b, ly - 1), positive(t, u, lx, x - 1, ly, y - 1))),
		defD(t, u, a, x, b, y)], positive(t, u, a, x, b, y))
	four = [(a, x - 1, b, y), (a, x, b, y - 1), (a, lx - 1, b, ly - 1), (lx,
			x - 1, ly, y - 1)]
	cond = [x >= a, y >= b] + [z3.And(x >= a, y >= b)] * 2
	lemma('the distance is symmetric (step)', tu + [z3.Implies(g,
		symmetric(t, u, *f)) for f, g in zip(four, cond)] + [defD(t, u, a, x,
		b, y), defD(u, t, b, y, a, x)], symmetric(t, u, a, x, b, y))
	lemma('zero exactly for equal forests (step)', tu + [z3.Implies(g, z3.And(
		zero(t, u, *f), positive(t, u, *f))) for f, g in zip(four, cond)]
		+ [defD(t, u, a, x, b, y), defE(t, u, a, x, b, y)], zero(t, u, a, x,
		b, y))
	# triangle inequality
	full = z3.And(x >= a, y >= b, z >= c)
	hyp = [triangle(t, u, w, *f) for f in ((a, x - 1, b, y, c, z), (a, x, b,
		y - 1, c, z), (a, x, b, y, c, z - 1), (a, x - 1, b, y - 1, c, z - 1),
		(a, x - 1, b, y - 1, c, z), (a, x, b, y - 1, c, z - 1), (a, x - 1, b,
		y, c, z - 1), (a, lx - 1, b, ly - 1, c, lz - 1), (lx, x - 1, ly,
		y - 1, lz, z - 1))]
	guard = [x >= a, y >= b, z >= c, full, z3.And(x >= a, y >= b), z3.And(y
		>= b, z >= c), z3.And(x >= a, z >= c), full, full]
	parts = [z3.Implies(z3.And(y >= b, z >= c), subadd(u, w, b, ly, y - 1, c,
		lz, z - 1)), z3.Implies(z3.And(x >= a, y >= b), subadd(t, u, a, lx,
		x - 1, b, ly, y - 1))]
	shut = [z3.Implies(inr(q, m), z3.And(closed(q, L(q, m), m), closed(q, L(q,
		m), m - 1))) for q, m in ((t, x), (u, y), (w, z))]
	defs = [defD(t, u, a, x, b, y), defD(u, w, b, y, c, z), defD(t, w, a, x, c,
		z)]
	pos = [positive(t, u, a, x, b, y), positive(u, w, b, y, c, z)]
	lemma('triangle inequality (step)', tu + shape(w) + [z3.Implies(g, h)
		for g, h in zip(guard, hyp)] + parts + shut + defs + pos, triangle(t,
		u, w, a, x, b, y, c, z))
	return obs


# --- strdist ------------------------------------------------------------------------
def c_strdist():
	def setup(eng, st):
		return [SStr(z3.Const('a', X.Str)), SStr(z3.Const('b', X.Str))], {}

	def post(P):
		a, b = [x.e for x in P.args]
		return [('zero exactly for equal labels', z3.And(V.is_vint(toV(
			P.result)), V.i(toV(P.result)) == z3.If(a == b, z3.IntVal(0),
			z3.IntVal(1))))]
	return Contract('%s:strdist' % TD, [Case('', setup, post)])


# --- treedist ------------------------------------------------------------------------
def use_prepare(eng, st, args, kwargs):
	if len(args) != 1 or kwargs:
		raise vc.Unsupported('arguments of prepare')
	yield st, SDyn(PREP(toV(args[0])))


def use_annotated(eng, st, args, kwargs):
	"""Contract of AnnotatedTree(tree)."""
	if len(args) != 1 or kwargs:
		raise vc.Unsupported('arguments of AnnotatedTree')
	t = toV(args[0])
	st.assume(*shape(t))
	yield st, X.SPure(t)


def get_nodes(eng, st, r):
	yield st, SSeq(N(r.e), lambda k: X.SPure(NODE(r.e, k)))


def get_leftmost(eng, st, r):
	yield st, SSeq(N(r.e), lambda k: SInt(L(r.e, k)))


def get_keyroots(eng, st, r):
	yield st, SSeq(NK(r.e), lambda k: SInt(KR(r.e, k)))


def get_label(eng, st, r):
	yield st, SStr(LABEL(r.e))


def trees(S):
	return PREP(toV(S.args[0])), PREP(toV(S.args[1]))


def final(t, u, x, y):
	return D(t, u, L(t, x), x, L(u, y), y)


def c_treedist():
	def setup(eng, st):
		return [SDyn(z3.Const('tree1', V)), SDyn(z3.Const('tree2', V))], {}

	def post(P):
		t, u = trees(P)
		return [('minimum number of operations', z3.And(V.is_vint(toV(
			P.result)), V.i(toV(P.result)) == D(t, u, 0, N(t) - 1, 0, N(u)
			- 1)))]
	return Contract('%s:treedist' % TD, [Case('', setup, post)], timeout=30)


def dists(S, done):
	"""Distances of pairs of trees that are final."""
	t, u = trees(S)
	x, y = z3.Ints('x y')
	m = S['treedists'].e
	cell = S.h['mget'][m][x][y]
	return [('final distances', X.forall([x, y], z3.Implies(z3.And(inr(t, x),
			inr(u, y), done(RK(t, x), RK(u, y), x, y)), cell == final(t, u, x,
			y)), patterns=[cell])),
		('array for all pairs', z3.And(S.h['mrows'][m] == N(t), S.h['mcols'][
			m] == N(u)))]


def inv_i(S):
	I = S.i
	return dists(S, lambda r, q, x, y: r < I)


def current(S):
	t, u = trees(S)
	i, j = S.int('i'), S.int('j')
	return t, u, i, j, RK(t, i), RK(u, j)


def before(S, I, J):
	return lambda r, q, x, y: z3.Or(r < I, z3.And(r == I, q < J))


def inv_j(S):
	t, u = trees(S)
	i = S.int('i')
	return dists(S, before(S, RK(t, i), S.i)) + [('key root', z3.And(inr(t,
			i), KR(t, RK(t, i)) == i))]


def tab(S):
	return S['table'].e


def size(S):
	"""Dimensions and offsets of the table."""
	t, u, i, j, I, J = current(S)
	m = tab(S)
	return [('size of table', z3.And(S.h['mrows'][m] == i - L(t, i) + 2, S.h[
		'mcols'][m] == j - L(u, j) + 2, S['treedists'].e != m)),
		('key roots', z3.And(inr(t, i), inr(u, j), L(t, i) <= i, L(u, j) <= j,
		L(t, i) >= 0, L(u, j) >= 0, KR(t, I) == i, KR(u, J) == j))]


def row0(S, upto):
	"""The first column: distances to the empty forest."""
	t, u, i, j, I, J = current(S)
	x = z3.Int('x')
	c = S.h['mget'][tab(S)][x][0]
	return X.forall([x], z3.Implies(z3.And(0 <= x, x < upto), c == D(t, u,
			L(t, i), L(t, i) - 1 + x, L(u, j), L(u, j) - 1)), patterns=[c])


def col0(S, upto):
	t, u, i, j, I, J = current(S)
	y = z3.Int('y')
	c = S.h['mget'][tab(S)][0][y]
	return X.forall([y], z3.Implies(z3.And(0 <= y, y < upto), c == D(t, u,
			L(t, i), L(t, i) - 1, L(u, j), L(u, j) - 1 + y)), patterns=[c])


def define(S, *cells):
	t, u = trees(S)
	S.st.assume(*[defD(t, u, *c) for c in cells])


def inv_rows(S):
	t, u, i, j, I, J = current(S)
	a, b = L(t, i), L(u, j)
	define(S, (a, a - 1, b, b - 1), (a, a - 1 + S.i, b, b - 1), (a, a - 1
		+ S.i + 1, b, b - 1))
	return dists(S, before(S, I, J)) + size(S) + [('first column so far',
		row0(S, S.i + 1))]


def inv_cols(S):
	t, u, i, j, I, J = current(S)
	a, b = L(t, i), L(u, j)
	define(S, (a, a - 1, b, b - 1), (a, a - 1, b, b - 1 + S.i), (a, a - 1, b,
		b - 1 + S.i + 1))
	return dists(S, before(S, I, J)) + size(S) + [('first row so far',
		col0(S, S.i + 1)), ('first column', row0(S, i - a + 2))]


def cells(S, ok):
	"""Distances of forests in the table."""
	t, u, i, j, I, J = current(S)
	x, y = z3.Ints('x y')
	a, b = L(t, i), L(u, j)
	c = S.h['mget'][tab(S)][x][y]
	return X.forall([x, y], z3.Implies(z3.And(0 <= x, 0 <= y, x < i - a + 2,
		y < j - b + 2, z3.Or(y == 0, ok(x, y))), c == D(t, u, a, a - 1 + x, b,
		b - 1 + y)), patterns=[c])


def spine(t, u, i, j, x, y):
	return z3.And(L(t, x) == L(t, i), L(u, y) == L(u, j))


def inv_x(S):
	t, u, i, j, I, J = current(S)
	a, b = L(t, i), L(u, j)
	k = S.i
	return size(S) + [('rows so far', cells(S, lambda x, y: x < k + 1))
		] + dists(S, lambda r, q, x, y: z3.Or(before(S, I, J)(r, q, x, y),
			z3.And(r == I, q == J, x <= a - 1 + k)))


def inv_y(S):
	t, u, i, j, I, J = current(S)
	a, b = L(t, i), L(u, j)
	x0, k = S.int('x'), S.i
	S.st.assume(shapeat(t, i, a - 1 + x0), shapeat(u, j, b - 1 + k + 1))
	return size(S) + [('cells so far', cells(S, lambda x, y: z3.Or(x < x0,
			z3.And(x == x0, y < k + 1)))),
		] + dists(S, lambda r, q, x, y: z3.Or(before(S, I, J)(r, q, x, y),
			z3.And(r == I, q == J, z3.Or(x < a - 1 + x0, z3.And(x == a - 1
			+ x0, y <= b - 1 + k)))))


def cellfacts(S):
	"""Definitions and lemmas for the cell of this iteration."""
	t, u, i, j, I, J = current(S)
	a, b = L(t, i), L(u, j)
	x, y = a - 1 + S.int('x'), b - 1 + S.i
	lx, ly = L(t, x), L(u, y)
	return [defD(t, u, a, x, b, y), defD(t, u, lx, x, ly, y), defD(t, u, a,
		a - 1, b, b - 1), defD(t, u, lx, lx - 1, ly, ly - 1), subadd(t, u, a,
		lx, x, b, ly, y), z3.Implies(inr(t, x), closed(t, lx, x)), z3.Implies(inr(u,
		y), closed(u, ly, y))]


MAT = [('mget', lambda S: [tab(S)])]
BOTH = [('mget', lambda S: [tab(S), S['treedists'].e])]
UNDEF = {x: 'undef' for x in ('m', 'n', 'table', 'ioff', 'joff', 'x', 'y',
		'labeldist', 'a', 'b')}
LOOPS = {
	('treedist', 0): LoopSpec(inv_i, modifies=['mget', 'mrows', 'mcols'],
		kinds=dict(UNDEF, i='undef', j='undef', astr='undef', bstr='undef'),
		allocs=True),
	('treedist', 1): LoopSpec(inv_j, modifies=['mget', 'mrows', 'mcols'],
		kinds=dict(UNDEF, j='undef'), allocs=True),
	('treedist', 2): LoopSpec(inv_rows, modifies=MAT, kinds=dict(x='undef')),
	('treedist', 3): LoopSpec(inv_cols, modifies=MAT, kinds=dict(y='undef')),
	('treedist', 4): LoopSpec(inv_x, modifies=BOTH, kinds=dict(x='undef',
		y='undef', labeldist='undef', a='undef', b='undef')),
	('treedist', 5): LoopSpec(inv_y, modifies=BOTH, kinds=dict(y='undef',
		labeldist='undef', a='undef', b='undef'), ghost=cellfacts),
	}
CLASSES = {'Tree': [(TREE, 'Tree')], 'AnnotatedTree': [(TD, 'AnnotatedTree')]}
ATTRS = {}


def mk(name):
	callees = {'prepare': use_prepare, 'new AnnotatedTree': use_annotated,
		'get nodes': get_nodes, 'get label': get_label, 'get keyroots':
		get_keyroots, 'get leftmostdescendents': get_leftmost}
	return Engine(classes=CLASSES, attrs=ATTRS, loops=LOOPS, refeq='identity',
			callees=callees)


CONTRACTS = [c_strdist, c_treedist]
