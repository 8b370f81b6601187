"""Contracts of tree edit distance with a record of operations (C13).

A forest is a tuple of trees, equal when its trees are equal; LAST(f), INIT(f)
are its last tree and the trees before it; KIDS(n) the children of a node.
DF(f, g) is the minimum number of operations between two forests (as D in
c13.py). SCRIPT(s, f, g): the tuple s lists operations that turn f into g, from
the last node to the first, the children before the trees on the left.
"""
import z3
from pv import vc, pyexec as X, pylib
from pv.pyexec import (V, Int, Bool, SInt, SDyn, SRef, SNone, STup, SStr, SBool,
		SSeq, SPure, Case, Contract, LoopSpec, Engine, fresh, toV)
from pv.vc import Obligation
from . import c13
from .c13 import N, L, NODE, LABEL, D, TD, TREE, PREP, inr, shape, zmin

LAST = z3.Function('lasttree', V, V)
INIT = z3.Function('othertrees', V, V)
KIDS = z3.Function('childrenof', V, V)
CAT = z3.Function('catforests', V, V, V)
DF = z3.Function('forestdistance', V, V, Int)
SCRIPT = z3.Function('editscript', V, V, V, Bool)
TLEN = z3.Function('scriptlength', V, Int)
FOR = z3.Function('forestof', V, Int, Int, V)
NIL = V.vnil
lit = X.strlit


class SForest(SPure):
	"""A tuple or list of trees."""


class SNode(SPure):
	"""A tree."""


def flat(f):
	return CAT(INIT(f), KIDS(LAST(f)))


def reln(f, g):
	return z3.If(LABEL(LAST(f)) == LABEL(LAST(g)), z3.IntVal(0), z3.IntVal(1))


def defDF(f, g):
	e1, e2 = f == NIL, g == NIL
	return DF(f, g) == z3.If(z3.And(e1, e2), z3.IntVal(0), z3.If(e2, DF(flat(
		f), g) + 1, z3.If(e1, DF(f, flat(g)) + 1, zmin(DF(flat(f), g) + 1, DF(
		f, flat(g)) + 1, DF(KIDS(LAST(f)), KIDS(LAST(g))) + DF(INIT(f), INIT(
		g)) + reln(f, g)))))


def op(name, a, b):
	return V.vcons(V.vstr(lit(name)), V.vcons(a, V.vcons(b, NIL)))


def scripts():
	"""Definition of SCRIPT (its introduction rules)."""
	s, r, f, g = z3.Consts('s r f g', V)
	lf, lg = LAST(f), LAST(g)
	both = z3.And(f != NIL, g != NIL, SCRIPT(s, KIDS(lf), KIDS(lg)), SCRIPT(r,
			INIT(f), INIT(g)))
	cat = pylib.TUPCAT(s, r)
	pats = [z3.MultiPattern(SCRIPT(s, KIDS(lf), KIDS(lg)), SCRIPT(r, INIT(f),
			INIT(g)))]
	return [SCRIPT(NIL, NIL, NIL),
		X.forall([s, f, g], z3.Implies(z3.And(f != NIL, SCRIPT(s, flat(f),
			g)), SCRIPT(V.vcons(op('D', lf, V.none), s), f, g)), patterns=[
			SCRIPT(s, flat(f), g)]),
		X.forall([s, f, g], z3.Implies(z3.And(g != NIL, SCRIPT(s, f, flat(
			g))), SCRIPT(V.vcons(op('I', V.none, lg), s), f, g)), patterns=[
			SCRIPT(s, f, flat(g))]),
		X.forall([s, r, f, g], z3.Implies(z3.And(both, LABEL(lf) == LABEL(
			lg)), SCRIPT(cat, f, g)), patterns=pats),
		X.forall([s, r, f, g], z3.Implies(z3.And(both, LABEL(lf) != LABEL(
			lg)), SCRIPT(V.vcons(op('S', lf, lg), cat), f, g)), patterns=pats)
		] + lengths()


def lengths():
	"""Number of operations in a script."""
	a, b = z3.Consts('a b', V)
	return [TLEN(NIL) == 0, X.forall([a, b], TLEN(V.vcons(a, b)) == TLEN(b)
			+ 1, patterns=[V.vcons(a, b)]), X.forall([a, b], z3.Implies(
			pylib.istuple(a), TLEN(pylib.TUPCAT(a, b)) == TLEN(a) + TLEN(b)),
			patterns=[pylib.TUPCAT(a, b)])]


# --- operations on forests ----------------------------------------------------------
def forestV(v):
	if isinstance(v, SForest) or isinstance(v, SDyn):
		return v.e
	if isinstance(v, STup) and not v.items:
		return NIL
	if (isinstance(v, STup) and len(v.items) == 1 and isinstance(v.items[0],
			SNode)):
		return SINGLE(v.items[0].e)
	raise vc.Unsupported('forest')


SINGLE = z3.Function('forestwith', V, V)


def forest_item(eng, st, r, i):
	if isinstance(i, X.SSlice):
		full = isinstance(i.a, SNone) and isinstance(i.c, SNone)
		if full and isinstance(i.b, SInt) and z3.is_int_value(z3.simplify(
				i.b.e)) and z3.simplify(i.b.e).as_long() == -1:
			# the empty forest has no other trees either
			yield st, SForest(z3.If(r.e == NIL, NIL, INIT(r.e)))
			return
		raise vc.Unsupported('slice of forest')
	if isinstance(i, SInt) and z3.is_int_value(z3.simplify(
			i.e)) and z3.simplify(i.e).as_long() == -1:
		for s, b in eng.split(st, r.e == NIL):
			yield s, (X.Exc('IndexError', 'forest') if b else SNode(LAST(
					r.e)))
		return
	raise vc.Unsupported('item of forest')


def node_item(eng, st, r, i):
	if isinstance(i, X.SSlice) and all(isinstance(x, SNone) for x in (i.a,
			i.b, i.c)):
		yield st, SForest(KIDS(r.e))
		return
	raise vc.Unsupported('item of node')


def use_tuple(eng, st, args, kwargs):
	if len(args) == 1 and isinstance(args[0], SForest):
		yield st, args[0]
		return
	for x in pylib.b_tuple(eng, st, args, kwargs):
		yield x


def forest_add(eng, st, a, b):
	yield st, SForest(CAT(forestV(a), forestV(b)))


def forest_eq(eng, st, a, b):
	yield st, forestV(a) == forestV(b)


def get_label(eng, st, r):
	yield st, SStr(LABEL(r.e))


# --- geteditstats --------------------------------------------------------------------
MEM = z3.Int('mem')


def get_mem(eng, st, r):
	yield st, SRef(MEM, 'dict')


def stats(eng, h, v, f, g):
	"""A record of the operations between two forests."""
	r = V.ref(v)
	return z3.And(V.is_vref(v), 0 < r, r < h.alloc, X.clsof(r) == eng.classid(
		'EditStats'), V.is_vint(h['distance'][r]), V.is_vint(h['matched'][r]),
		pylib.istuple(h['editscript'][r]), V.i(h['distance'][r]) == DF(f, g),
		SCRIPT(h['editscript'][r], f, g), TLEN(h['editscript'][r]) == DF(f,
		g))


def memory(eng, h):
	"""What is remembered is right."""
	f, g = z3.Consts('f g', V)
	key = V.vcons(f, V.vcons(g, NIL))
	return X.forall([f, g], z3.Implies(h['ddom'][MEM][key], stats(eng, h, h[
			'dmap'][MEM][key], f, g)), patterns=[h['ddom'][MEM][key], h[
			'dmap'][MEM][key]])


def same(old, new):
	"""Records are not modified."""
	r = z3.Int('r')
	return X.forall([r], z3.Implies(r < old.alloc, z3.And(*[new[x][r] == old[
			x][r] for x in ('distance', 'matched', 'editscript')])), patterns=[
			new[x][r] for x in ('distance', 'matched', 'editscript')])


def base(eng, st):
	st.assume(0 < MEM, MEM < st.heap.alloc, memory(eng, st.heap))
	st.assume(*(scripts() + pylib.tupcataxioms()))


def c_geteditstats():
	def setup(eng, st):
		f, g = z3.Consts('forest1 forest2', V)
		base(eng, st)
		st.assume(defDF(f, g))
		return [SForest(f), SForest(g)], {}

	def post(P):
		f, g = [x.e for x in P.args]
		return [('distance and script', stats(P.eng, P.h, toV(P.result), f,
			g)), ('memory', memory(P.eng, P.h)), ('records stay the same',
			same(P.old, P.h))]
	return Contract('%s:geteditstats' % TD, [Case('', setup, post)],
			timeout=30)


def use_geteditstats(eng, st, args, kwargs):
	f, g = [forestV(x) for x in args]
	h = st.heap
	eng.oblige(st, 'memory before the call', memory(eng, h))
	old = h.copy()
	alloc = fresh(Int, 'alloc')
	st.assume(alloc >= old.alloc)
	h.alloc = alloc
	for x in ('distance', 'matched', 'editscript', 'ddom', 'dmap', 'dsize',
			'dver'):
		h[x] = fresh(X.fieldsort(x), 'h_' + x)
	res = fresh(V, 'stats')
	r = z3.Int('r')
	st.assume(stats(eng, h, res, f, g), memory(eng, h), same(old, h))
	# instances for the results of earlier calls
	earlier = st.ghost.get('results', ())
	st.assume(*[h[x][q] == old[x][q] for q in earlier for x in ('distance',
			'matched', 'editscript')])
	st.ghost['results'] = earlier + (V.ref(res), )
	yield st, SRef(V.ref(res), 'EditStats')


# --- newtreedist --------------------------------------------------------------------
def use_prepare(eng, st, args, kwargs):
	if len(args) != 1 or kwargs:
		raise vc.Unsupported('arguments of prepare')
	yield st, SNode(PREP(toV(args[0])))


def use_freeze(eng, st, recv, args, kwargs):
	yield st, recv


def use_subtrees(eng, st, recv, args, kwargs):
	if args or kwargs:
		raise vc.Unsupported('arguments of subtrees')
	n = fresh(Int, 'numnodes')
	st.assume(n >= 0)
	f = z3.Function('subtree!%d' % next(X._cnt), Int, V)
	yield st, SSeq(n, lambda k: SNode(f(k)))


def set_type(eng, st, r, v):
	"""Identifiers of nodes (not used by the distance)."""


def c_newtreedist():
	def setup(eng, st):
		base(eng, st)
		return [SDyn(z3.Const('tree1', V)), SDyn(z3.Const('tree2', V))], {}

	def post(P):
		t, u = [SINGLE(PREP(toV(x))) for x in P.args]
		return [('minimum number of operations', z3.And(V.is_vint(toV(
			P.result)), V.i(toV(P.result)) == DF(t, u))), ('memory', memory(
			P.eng, P.h))]
	return Contract('%s:newtreedist' % TD, [Case('', setup, post)])


# --- both implementations agree ------------------------------------------------------
def agree(t, u, a, x, b, y):
	return z3.Implies(z3.And(c13.within(t, a, x), c13.within(u, b, y)), D(t,
			u, a, x, b, y) == DF(FOR(t, a, x), FOR(u, b, y)))


def forests(t, a, x):
	"""The forest of nodes a..x of an annotated tree."""
	f = FOR(t, a, x)
	return z3.Implies(c13.within(t, a, x), z3.If(x < a, f == NIL, z3.And(f
			!= NIL, LAST(f) == NODE(t, x), INIT(f) == FOR(t, a, L(t, x) - 1),
			KIDS(LAST(f)) == FOR(t, L(t, x), x - 1), flat(f) == FOR(t, a, x
			- 1))))


def lemmas():
	t, u = z3.Consts('t u', V)
	a, b, x, y = z3.Ints('a b x y')
	lx, ly = L(t, x), L(u, y)
	four = [(a, x - 1, b, y), (a, x, b, y - 1), (a, lx - 1, b, ly - 1), (lx,
			x - 1, ly, y - 1)]
	cond = [x >= a, y >= b] + [z3.And(x >= a, y >= b)] * 2
	obs = [Obligation('lemma', 'both definitions of the distance agree (step)',
			shape(t) + shape(u) + [z3.Implies(g, agree(t, u, *f)) for f, g in
			zip(four, cond)] + [forests(t, a, x), forests(u, b, y), c13.defD(t,
			u, a, x, b, y), defDF(FOR(t, a, x), FOR(u, b, y))], agree(t, u, a,
			x, b, y))]
	p, q = z3.Consts('p q', V)
	obs.append(Obligation('lemma', 'length of a concatenation (step)', lengths(
			)[:2] + [TLEN(pylib.TUPCAT(p, q)) == TLEN(p) + TLEN(q),
			pylib.TUPCAT(V.vcons(t, p), q) == V.vcons(t, pylib.TUPCAT(p, q))],
			TLEN(pylib.TUPCAT(V.vcons(t, p), q)) == TLEN(V.vcons(t, p))
			+ TLEN(q)))
	return obs


LOOPS = {('newtreedist', i): LoopSpec(lambda S: [], kinds=dict(n='undef',
		a='undef')) for i in range(2)}
CLASSES = {'EditStats': [(TD, 'EditStats')]}
ATTRS = {('EditStats', 'distance'): 'int', ('EditStats', 'matched'): 'int',
	('EditStats', 'editscript'): 'dyn'}


def mk(name):
	callees = {'geteditstats': use_geteditstats, 'prepare': use_prepare,
		'get geteditstats.mem': get_mem, 'get label': get_label,
		'SForest.__getitem__': forest_item, 'SNode.__getitem__': node_item,
		'SForest.__add__': forest_add, 'SForest.__eq__': forest_eq,
		'tuple': use_tuple, 'SNode.freeze': use_freeze, 'set type': set_type,
		'SNode.subtrees': use_subtrees}
	return Engine(classes=CLASSES, attrs=ATTRS, loops=LOOPS, refeq='identity',
			callees=callees)


CONTRACTS = [c_geteditstats, c_newtreedist]
