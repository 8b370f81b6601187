"""Contracts of moving punctuation (C07).

As in c06, T(n): n is a node of the tree (before). Preterminals may move, if
they are punctuation; phrases keep their parent, or are removed when empty.
"""
import z3
from pv import vc, pyexec as X, pylib
from pv.pyexec import (V, Int, Bool, SInt, SDyn, SRef, SNone, STup, SStr, SBool,
		SSeq, SPure, SCallback, Case, Contract, LoopSpec, Engine, fresh, toV)
from . import c02, c06
from .c06 import T, PUNCT, Tr, setidx, idxinit, IntMap

PT = c02.PT
PUN = 'discodop/punctuation.py'
ALL = z3.Const('rootpreterms', Bool)


def movable(t, n):
	"""Is this a preterminal which may be moved?"""
	return z3.And(t.pre(n), z3.Or(PUNCT(t.word(n), t.h0['label'][n]), z3.And(
			ALL, t.parent0(n) == V.vref(t.root))))


def heapinv(t, h, idx, loose=None, current=None):
	"""The tree while nodes are moved.

	:param loose: a node which is not attached.
	:param current: a phrase which may be empty."""
	n, i = z3.Ints('n i')
	c = t.kid(n, i, h)
	par = h['_parent'][n]
	phrase = lambda n: z3.And(T(n), z3.Not(t.pre(n)))
	return list(t.sp.wf(h, idx)) + [
		('phrases keep their parent, or are removed', X.forall([n], z3.Implies(
			z3.And(phrase(n), n != t.root), z3.Or(V.is_none(par), par
			== t.parent0(n))), patterns=[par])),
		('removed phrases are empty', X.forall([n], z3.Implies(z3.And(phrase(
			n), t.removed(n, h)), t.len(n, h) == 0), patterns=[par])),
		('preterminals are below phrases', X.forall([n], z3.Implies(z3.And(T(
			n), t.pre(n), *([n != loose] if loose is not None else [])),
			z3.And(V.is_vref(par), phrase(V.ref(par)))), patterns=[par])),
		('words do not move', X.forall([n], z3.Implies(z3.And(T(n), t.pre(n),
			z3.Not(movable(t, n))), par == t.parent0(n)), patterns=[par])),
		('phrases have nodes as children', X.forall([n, i], z3.Implies(
			z3.And(phrase(n), 0 <= i, i < t.len(n, h)), z3.And(V.is_vref(c),
			T(V.ref(c)), V.ref(c) != t.root)), patterns=[c])),
		('no phrase is empty', X.forall([n], z3.Implies(z3.And(phrase(n),
			n != t.root, z3.Not(t.removed(n, h)), *([n != current]
			if current is not None else [])), t.len(n, h) >= 1), patterns=[
			par])),
		('labels are kept', X.forall([n], z3.Implies(T(n), z3.And(h['label'][n]
			== t.h0['label'][n], h['children'][n] == t.h0['children'][n])),
			patterns=[T(n)])),
		('lists of children are not new', X.forall([n], z3.Implies(t.sp.node(h,
			n), z3.And(t.sp.kids(h, n) < t.h0.alloc, t.sp.kids(h, n)
			!= t.sent)), patterns=[h['children'][n]])),
		('nodes are not new', X.forall([n], z3.Implies(t.sp.node(h, n),
			n < t.h0.alloc), patterns=[X.clsof(n)])),
		('the sentence is unchanged', z3.And(h['llen'][t.sent] == t.h0['llen'][
			t.sent], h['lget'][t.sent] == t.h0['lget'][t.sent])),
		] + c06.leaves(t, h)


def newlist(t, S, name):
	h, r = S.h, S.ref(name)
	return [('local list', z3.And(r >= t.h0.alloc, r < h.alloc, X.clsof(r)
			== t.sp.lst))]


def topunct(t, S):
	"""The list punct: different movable preterminals below the root."""
	h, r, j = S.h, S.ref('punct'), z3.Int('j')
	x = h['lget'][r][j]
	at = S.st.ghost['at']
	p = V.ref(x)
	return newlist(t, S, 'punct') + [('nodes to be moved', z3.And(h['llen'][r]
		>= 0, X.forall([j], z3.Implies(z3.And(0 <= j, j < h['llen'][r]), z3.And(
		V.is_vref(x), T(p), t.pre(p), movable(t, p), h['_parent'][p] == V.vref(
		t.root), t.parent0(p) == V.vref(t.root), at[p] == j)), patterns=[x])))]


def atinit(S):
	"""Ghost: the position of a node in the list punct."""
	g, inv, m = S.st.ghost['comp']
	idx, n = S.st.ghost['idx'], z3.Int('n')
	a = fresh(IntMap, 'at')
	S.st.assume(X.forall([n], a[n] == inv(idx(n)), patterns=[a[n]]))
	return a


def same(name):
	return lambda S: S.st.ghost[name]


def raiseinv(S):
	t = Tr(S)
	return heapinv(t, S.h, setidx(S)) + topunct(t, S)


def raised(S):
	"""One node was attached elsewhere (or left as it was)."""
	t, h, n = Tr(S), S.h, z3.Int('n')
	r = S.ref('punct')
	node = V.ref(S.head['lget'][r][S.head['llen'][r] - 1])
	par = h['_parent'][node]
	for name, f in [
			('the node has a new parent', z3.And(V.is_vref(par), T(V.ref(par)),
				z3.Not(t.pre(V.ref(par))))),
			('other nodes are not moved', X.forall([n], z3.Implies(z3.And(
				T(n), n != node), h['_parent'][n] == S.head['_parent'][n]),
				patterns=[h['_parent'][n]]))]:
		S.eng.oblige(S.st, name, f)
		S.st.assume(f)
	return []


def upinv(S):
	t, h = Tr(S), S.h
	r = S.ref('punct')
	popped = V.ref(toV(S.preenv['node']))
	return heapinv(t, h, setidx(S)) + topunct(t, S) + [
		('node', z3.And(V.is_vref(S.v('node')), z3.Or(S.v('node')
			== V.vref(popped), S.v('node') == V.vref(t.root)))),
		('popped', poppedis(t, S, popped))]


def poppedis(t, S, popped):
	h, r = S.h, S.ref('punct')
	return z3.And(T(popped), t.pre(popped), movable(t, popped),
			h['_parent'][popped] == V.vref(t.root), t.parent0(popped)
			== V.vref(t.root), S.st.ghost['at'][popped] == h['llen'][r])


def candinv(S):
	"""No candidate was suitable so far: nothing changed."""
	return [('nothing changed', z3.And([S.h[f] == S.pre[f] for f in MOD]
			+ [S.h.alloc == S.pre.alloc]))]


def use_attach(make, where):
	"""Contract of append or insert, with its consequences."""
	callee = c02.use(make, 3 if where == 'first' else 2)

	def fn(eng, st, args, kwargs):
		old = st.heap.copy()
		me, x = args[0].e, toV(args[-1])
		l = c02.Spec(eng).kids(old, me)
		k = z3.IntVal(0) if where == 'first' else old['llen'][l]
		if where == 'first':
			eng.oblige(st, 'insert at the start', args[1].e == 0)
			st.assume(args[1].e == 0)
		for s, r in callee(eng, st, args, kwargs):
			if not isinstance(r, X.Exc):
				h = s.heap
				claim(eng, s, [('the node is the %s child' % where, h['lget'][l
					][k] == x, None), ('the node has this parent', h['_parent'][
					V.ref(x)] == V.vref(me), None)] + otherparents(eng, s, old,
					V.ref(x)))
			yield s, r
	return fn


def use_pop(make, nargs, kind):
	"""Contract of pop or del, with its consequences."""
	callee = c02.use(make, nargs, kind)

	def fn(eng, st, args, kwargs):
		old = st.heap.copy()
		me, k = args[0].e, args[1].e
		sp = c02.Spec(eng)
		l = sp.kids(old, me)
		x = fresh(Int, 'removed')
		st.assume(z3.Implies(z3.And(0 <= k, k < old['llen'][l], V.is_vref(
				old['lget'][l][k])), x == V.ref(old['lget'][l][k])))
		for s, r in callee(eng, st, args, kwargs):
			if not isinstance(r, X.Exc):
				h = s.heap
				claim(eng, s, [('a child is removed', z3.And(0 <= k,
					k < old['llen'][l], old['lget'][l][k] == V.vref(x), T(x)),
					None), ('the child has no parent', V.is_none(h['_parent'][
					x]), None)] + otherparents(eng, s, old, x))
			yield s, r
	return fn


def otherparents(eng, s, old, x):
	n = z3.Int('n')
	return [('other nodes keep their parent', X.forall([n], z3.Implies(z3.And(
			c02.Spec(eng).node(old, n), n != x), s.heap['_parent'][n]
			== old['_parent'][n]), patterns=[s.heap['_parent'][n]]), None)]


def claim(eng, s, claims):
	for name, f, about in claims:
		eng.oblige(s, name, f, about=about)
		s.assume(f)


def use_iter(eng, st, me, args, kwargs):
	"""Iterating over a phrase."""
	t = Tr(X.View(eng, st))
	h, i = st.heap, z3.Int('i')
	me = me.e
	arr, n = h['lget'][t.sp.kids(h, me)], t.len(me, h)
	c = arr[i]
	ok = X.forall([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(V.is_vref(c),
			T(V.ref(c)), t.sp.node(h, V.ref(c)))), patterns=[c])
	eng.oblige(st, 'children are nodes', ok)
	st.assume(ok, n >= 0)
	q = SSeq(n, lambda j: SRef(V.ref(arr[j]), PT))
	q.types = ('list', )
	q.arr = arr
	yield st, q


def use_leaves(eng, st, args, kwargs):
	t = Tr(X.View(eng, st))
	me = args[0].e
	eng.oblige(st, 'the node is in the tree', z3.And(T(me), z3.Not(t.removed(
			me, st.heap)), z3.Or(me != t.root, t.len(me, st.heap) >= 1)))
	yield st, SPure(fresh(V, 'leaves'))


def use_subtrees(eng, st, args, kwargs):
	"""Tree.subtrees(): nodes of the tree for which the function is true."""
	t = Tr(X.View(eng, st))
	me = args[0]
	eng.oblige(st, 'subtrees of the tree', me.e == t.root)
	func = args[1] if len(args) > 1 else kwargs.get('condition')
	s = st.fork()
	x, j = fresh(Int, 'subtree'), z3.Int('j')
	s.assume(T(x), z3.Not(t.removed(x, s.heap)), t.sp.node(s.heap, x))
	for s1, v in (eng.call(func, [SRef(x, PT)], {}, s) if func is not None
			else ()):
		if isinstance(v, X.Exc):
			if X.feasible(s1, full=True):
				eng.oblige(s1, 'no exception', z3.BoolVal(False))
			continue
		for s2, b in eng.truth(v, s1):
			eng.oblige(s2, 'only phrases are candidates', z3.Implies(b, z3.Not(
					t.pre(x))))
	f = z3.Function('cand!%d' % next(X._cnt), Int, Int)
	n = fresh(Int, 'candidates')
	st.assume(n >= 1, X.forall([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(
			T(f(j)), z3.Not(t.removed(f(j), st.heap)), t.sp.node(st.heap, f(j)),
			z3.BoolVal(True) if func is None else z3.Not(t.pre(f(j))))),
			patterns=[f(j)]))
	q = SSeq(n, lambda k: SRef(f(k), PT))
	q.types = ('generator', )
	yield st, q


def use_min(eng, st, args, kwargs):
	yield st, SInt(fresh(Int, 'extreme'))


def c_punctraise():
	def setup(eng, st):
		return start(eng, st) + [SBool(ALL)], {}
	return Contract('%s:punctraise' % PUN, [Case('', setup, moved)])


def start(eng, st):
	sp, tree, sent = c06.treeandsent(eng, st)
	st.ghost['root'] = tree.e
	st.assume(*c06.pre(Tr(X.View(eng, st))))
	n = z3.Int('n')
	h = st.heap
	st.assume(X.forall([n], z3.Implies(sp.node(h, n), n < h.alloc), patterns=[
			X.clsof(n)]))
	return [tree, sent]


def moved(P):
	"""The tree at the end."""
	t, h, n = Tr(P), P.h, z3.Int('n')
	idx = setidx(P)
	phrase = lambda n: z3.And(T(n), z3.Not(t.pre(n)))
	par = h['_parent'][n]
	p = V.ref(par)
	inside = z3.And(V.is_vref(par), phrase(p), z3.Not(t.removed(p, h)),
			0 <= idx(n), idx(n) < t.len(p, h), t.kid(p, idx(n), h)
			== V.vref(n))
	return [('preterminals are in the tree', X.forall([n], z3.Implies(z3.And(T(
			n), t.pre(n)), inside), patterns=[par])),
		('phrases that remain are in the tree', X.forall([n], z3.Implies(
			z3.And(phrase(n), n != t.root, z3.Not(t.removed(n, h))), z3.And(
			inside, par == t.parent0(n), t.len(n, h) >= 1)), patterns=[par])),
		] + heapinv(t, h, idx)


def balanced(S):
	"""Loop 0 of balancedpunctraise."""
	t, h = Tr(S), S.h
	tp, pm = S.ref('termparent'), S.ref('punctmap')
	return heapinv(t, h, setidx(S)) + maps(t, S)


def maps(t, S):
	"""The dictionaries: termparent and punctmap."""
	h, k = S.h, z3.Const('k', V)
	tp, pm = S.ref('termparent'), S.ref('punctmap')
	p = h['dmap'][tp][k]
	r = V.ref(p)
	res = [
		('local dictionaries', z3.And(tp >= t.h0.alloc, pm >= t.h0.alloc,
			tp < h.alloc, pm < h.alloc, tp != pm)),
		('preterminals', X.forall([k], z3.Implies(h['ddom'][tp][k], z3.And(
			V.is_vint(k), V.is_vref(p), T(r), t.sp.node(h, r), t.pre(r),
			t.leaf(r) == V.i(k), movable(t, r))), patterns=[h['ddom'][tp][k],
			p])),
		('left punctuation', X.forall([k], z3.Implies(h['ddom'][pm][k], z3.And(
			V.is_vint(h['dmap'][pm][k]), h['ddom'][tp][h['dmap'][pm][k]])),
			patterns=[h['ddom'][pm][k]])),
		]
	return res


def terminals(S):
	"""The list that is iterated over is not changed."""
	it = S.it.e
	S.st.ghost['terminals'] = it, S.pre['llen'][it], S.pre['lget'][it]
	return balanced(S) + sortedlist(S)


def sortedlist(S):
	t, h, j = Tr(S), S.h, z3.Int('j')
	it, n, arr = S.st.ghost['terminals']
	x = h['lget'][it][j]
	return [('list of terminals', z3.And(it >= t.h0.alloc,
		it < h.alloc, h['llen'][it] == n, h['lget'][it] == arr,
		X.forall([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(V.is_vint(x),
		h['ddom'][S.ref('termparent')][x])), patterns=[x])))]


def pruneinv(S):
	"""Removing empty ancestors."""
	t, h = Tr(S), S.h
	node = V.ref(S.v('node'))
	return heapinv(t, h, setidx(S), current=node) + [
		('node', z3.And(V.is_vref(S.v('node')), T(node), z3.Not(t.pre(node)),
			z3.Not(t.removed(node, h))))] + maps(t, S) + sortedlist(S)


BAL = z3.Function('balanced', V, Bool)
RIGHT = z3.Function('rightpunct', V, V)


def use_balcontains(eng, st, r, x):
	yield st, BAL(toV(x))


def use_balget(eng, st, r, x):
	eng.oblige(st, 'punctuation that comes in pairs', BAL(toV(x)))
	v = RIGHT(toV(x))
	st.assume(V.is_vstr(v))
	yield st, SDyn(v)


def c_balanced():
	def setup(eng, st):
		return start(eng, st), {}
	return Contract('%s:balancedpunctraise' % PUN, [Case('', setup, moved)])


MOD = ['lget', 'llen', '_parent']
LOOPS = {
	('punctraise', 0): LoopSpec(raiseinv, modifies=MOD, allocs=True, forget=True,
		kinds=dict(node='undef', candidate='undef'), ghosts={'idxa': (idxinit,
		idxinit), 'at': (atinit, same('at'))}, ghost=raised),
	('punctraise', 1): LoopSpec(upinv, modifies=[], kinds=dict(node=PT),
		ghosts={'idxa': (idxinit, idxinit)}),
	('punctraise', 2): LoopSpec(candinv, modifies=MOD, kinds=dict(
		candidate='undef')),
	('balancedpunctraise', 0): LoopSpec(terminals, modifies=MOD + ['ddom',
		'dmap', 'dsize', 'dver'], allocs=True, forget=True, kinds=dict(node='undef',
		child='undef', left='undef', right='undef', leftparent='undef',
		rightparent='undef', preterminal='undef', terminal='undef'), ghosts={
		'idxa': (idxinit, idxinit)}),
	('balancedpunctraise', 1): LoopSpec(pruneinv, modifies=MOD, allocs=True, forget=True, kinds=dict(
		node=PT, child=PT), ghosts={'idxa': (idxinit, idxinit)}),
	}


def mk(name):
	callees = {
		PT + '._get_parent_index': c02.use_parent_index,
		'Tree.__getitem__': c06.use_getitem,
		PT + '.__iter__': use_iter,
		PT + '.__delitem__': use_pop(c02.c_delitem, 2, None),
		PT + '.pop': use_pop(c02.c_pop, 2, 'dyn'),
		PT + '.append': use_attach(c02.c_append, 'last'),
		PT + '.insert': use_attach(c02.c_insert, 'first'),
		PT + '.parent': c06.use_parent,
		'Tree.leaves': use_leaves,
		'Tree.subtrees': use_subtrees,
		'ispunct': c06.use_ispunct,
		'min': use_min, 'max': use_min,
		'SPure.__contains__': use_balcontains,
		'SPure.__getitem__': use_balget,
		}
	eng = Engine(classes=c02.CLASSES, attrs=c02.ATTRS, dynclasses=(PT, ),
			loops=LOOPS, callees=callees, names={'min': SCallback(use_min),
			'max': SCallback(use_min), 'BALANCEDPUNCTMATCH': SPure(fresh(V,
			'pairs'))})
	eng.owner = z3.Function('ownerof', Int, Int)
	return eng


CONTRACTS = [c_punctraise, c_balanced]
