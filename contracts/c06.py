"""Contracts of deleting words from a tree (C06).

T(n): n is a node of the tree (before the deletion). A node of T is a
preterminal (its only child is an index), or its children are nodes of T. A
node is removed when it has lost its parent. SEEN: a set of nodes, with the
root, and closed under children: all nodes of the resulting tree are in SEEN.
"""
import z3
from pv import vc, pyexec as X, pylib
from pv.pyexec import (V, Int, Bool, SInt, SDyn, SRef, SNone, STup, SStr, SBool,
		SSeq, SCallback, Case, Contract, LoopSpec, Engine, fresh, toV)
from . import c02

TT = 'discodop/treetransforms.py'
PT = c02.PT
T = z3.Function('intree', Int, Bool)
OWNER = z3.Function('wordof', Int, Int)
FUNC = z3.Function('tobedeleted', V, Int, Bool)
Set = z3.ArraySort(Int, Bool)
IntMap = z3.ArraySort(Int, Int)


class Tr(object):
	"""The tree as it was."""
	def __init__(self, S):
		self.S, self.eng = S, S.eng
		self.sp = c02.Spec(S.eng)
		self.h0 = S.st.ghost['h0']
		self.root = S.st.ghost['root']
		self.sent = S.st.ghost['sent']

	def len(self, n, h=None):
		h = h or self.h0
		return h['llen'][self.sp.kids(h, n)]

	def kid(self, n, i, h=None):
		h = h or self.h0
		return h['lget'][self.sp.kids(h, n)][i]

	def pre(self, n):
		"""Is a preterminal (before)."""
		return z3.And(self.len(n) == 1, V.is_vint(self.kid(n, 0)))

	def leaf(self, n):
		return V.i(self.kid(n, 0))

	def word(self, n):
		return self.h0['lget'][self.sent][self.leaf(n)]

	def parent0(self, n):
		return self.h0['_parent'][n]

	def removed(self, n, h):
		return z3.And(n != self.root, V.is_none(h['_parent'][n]))


def pre(t):
	"""Preconditions."""
	n, i = z3.Ints('n i')
	h, sp = t.h0, t.sp
	c = t.kid(n, i)
	return [
		T(t.root), z3.Not(t.pre(t.root)),
		X.forall([n], z3.Implies(T(n), z3.And(sp.node(h, n), z3.Or(n == t.root,
			t.len(n) >= 1), z3.Implies(t.pre(n), z3.And(0 <= t.leaf(n),
			t.leaf(n) < h['llen'][t.sent])))), patterns=[T(n)]),
		X.forall([n, i], z3.Implies(z3.And(T(n), z3.Not(t.pre(n)), 0 <= i,
			i < t.len(n)), z3.And(V.is_vref(c), T(V.ref(c)), V.ref(c)
			!= t.root)), patterns=[z3.MultiPattern(T(n), c)]),
		X.forall([n], z3.Implies(z3.And(T(n), n != t.root), z3.And(V.is_vref(
			t.parent0(n)), T(V.ref(t.parent0(n))), z3.Not(t.pre(V.ref(
			t.parent0(n)))))), patterns=[t.parent0(n)]),
		X.forall([n], z3.Implies(z3.And(T(n), t.pre(n)), OWNER(t.leaf(n))
			== n), patterns=[T(n)]),
		]


def heapinv(t, h, idx, current=None):
	"""The tree during the deletion; current: a node which may be empty."""
	n, i = z3.Ints('n i')
	c = t.kid(n, i, h)
	return list(t.sp.wf(h, idx)) + [
		('nodes keep their parent, or lose it', X.forall([n], z3.Implies(
			z3.And(T(n), n != t.root), z3.Or(V.is_none(h['_parent'][n]),
			h['_parent'][n] == t.parent0(n))), patterns=[
			h['_parent'][n]])),
		('removed nodes are empty or were to be deleted', X.forall([n],
			z3.Implies(z3.And(T(n), t.removed(n, h)), z3.If(t.pre(n), FUNC(
			t.word(n), n), t.len(n, h) == 0)), patterns=[
			h['_parent'][n]])),
		('phrases have nodes as children', X.forall([n, i], z3.Implies(
			z3.And(T(n), z3.Not(t.pre(n)), 0 <= i, i < t.len(n, h)), z3.And(
			V.is_vref(c), T(V.ref(c)), V.ref(c) != t.root)), patterns=[c])),
		('no node is empty', X.forall([n], z3.Implies(z3.And(T(n), n != t.root,
			z3.Not(t.removed(n, h)), *([n != current] if current is not None
			else [])), t.len(n, h) >= 1), patterns=[T(n), h['_parent'][n]])),
		('labels are kept', X.forall([n], z3.Implies(T(n), z3.And(h['label'][n]
			== t.h0['label'][n], h['children'][n] == t.h0['children'][n])),
			patterns=[T(n)])),
		('lists of children are not new', X.forall([n], z3.Implies(t.sp.node(h,
			n), z3.And(t.sp.kids(h, n) < t.h0.alloc, t.sp.kids(h, n)
			!= t.sent)), patterns=[h['children'][n]])),
		('nodes are not new', X.forall([n], z3.Implies(t.sp.node(h, n),
			n < t.h0.alloc), patterns=[X.clsof(n)])),
		]


def leaves(t, h):
	n = z3.Int('n')
	return [('indices are kept', X.forall([n], z3.Implies(z3.And(T(n),
		t.pre(n)), z3.And(t.len(n, h) == 1, t.kid(n, 0, h) == t.kid(n, 0))),
		patterns=[T(n)]))]


def newlists(t, S, names):
	"""Local lists are not lists of children, nor the sentence."""
	h = S.h
	refs = [S.ref(a) for a in names]
	return [('local objects', z3.And([z3.And(r >= t.h0.alloc, r < h.alloc)
		for r in refs] + [r != q for k, r in enumerate(refs)
		for q in refs[:k]] + [X.clsof(S.ref('agenda')) == t.sp.lst])),
		('the sentence', z3.And(h['llen'][t.sent] == t.h0['llen'][t.sent],
		h['lget'][t.sent] == t.h0['lget'][t.sent]))]


def kept(t, h, d):
	"""Dictionary of preterminals."""
	a = z3.Const('a', V)
	p = h['dmap'][d][a]
	return [('preterminals found', X.forall([a], z3.Implies(h['ddom'][d][a],
		z3.And(V.is_vint(a), V.is_vref(p), T(V.ref(p)), t.pre(V.ref(p)),
		t.leaf(V.ref(p)) == V.i(a), z3.Not(t.removed(V.ref(p), h)),
		z3.Not(FUNC(t.word(V.ref(p)), V.ref(p))))), patterns=[h['ddom'][d][a],
		p]))]


def found(t, h, d, n):
	a = V.vint(t.leaf(n))
	return z3.And(h['ddom'][d][a], h['dmap'][d][a] == V.vref(n))


def closed(t, S, seen, h, d, where, but=None):
	"""Of all nodes seen, the children were seen."""
	n, i = z3.Ints('n i')
	c = t.kid(n, i, h)
	return [('the root was seen', seen[t.root]),
		('nodes seen are in the tree', X.forall([n], z3.Implies(seen[n], T(n)),
			patterns=[seen[n]])),
		('preterminals seen are found', X.forall([n], z3.Implies(z3.And(
			seen[n], t.pre(n), z3.Not(t.removed(n, h))), found(t, h, d, n)),
			patterns=[seen[n]])),
		('children of nodes seen are seen', X.forall([n, i], z3.Implies(z3.And(
			seen[n], z3.Not(t.pre(n)), z3.Not(where(n)), 0 <= i,
			i < t.len(n, h), *([z3.Not(but(n, i))] if but else [])),
			seen[V.ref(c)]), patterns=[z3.MultiPattern(seen[n], c)]))]


def onagenda(S):
	h, ag, pos = S.h, S.ref('agenda'), S.st.ghost['agpos']
	return lambda n: z3.And(0 <= pos[n], pos[n] < h['llen'][ag], h['lget'][ag][
			pos[n]] == V.vref(n))


def agenda(t, S):
	h, ag, j = S.h, S.ref('agenda'), z3.Int('j')
	x = h['lget'][ag][j]
	return [('agenda', z3.And(h['llen'][ag] >= 0, X.forall([j], z3.Implies(
		z3.And(0 <= j, j < h['llen'][ag]), z3.And(V.is_vref(x), T(V.ref(x)),
		S.st.ghost['seen'][V.ref(x)], z3.Not(t.pre(V.ref(x))))), patterns=[
		x])))]


def setidx(S):
	"""The ghost positions of nodes, for the contracts of ParentedTree."""
	a = S.st.ghost['idxa']
	S.st.ghost['idx'] = lambda r, a=a: a[r]
	return S.st.ghost['idx']


def idxinit(S):
	a, n = fresh(IntMap, 'idxa'), z3.Int('n')
	old = S.st.ghost.get('idx', c02.IDX0)
	S.st.assume(X.forall([n], a[n] == old(n), patterns=[a[n]]))
	return a


def walkinv(S):
	t, h = Tr(S), S.h
	idx = setidx(S)
	d = S.ref('preterms')
	on = onagenda(S)
	return (heapinv(t, h, idx) + leaves(t, h) + newlists(t, S, ['agenda',
		'preterms']) + kept(t, h, d) + agenda(t, S) + closed(t, S, S.st.ghost[
		'seen'], h, d, on))


def nodevar(S, name='node'):
	return V.ref(S.v(name))


def kidsinv(S):
	"""n: the next position; children at higher positions were seen."""
	t, h = Tr(S), S.h
	idx = setidx(S)
	d = S.ref('preterms')
	on = onagenda(S)
	cur = V.ref(toV(S.preenv['node']))
	node = nodevar(S)
	nxt = S.pre['llen'][t.sp.kids(S.pre, cur)] - 1 - S.i
	here = lambda n: z3.Or(on(n), n == cur)
	return (heapinv(t, h, idx) + leaves(t, h) + newlists(t, S, ['agenda',
		'preterms']) + kept(t, h, d) + agenda(t, S) + closed(t, S, S.st.ghost[
		'seen'], h, d, here)) + [
		('node is in the tree', z3.And(V.is_vref(S.v('node')), T(node),
			T(cur), z3.Not(t.pre(cur)), z3.Not(t.pre(node)))),
		('node was seen', S.st.ghost['seen'][cur]),
		('position', z3.Or(z3.And(node == cur, t.len(cur, h) >= nxt + 1),
			z3.And(t.len(cur, h) == 0, nxt == -1))),
		('later children were seen', laterseen(t, S, h, cur, nxt)),
		]


def laterseen(t, S, h, cur, nxt):
	i = z3.Int('i')
	c = t.kid(cur, i, h)
	return X.forall([i], z3.Implies(z3.And(nxt < i, i < t.len(cur, h)),
			S.st.ghost['seen'][V.ref(c)]), patterns=[c])


def upinv(S):
	"""Delete empty ancestors."""
	t, h = Tr(S), S.h
	idx = setidx(S)
	d = S.ref('preterms')
	on = onagenda(S)
	cur, nxt = V.ref(toV(S.preenv['node'])), S.int('n')
	node = nodevar(S)
	gone = V.ref(toV(S.preenv['child']))
	here = lambda n: z3.Or(on(n), n == cur)
	return (heapinv(t, h, idx, node) + leaves(t, h) + newlists(t, S, ['agenda',
		'preterms']) + kept(t, h, d) + agenda(t, S) + closed(t, S, S.st.ghost[
		'seen'], h, d, here)) + [
		('node is in the tree', z3.And(V.is_vref(S.v('node')), T(node),
			T(cur), z3.Not(t.pre(cur)), z3.Not(t.pre(node)))),
		('node is not removed', z3.Not(t.removed(node, h))),
		('position', z3.Or(z3.And(node == cur, t.len(cur, h) >= nxt),
			z3.And(t.len(cur, h) == 0, nxt == 0))),
		('later children were seen', laterseen(t, S, h, cur, nxt - 1)),
		('the child was deleted', z3.And(T(gone), t.removed(gone, h))),
		]


def walkghosts():
	same = lambda name: lambda S: S.st.ghost[name]
	return {'idxa': (idxinit, idxinit),
		'seen': (lambda S: z3.Store(z3.K(Int, z3.BoolVal(False)), Tr(S).root,
			z3.BoolVal(True)), same('seen')),
		'agpos': (lambda S: z3.K(Int, z3.IntVal(0)), same('agpos'))}


def childhere(S):
	"""The child which this iteration of loop 1 is about."""
	t = Tr(S)
	cur = V.ref(toV(S.preenv['node']))
	return V.ref(t.kid(cur, S.int('n'), S.head))


def kidsghosts():
	same = lambda name: lambda S: S.st.ghost[name]

	def pos(S):
		old, ag = S.st.ghost['agpos'], S.ref('agenda')
		return z3.If(S.h['llen'][ag] > S.head['llen'][ag], z3.Store(old,
				childhere(S), S.head['llen'][ag]), old)
	return {'idxa': (idxinit, idxinit),
		'seen': (same('seen'), lambda S: z3.Store(S.st.ghost['seen'],
			childhere(S), z3.BoolVal(True))),
		'agpos': (same('agpos'), pos)}


def renumbered(S):
	"""Preterminals before S.i have their new index."""
	t, h = Tr(S), S.h
	idx = setidx(S)
	d, new = S.ref('preterms'), S.ref('newindices')
	n, j = z3.Ints('n j')
	key = S.st.ghost['karr'][j]
	node = V.ref(h['dmap'][d][key])
	return list(t.sp.wf(h, idx)) + [
		('phrases are unchanged', X.forall([n], z3.Implies(z3.And(T(n), z3.Not(
			t.pre(n))), z3.And(t.len(n, h) == t.len(n, S.pre), h['lget'][
			t.sp.kids(h, n)] == S.pre['lget'][t.sp.kids(h, n)])), patterns=[
			T(n)])),
		('parents are unchanged', X.forall([n], z3.Implies(T(n),
			h['_parent'][n] == S.pre['_parent'][n]), patterns=[h['_parent'][
			n]])),
		('preterminals have one index', X.forall([n], z3.Implies(z3.And(T(n),
			t.pre(n)), z3.And(t.len(n, h) == 1, V.is_vint(t.kid(n, 0, h)))),
			patterns=[T(n)])),
		('indices', X.forall([j], z3.Implies(z3.And(0 <= j, j < S.it.n),
			t.kid(node, 0, h) == z3.If(j < S.i, h['dmap'][new][key], key)),
			patterns=[key])),
		] + heapinv(t, h, idx)[4:] + lists(t, S, ['agenda', 'preterms',
		'newindices', 'oldindices'])


def ranks(S):
	"""The new index of a word is its rank among the indices."""
	h = S.h
	old = S.st.ghost['sortedarr']
	new = S.ref('newindices')
	_, dst, n = S.st.ghost['sorted']
	i, j = z3.Ints('i j')
	get = S.st.ghost['sortedget']
	ckeys, vals, count, dom, dmap = S.st.ghost['dictcomp']
	karr = toV(S.it.get(z3.IntVal(0)).items[0]).arg(0)
	keys = S.st.ghost['karr'] = S.name(karr, 'karr')
	claims = [
		('list of indices', z3.And(old == h['lget'][S.ref('oldindices')],
			h['llen'][S.ref('oldindices')] == n)),
		('length', n == S.it.n),
		('same order of keys', X.forall([j], z3.Implies(z3.And(0 <= j, j < n),
			keys[j] == get(j)), patterns=[keys[j], get(j)])),
		('keys are listed', X.forall([j], z3.Implies(z3.And(0 <= j, j < n),
			z3.And(0 <= dst(j), dst(j) < n, old[dst(j)] == keys[j])),
			patterns=[keys[j]])),
		('old indices', X.forall([i], z3.Implies(z3.And(0 <= i, i < n),
			V.is_vint(old[i])), patterns=[old[i]])),
		('indices are different', X.forall([i, j], z3.Implies(z3.And(0 <= i,
			i < j, j < n), V.i(old[i]) < V.i(old[j])), patterns=[
			z3.MultiPattern(old[i], old[j])])),
		('keys of the new indices', X.forall([i], z3.Implies(z3.And(0 <= i,
			i < n), ckeys[i] == old[i]), patterns=[old[i], ckeys[i]])),
		('number of new indices', count == n),
		('map of new indices', z3.And(h['ddom'][new] == dom, h['dmap'][new]
			== dmap)),
		('new indices are in order', X.forall([i], z3.Implies(z3.And(0 <= i,
			i < n), vals[i] == V.vint(i)), patterns=[ckeys[i], vals[i]]),
			[vals]),
		('known indices', X.forall([i], z3.Implies(z3.And(0 <= i, i < n),
			dom[ckeys[i]]), patterns=[old[i], ckeys[i]]), [dom]),
		('new index', X.forall([i], z3.Implies(z3.And(0 <= i, i < n), dmap[
			ckeys[i]] == V.vint(i)), patterns=[old[i], ckeys[i]]), [vals, ckeys,
			old]),
		('new index of old index', X.forall([i], z3.Implies(z3.And(0 <= i,
			i < n), z3.And(h['ddom'][new][old[i]], h['dmap'][new][old[i]]
			== V.vint(i))), patterns=[old[i]]), [dom, ckeys]),
		('new index of a key', X.forall([j], z3.Implies(z3.And(0 <= j, j < n),
			z3.And(h['ddom'][new][keys[j]], h['dmap'][new][keys[j]] == V.vint(
			dst(j)))), patterns=[keys[j]]), [old]),
		]
	return [], claims


def prove(lemmas, without=()):
	"""Prove claims one after another."""
	def fn(S):
		_, claims = lemmas(S)
		for name, f, *about in claims:
			S.eng.oblige(S.st, name, f, without=without, about=[str(x)
					for x in about[0]] if about else None)
			S.st.assume(f)
		return [], []
	return fn


def lists(t, S, names):
	n = z3.Int('n')
	h, p = S.h, S.pre
	return [('local objects', z3.And([h['llen'][S.ref('oldindices')] == p[
		'llen'][S.ref('oldindices')], h['lget'][S.ref('oldindices')] == p[
		'lget'][S.ref('oldindices')], h['llen'][t.sent] == t.h0['llen'][
		t.sent], h['lget'][t.sent] == t.h0['lget'][t.sent]]))]


def thisnode(S):
	"""The node of an iteration of loop 3 is a preterminal."""
	t, h = Tr(S), S.head
	n = z3.Int('n')
	node = nodevar(S)
	for name, about, f in [
			('node is a preterminal', None, z3.And(T(node), t.pre(node), t.sp.node(
				h, node), V.is_vint(t.kid(node, 0, h)), t.len(node, h) == 1)),
			('new index', [S.st.ghost['sorted'][1].name()], V.is_vint(S.h['dmap'][S.ref('newindices')][
				S.st.ghost['karr'][S.i - 1]])),
			('node is no parent', [str(h['_parent'])], X.forall([n], z3.Implies(t.sp.node(h, n), h[
				'_parent'][n] != V.vref(node)), patterns=[h['_parent'][n]])),
			('other parents', [str(h['_parent'])], X.forall([n], z3.Implies(t.sp.node(h, n),
				S.h['_parent'][n] == h['_parent'][n]), patterns=[S.h[
				'_parent'][n]]))]:
		S.eng.oblige(S.st, name, f, about=about)
		S.st.assume(f)
	return []


def use_getitem(eng, st, args, kwargs):
	"""Contract of Tree.__getitem__ for an index (see c_getitem)."""
	me, i = args
	sp = c02.Spec(eng)
	h = st.heap
	if not isinstance(i, SInt):
		raise vc.Unsupported('index of child')
	n = h['llen'][sp.kids(h, me.e)]
	k = z3.simplify(z3.If(i.e < 0, i.e + n, i.e))
	ok = z3.And(0 <= k, k < n)
	eng.oblige(st, 'index of a child', ok)
	st.assume(ok)
	c = h['lget'][sp.kids(h, me.e)][k]
	for s, b in eng.split(st, V.is_vref(c)):
		if not X.feasible(s, full=True):
			continue
		kind = (z3.And(sp.node(s.heap, V.ref(c)), V.is_vref(c)) if b
				else V.is_vint(c))
		if not b:
			eng.oblige(s, 'a child is a node or an index', kind)
			s.assume(kind)
			yield s, SInt(V.i(c))
			continue
		isT = z3.And(kind, T(V.ref(c)))
		eng.oblige(s, 'a child is a node or an index', isT)
		s.assume(isT)
		yield s, SRef(V.ref(c), PT)


def c_getitem():
	def setup(eng, st):
		sp, me = c02.start(eng, st)
		return [me, SInt(z3.Const('index', Int))], {}

	def post(P):
		n0, a0, _, _ = c02.mylist(P, c02.Spec(P.eng))
		k = c02.position(P, P.args[1].e)
		return c02.unchanged(P) + [('the child', z3.And(0 <= k, k < n0, toV(
				P.result) == a0[k]))]
	return Contract('%s:Tree.__getitem__' % c02.TREE, [Case('index', setup,
			post, raises=dict(IndexError=c02.outofrange))])


def use_parent(eng, st, args, kwargs):
	"""The attribute parent: None or a node (W3)."""
	sp = c02.Spec(eng)
	par = st.heap['_parent'][args[0].e]
	for s, b in eng.split(st, V.is_none(par)):
		if not X.feasible(s, full=True):
			continue
		if b:
			yield s, SNone()
			continue
		ok = z3.And(V.is_vref(par), sp.node(s.heap, V.ref(par)))
		eng.oblige(s, 'a parent is a node', ok)
		s.assume(ok)
		yield s, SRef(V.ref(par), PT)


def delfunc(S_eng, st, args, kwargs):
	word, node = args
	yield st, SBool(FUNC(toV(word), V.ref(toV(node))))


def removed(P):
	"""Postconditions of removeterminals; NEW[i]: old index of word i."""
	t, h, g = Tr(P), P.h, P.st.ghost
	n, m, i, j = z3.Ints('n m i j')
	seen, karr, old = g['seen'], g['karr'], g['sortedarr']
	_, dst, count = g['sorted']
	size = h['llen'][t.sent]
	new = P.name(h['lget'][t.sent], 'newsent')
	sent = P.name(t.h0['lget'][t.sent], 'oldsent')
	setidx(P)
	d = P.ref('preterms')
	here = lambda n: z3.And(seen[n], T(n), z3.Not(t.removed(n, h)))
	word = lambda n: z3.And(here(n), t.pre(n))
	pos = lambda n: V.i(t.kid(n, 0, h))
	phrase = lambda n: z3.And(T(n), z3.Not(t.pre(n)))
	c = t.kid(n, i, h)
	by = V.ref(h['dmap'][d][old[i]])
	for name, about, f in [
			('number of words', None, size == count),
			('old indices', None, X.forall([i], z3.Implies(z3.And(0 <= i,
				i < count), z3.And(h['ddom'][d][old[i]], V.is_vint(old[i]),
				0 <= V.i(old[i]), V.i(old[i]) < t.h0['llen'][t.sent])),
				patterns=[old[i]])),
			('words', None, X.forall([i], z3.Implies(z3.And(0 <= i, i < size), new[i]
				== sent[V.i(old[i])]), patterns=[new[i], old[i]])),
			('rank', None, X.forall([j], z3.Implies(z3.And(0 <= j, j < count),
				t.kid(V.ref(h['dmap'][d][karr[j]]), 0, h) == V.vint(dst(j))),
				patterns=[karr[j]])),
			('index of a word', None, X.forall([n], z3.Implies(word(n), z3.And(
				V.is_vint(t.kid(n, 0, h)), t.len(n, h) == 1, 0 <= pos(n),
				pos(n) < count, old[pos(n)] == V.vint(t.leaf(n)))), patterns=[
				seen[n]])),
			]:
		P.eng.oblige(P.st, name, f, about=about)
		P.st.assume(f)
	return [
		('words keep their preterminal', X.forall([n], z3.Implies(word(n),
			z3.And(pos(n) < size, new[pos(n)] == sent[t.leaf(n)])), patterns=[
			seen[n]])),
		('words keep their order', X.forall([n, m], z3.Implies(z3.And(word(n),
			word(m)), (t.leaf(n) < t.leaf(m)) == (pos(n) < pos(m))), patterns=[
			z3.MultiPattern(seen[n], seen[m])])),
		('every word of the sentence is in the tree', X.forall([i], z3.Implies(
			z3.And(0 <= i, i < size), z3.And(T(by), t.pre(by), z3.Not(
			t.removed(by, h)), t.kid(by, 0, h) == V.vint(i), new[i] == sent[
			t.leaf(by)])), patterns=[old[i]])),
		('words to be deleted are not in the tree', X.forall([n], z3.Implies(
			word(n), z3.Not(FUNC(t.word(n), n))), patterns=[seen[n]])),
		('the root is in the tree', here(t.root)),
		('children are in the tree', X.forall([n, i], z3.Implies(z3.And(
			here(n), phrase(n), 0 <= i, i < t.len(n, h)), z3.And(here(V.ref(c)),
			t.parent0(V.ref(c)) == V.vref(n))), patterns=[z3.MultiPattern(
			seen[n], c)])),
		('nodes in the tree are children of their parent', X.forall([n],
			z3.Implies(z3.And(T(n), z3.Not(t.removed(n, h)), n != t.root),
			child(t, h, n, setidx(P))), patterns=[h['_parent'][n]])),
		('no node is empty', X.forall([n], z3.Implies(z3.And(T(n),
			n != t.root, z3.Not(t.removed(n, h))), t.len(n, h) >= 1),
			patterns=[T(n)])),
		('words which are removed were to be deleted', X.forall([n],
			z3.Implies(z3.And(T(n), t.pre(n), t.removed(n, h)), FUNC(t.word(n),
			n)), patterns=[T(n)])),
		('labels are kept', X.forall([n], z3.Implies(T(n), h['label'][n]
			== t.h0['label'][n]), patterns=[T(n)])),
		]


def child(t, h, n, idx):
	"""A node is where its parent says, and its parent is the same."""
	par = V.ref(t.parent0(n))
	return z3.And(h['_parent'][n] == t.parent0(n), z3.Not(t.removed(par, h)),
			0 <= idx(n), idx(n) < t.len(par, h), t.kid(par, idx(n), h)
			== V.vref(n))


def c_removeterminals():
	def setup(eng, st):
		sp, tree = c02.start(eng, st)
		sent = z3.Const('sent', Int)
		n = z3.Int('n')
		h = st.heap
		st.ghost.update(h0=h.copy(), root=tree.e, sent=sent)
		S = X.View(eng, st)
		t = Tr(S)
		st.assume(0 < sent, sent < h.alloc, X.clsof(sent) == sp.lst,
			h['llen'][sent] >= 0, X.forall([n], z3.Implies(sp.node(h, n),
			sp.kids(h, n) != sent), patterns=[h['children'][n]]), *pre(t))
		st.ghost['idx'] = c02.IDX0
		return [tree, SRef(sent, 'list'), SCallback(delfunc)], {}

	return Contract('%s:removeterminals' % TT, [Case('', setup, removed)])


# --- which words are deleted

def use_removeterminals(expected):
	"""Contract of removeterminals: the given function decides for each word
	and preterminal; expected(eng, st, word, node) is what it should say."""
	def fn(eng, st, args, kwargs):
		if kwargs or len(args) != 3:
			raise vc.Unsupported('arguments of removeterminals')
		tree, sent, func = args
		eng.oblige(st, 'the tree and sentence are given', z3.And(toV(tree)
				== V.vref(st.ghost['tree']), toV(sent) == V.vref(st.ghost[
				'sent'])))
		s = st.fork()
		w, x = fresh(V, 'word'), fresh(Int, 'preterminal')
		sp = c02.Spec(eng)
		c = s.heap['lget'][sp.kids(s.heap, x)][0]
		s.assume(z3.Or(V.is_vstr(w), V.is_none(w)), sp.node(s.heap, x),
				s.heap['llen'][sp.kids(s.heap, x)] == 1, V.is_vint(c))
		before = {f: a.get_id() for f, a in s.heap.f.items()}
		want = expected(eng, s, w, x)
		n = 0
		for s1, v in eng.call(func, [SDyn(w), SRef(x, PT)], {}, s):
			if isinstance(v, X.Exc):
				if X.feasible(s1, full=True):
					eng.oblige(s1, 'no exception %s' % v.name, z3.BoolVal(
							False))
				continue
			for s2, b in eng.truth(v, s1):
				if not s2.heap.alloc.eq(st.heap.alloc) or any(f in before and
						a.get_id() != before[f] for f, a in s2.heap.f.items()):
					raise vc.Unsupported('effect of function')
				n += 1
				eng.oblige(s2, 'the right words are deleted', b == want)
		if not n:
			raise vc.Unsupported('function has no result')
		st.ghost['called'] = st.ghost.get('called', 0) + 1
		yield st, SNone()
	return fn


def calls(P):
	return [('words are deleted once', z3.BoolVal(P.st.ghost.get('called', 0)
			== 1))]


def treeandsent(eng, st):
	sp, tree = c02.start(eng, st)
	sent, i = z3.Const('sent', Int), z3.Int('i')
	n = z3.Int('n')
	h = st.heap
	w = h['lget'][sent][i]
	st.assume(0 < sent, sent < h.alloc, X.clsof(sent) == sp.lst,
		h['llen'][sent] >= 0, X.forall([i], z3.Or(V.is_vstr(w), V.is_none(w)),
		patterns=[w]), X.forall([n], z3.Implies(sp.node(h, n),
		z3.And(sp.kids(h, n) != sent, V.is_vstr(h['label'][n]))), patterns=[
		h['children'][n]]))
	st.ghost.update(h0=h.copy(), tree=tree.e, sent=sent)
	st.ghost['idx'] = c02.IDX0
	return sp, tree, SRef(sent, 'list')


def isstr(eng, v, *strings):
	return z3.Or([v == toV(eng.const(x)) for x in strings])


def label(st, x):
	return st.heap['label'][x]


def emptynode(eng, st, w, x):
	return z3.Or(V.is_none(w), isstr(eng, w, ''), isstr(eng, label(st, x), '-NONE-'))


def c_removeemptynodes():
	def setup(eng, st):
		_, tree, sent = treeandsent(eng, st)
		return [tree, sent], {}
	return Contract('%s:removeemptynodes' % TT, [Case('', setup, calls)])


PUN = 'discodop/punctuation.py'
PUNCT = z3.Function('ispunct', V, V, Bool)


def use_ispunct(eng, st, args, kwargs):
	word, tag = args
	yield st, SBool(PUNCT(toV(word), label(st, V.ref(toV(tag)))))


def c_punctremove():
	def setup(eng, st):
		_, tree, sent = treeandsent(eng, st)
		return [tree, sent, SBool(z3.BoolVal(False))], {}
	return Contract('%s:punctremove' % PUN, [Case('', setup, calls)])


def punctword(eng, st, w, x):
	return PUNCT(w, label(st, x))


def pruned(P):
	"""Only quotes and periods at either end are marked for deletion."""
	sent, i, j = P.st.ghost['sent'], z3.Int('i'), z3.Int('j')
	h0, h = P.st.ghost['h0'], P.h
	old, new, n = h0['lget'][sent], h['lget'][sent], h0['llen'][sent]
	same = z3.And(h['llen'][sent] == n, h['children'] == h0['children'])
	quote = lambda k: z3.Or(isstr(P.eng, old[k], '``', "''", '"', '.'), V.is_none(
			old[k]))
	return [('same length', same), ('words which are not at either end stay',
		X.forall([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n, z3.Not(quote(
		i)), z3.Not(quote(j))), z3.And(new[i] == old[i], new[j] == old[j])),
		patterns=[z3.MultiPattern(new[i], new[j])])),
		('words are kept or marked', X.forall([i], z3.Implies(z3.And(0 <= i,
		i < n), z3.Or(new[i] == old[i], z3.And(V.is_none(new[i]), quote(i)))),
		patterns=[new[i]]))] + calls(P)


def prefix(S):
	"""Loop 0 of punctprune: all words before i are marked."""
	h, h0, k = S.h, S.st.ghost['h0'], z3.Int('k')
	sent, i = S.st.ghost['sent'], S.int('i')
	old, new, n = h0['lget'][sent], h['lget'][sent], h0['llen'][sent]
	w = old[k]
	return [('words before i are marked, others are kept', z3.And(0 <= i,
		i <= n, h['llen'][sent] == n, X.forall([k], z3.Implies(z3.And(0 <= k,
		k < n), z3.If(k < i, z3.And(V.is_none(new[k]), isquote(S.eng, w)),
		new[k] == w)), patterns=[new[k]]), V.is_none(V.none)))] + otherlists(S)


def isquote(eng, w):
	return isstr(eng, w, '``', "''", '"', '.')


def otherlists(S):
	h, h0, l = S.h, S.st.ghost['h0'], z3.Int('l')
	return [('other lists', X.forall([l], z3.Implies(l != S.st.ghost['sent'],
			z3.And(h['lget'][l] == h0['lget'][l], h['llen'][l] == h0['llen'][
			l])), patterns=[h['lget'][l]]))]


def suffix(S):
	"""Loop 1 of punctprune: words after i are marked as well."""
	h, h0, k = S.h, S.st.ghost['h0'], z3.Int('k')
	sent, i = S.st.ghost['sent'], S.int('i')
	old, new, n = h0['lget'][sent], h['lget'][sent], h0['llen'][sent]
	pre = S.pre['lget'][sent]
	w = old[k]
	return [('words after i are marked, others are kept', z3.And(i < n,
		-1 <= i, h['llen'][sent] == n, X.forall([k], z3.Implies(z3.And(0 <= k,
		k < n), z3.If(k > i, z3.And(V.is_none(new[k]), isquote(S.eng, w)),
		new[k] == pre[k])), patterns=[new[k]])))] + otherlists(S)


def c_punctprune():
	def setup(eng, st):
		_, tree, sent = treeandsent(eng, st)
		return [tree, sent], {}
	return Contract('%s:punctprune' % PUN, [Case('', setup, pruned)])


def isnone(eng, st, w, x):
	return V.is_none(w)


MOD = ['lget', 'llen', '_parent', 'ddom', 'dmap', 'dsize', 'dver']
LOOPS = {
	('punctprune', 0): LoopSpec(prefix, modifies=['lget'], kinds=dict(
		i='int')),
	('punctprune', 1): LoopSpec(suffix, modifies=['lget'], kinds=dict(
		i='int')),
	('removeterminals', 0): LoopSpec(walkinv, modifies=MOD, allocs=True,
		kinds=dict(node='undef', n='undef', child='undef'),
		ghosts=walkghosts()),
	('removeterminals', 1): LoopSpec(kidsinv, modifies=MOD, allocs=True,
		kinds=dict(node=PT, n='undef', child='undef'), ghosts=kidsghosts()),
	('removeterminals', 2): LoopSpec(upinv, modifies=['lget', 'llen',
		'_parent'], allocs=True, kinds=dict(node=PT, child=PT), ghosts={
		'idxa': (idxinit, idxinit)}),
	('removeterminals', 3): LoopSpec(renumbered, lemmas=prove(ranks, ['intree']),
		ghost=thisnode, modifies=['lget', 'llen',
		'_parent'], allocs=True, kinds=dict(node='undef', a='undef'), ghosts={
		'idxa': (idxinit, idxinit)}),
	}


def mk(name):
	callees = {
		PT + '._get_parent_index': c02.use_parent_index,
		PT + '.__delitem__': c02.use(c02.c_delitem, 2),
		PT + '.__setitem__': c02.use(c02.c_setitem, 3),
		PT + '.parent': use_parent,
		}
	if not name.endswith('__getitem__'):
		callees[PT + '.__getitem__'] = use_getitem
	if name.endswith('removeemptynodes'):
		callees['removeterminals'] = use_removeterminals(emptynode)
	elif name.endswith('punctremove'):
		callees['removeterminals'] = use_removeterminals(punctword)
	elif name.endswith('punctprune'):
		callees['removeterminals'] = use_removeterminals(isnone)
	callees['ispunct'] = use_ispunct
	eng = Engine(classes=c02.CLASSES, attrs=c02.ATTRS, dynclasses=(PT, ),
			loops=LOOPS, callees=callees)
	eng.owner = z3.Function('ownerof', Int, Int)
	return eng


CONTRACTS = [c_getitem, c_removeterminals, c_removeemptynodes, c_punctremove,
		c_punctprune]
