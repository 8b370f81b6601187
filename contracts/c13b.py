"""Contracts of numbering the nodes of a tree (C13).

Functions of a tree t, whose nodes have numbers in postorder, 0..N(t) - 1:

- REF(t, p): the object of node p; NC(t, p), CH(t, p, i): the number of its
  children, and the number of child i; L(t, p): its leftmost node;
- ID(t, p) = N(t) - 1 - p: the position of p in a preorder from right to left;
- ANC(t, p): the ancestors of p, nearest first, as a tuple of ID; of length
  DEP(t, p), with elements AN(t, p, k).

That these are the numbers of a tree (children are adjacent intervals) is the
assumption; nesting of intervals and what ancestors are is proved as lemmas.
"""
import z3
from pv import vc, pyexec as X, pylib
from pv.pyexec import (V, Int, Bool, SInt, SDyn, SRef, SNone, STup, SStr, SBool,
		SSeq, Case, Contract, LoopSpec, Engine, fresh, toV)
from pv.vc import Obligation
from .c13 import N, L, TD, TREE, inr, shape, NK, KR, RK

REF = z3.Function('nodeobject', V, Int, Int)
NC = z3.Function('numchildren', V, Int, Int)
CH = z3.Function('childnumber', V, Int, Int, Int)
ANC = z3.Function('ancestors', V, Int, V)
DEP = z3.Function('numancestors', V, Int, Int)
AN = z3.Function('ancestor', V, Int, Int, Int)
AK = z3.Function('ancestorindex', V, Int, Int, Int)
LEN = z3.Function('tuplelen', V, Int)
NTH = z3.Function('tupleitem', V, Int, V)


def structure(t):
	"""The children of a node are adjacent intervals."""
	p, q, i = z3.Ints('p q i')
	kid = lambda i: z3.And(0 <= i, i < NC(t, p))
	return [N(t) > 0, L(t, N(t) - 1) == 0,
		X.forall([p], z3.Implies(inr(t, p), z3.And(NC(t, p) >= 0, 0 <= L(t,
			p), L(t, p) <= p, z3.If(NC(t, p) == 0, L(t, p) == p, z3.And(CH(t,
			p, NC(t, p) - 1) == p - 1, L(t, CH(t, p, 0)) == L(t, p), L(t, p)
			< p)))), patterns=[L(t, p), NC(t, p)]),
		X.forall([p, i], z3.Implies(z3.And(inr(t, p), kid(i)), z3.And(L(t,
			p) <= CH(t, p, i), CH(t, p, i) < p, L(t, p) <= L(t, CH(t, p, i)),
			z3.Implies(i > 0, L(t, CH(t, p, i)) - 1 == CH(t, p, i - 1)))),
			patterns=[CH(t, p, i)])]


def laminar(t):
	"""Intervals are nested or disjoint."""
	p, q = z3.Ints('p q')
	return X.forall([p, q], nested(t, p, q), patterns=[z3.MultiPattern(L(t,
			p), L(t, q))])


def nested(t, p, q):
	return z3.Implies(z3.And(inr(t, p), L(t, p) <= q, q <= p), L(t, q)
			>= L(t, p))


def ancestors(t, p):
	"""What the ancestors of p are."""
	k, j, a = z3.Ints('k j a')
	an = lambda k: AN(t, p, k)
	return [DEP(t, p) >= 0,
		X.forall([k], z3.Implies(z3.And(0 <= k, k < DEP(t, p)), z3.And(p
			< an(k), an(k) < N(t), L(t, an(k)) <= L(t, p), NC(t, an(k)) > 0)),
			patterns=[an(k)]),
		X.forall([k, j], z3.Implies(z3.And(0 <= k, k < j, j < DEP(t, p)),
			z3.And(L(t, an(j)) <= L(t, an(k)), an(k) < an(j))), patterns=[
			z3.MultiPattern(an(k), an(j))]),
		X.forall([k], z3.Implies(z3.And(0 <= k, k < DEP(t, p)), AK(t, p,
			an(k)) == k), patterns=[an(k)]),
		X.forall([a], z3.Implies(z3.And(p < a, a < N(t), L(t, a) <= p),
			z3.And(0 <= AK(t, p, a), AK(t, p, a) < DEP(t, p), an(AK(t, p, a))
			== a)), patterns=[AK(t, p, a), L(t, a)])]


def defanc(t, p, c):
	"""Definition of the ancestors of a child c of p."""
	k, a = z3.Ints('k a')
	return [DEP(t, c) == DEP(t, p) + 1, AN(t, c, 0) == p,
		X.forall([k], z3.Implies(z3.And(0 <= k, k < DEP(t, p)), AN(t, c,
			k + 1) == AN(t, p, k)), patterns=[AN(t, p, k)]),
		X.forall([k], z3.Implies(z3.And(0 < k, k <= DEP(t, p)), AN(t, c,
			k) == AN(t, p, k - 1)), patterns=[AN(t, c, k)]),
		X.forall([a], AK(t, c, a) == z3.If(a == p, z3.IntVal(0), AK(t, p, a)
			+ 1), patterns=[AK(t, c, a)])]


def lemmas():
	t = z3.Const('t', V)
	p, q, i, a, b, m = z3.Ints('p q i a b m')
	obs = []

	def lemma(name, assume, goal):
		obs.append(Obligation('lemma', name, assume, goal))
	kid = lambda i: z3.And(0 <= i, i < NC(t, p))
	w = z3.Int('w')
	child = lambda i: z3.Exists([w], z3.And(0 <= w, w <= i, L(t, CH(t, p, w))
			<= q, q <= CH(t, p, w)))
	lemma('a node below p is below a child of p (step)', structure(t) + [
		inr(t, p), kid(i), z3.Implies(z3.And(i > 0, L(t, p) <= q, q <= CH(t,
		p, i - 1)), child(i - 1))], z3.Implies(z3.And(L(t, p) <= q, q <= CH(t,
		p, i)), child(i)))
	lemma('intervals are nested (step)', structure(t) + [z3.Implies(z3.And(
		kid(i), L(t, CH(t, p, i)) <= q, q <= CH(t, p, i)), nested(t, CH(t, p,
		i), q)), z3.Implies(z3.And(inr(t, p), q < p, L(t, p) <= q), z3.And(
		kid(i), L(t, CH(t, p, i)) <= q, q <= CH(t, p, i)))], nested(t, p, q))
	c = CH(t, p, i)
	base = structure(t) + [laminar(t), inr(t, p), kid(i)]
	names = ['number', 'where', 'order', 'index', 'completeness']
	z = z3.Int('z')
	goals = ancestors(t, c)
	# the child below p in which a node is
	wit = X.forall([a], z3.Implies(z3.And(c < a, a < p), z3.And(kid(BELOW(t,
			p, a)), L(t, CH(t, p, BELOW(t, p, a))) <= a, a <= CH(t, p, BELOW(t,
			p, a)))), patterns=[L(t, a)])
	order = X.forall([z], z3.Implies(z3.And(0 <= z, z < NC(t, p), z != i),
			z3.Or(L(t, CH(t, p, z)) > c, CH(t, p, z) < L(t, c))), patterns=[
			CH(t, p, z)])
	for nm, g in zip(names, goals):
		lemma('ancestors of a child: %s' % nm, base + ancestors(t, p) + defanc(
			t, p, c) + [wit, order], g)
	lemma('order of children (step)', base + [0 <= m, m < i, z3.Implies(m + 1
		< i, CH(t, p, m + 1) < L(t, c))], CH(t, p, m) < L(t, c))
	lemma('the root has no ancestors', structure(t) + [DEP(t, N(t) - 1) == 0],
		z3.And(*ancestors(t, N(t) - 1)))
	# key roots: an increasing list of nodes, the last with their leftmost node
	keys = lambda x: [0 <= RK(t, x), RK(t, x) < NK(t), L(t, KR(t, RK(t, x)))
			== L(t, x), x <= KR(t, RK(t, x))]
	lemma('key roots', [X.forall([a, b], z3.Implies(z3.And(0 <= a, a < b, b
		< NK(t)), KR(t, a) < KR(t, b)), patterns=[z3.MultiPattern(KR(t, a),
		KR(t, b))]), X.forall([a, b], z3.Implies(z3.And(0 <= a, a < NK(t),
		inr(t, b), L(t, KR(t, a)) == L(t, b)), b <= KR(t, a)), patterns=[
		z3.MultiPattern(KR(t, a), L(t, b))]), X.forall([a], z3.Implies(inr(t,
		a), z3.And(*keys(a))), patterns=[RK(t, a)]), X.forall([a], z3.Implies(
		z3.And(0 <= a, a < NK(t)), inr(t, KR(t, a))), patterns=[KR(t, a)]),
		laminar(t)] + structure(t), z3.And(*shape(t)))
	return obs


BELOW = z3.Function('belowchild', V, Int, Int, Int)


# --- AnnotatedTree.__init__ -----------------------------------------------------------
def new_deque(eng, st, args, kwargs):
	h = st.heap
	if not args:
		val = V.vnil
	elif isinstance(args[0], SRef) and args[0].cls == 'deque':
		val = h['dqval'][args[0].e]
	elif isinstance(args[0], SDyn):
		r = V.ref(args[0].e)
		ok = z3.And(V.is_vref(args[0].e), X.clsof(r) == eng.classid('deque'))
		eng.oblige(st, 'argument of deque', ok)
		val = h['dqval'][r]
	else:
		raise vc.Unsupported('deque of this')
	r = eng.alloc(st, 'deque')
	st.assume(X.clsof(r) == eng.classid('deque'))
	st.heap['dqval'] = z3.Store(st.heap['dqval'], r, val)
	yield st, SRef(r, 'deque')


def appendleft(eng, st, recv, args, kwargs):
	h = st.heap
	h['dqval'] = z3.Store(h['dqval'], recv.e, V.vcons(toV(args[0]), h['dqval'][
			recv.e]))
	yield st, SNone()


def iterdeque(eng, st, recv, args, kwargs):
	val = st.heap['dqval'][recv.e]
	yield st, SSeq(LEN(val), lambda k: SDyn(NTH(val, k)))


def lendeque(eng, st, recv, args, kwargs):
	yield st, SInt(LEN(st.heap['dqval'][recv.e]))


def c_annotated():
	def setup(eng, st):
		t = z3.Const('t', V)
		st.ghost['t'] = t
		h = st.heap
		p, q, k, i = z3.Ints('p q k i')
		a, tid, did, lid = h.alloc, eng.classid('Tree'), eng.classid(
				'deque'), eng.classid('list')
		r = eng.alloc(st, 'AnnotatedTree')
		st.heap.alloc = z3.simplify(st.heap.alloc)
		kids = V.ref(h['children'][REF(t, p)])
		st.assume(*(structure(t) + [laminar(t)]))
		st.assume(X.forall([p], z3.Implies(inr(t, p), z3.And(*ancestors(t,
			p))), patterns=[DEP(t, p)]))
		st.assume(
			X.forall([p], z3.Implies(inr(t, p), z3.And(0 < REF(t, p), REF(t,
				p) < a, X.clsof(REF(t, p)) == tid, NUM(REF(t, p)) == p, 0
				< kids, kids < a, V.is_vref(h['children'][REF(t, p)]),
				X.clsof(kids) == lid, h['llen'][kids] == NC(t, p))),
				patterns=[REF(t, p)]),
			X.forall([p, i], z3.Implies(z3.And(inr(t, p), 0 <= i, i < NC(t,
				p)), h['lget'][kids][i] == V.vref(REF(t, CH(t, p, i)))),
				patterns=[h['lget'][kids][i]]),
			# ancestors
			ANC(t, N(t) - 1) == V.vnil,
			X.forall([p, i], z3.Implies(z3.And(inr(t, p), 0 <= i, i < NC(t,
				p)), ANC(t, CH(t, p, i)) == V.vcons(V.vint(N(t) - 1 - p),
				ANC(t, p))), patterns=[CH(t, p, i)]),
			X.forall([p], z3.Implies(inr(t, p), LEN(ANC(t, p)) == DEP(t, p)),
				patterns=[ANC(t, p)]),
			X.forall([p, k], z3.Implies(z3.And(inr(t, p), 0 <= k, k < DEP(t,
				p)), NTH(ANC(t, p), k) == V.vint(N(t) - 1 - AN(t, p, k))),
				patterns=[NTH(ANC(t, p), k)]))
		return [SRef(r, 'AnnotatedTree'), SRef(REF(t, N(t) - 1), 'Tree')], {}

	def post(P):
		t = P.st.ghost['t']
		h = P.h
		r = P.args[0].e
		nodes, lmd, kr = [V.ref(h[x][r]) for x in ('nodes',
			'leftmostdescendents', 'keyroots')]
		k, m = z3.Ints('k m')
		g = lambda i: h['lget'][kr][i]
		n = h['llen'][kr]
		return [('nodes in postorder', z3.And(h['llen'][nodes] == N(t),
			X.forall([k], z3.Implies(inr(t, k), h['lget'][nodes][k] == V.vref(
			REF(t, k))), patterns=[h['lget'][nodes][k]]))),
			('leftmost nodes', z3.And(h['llen'][lmd] == N(t), X.forall([k],
			z3.Implies(inr(t, k), h['lget'][lmd][k] == V.vint(L(t, k))),
			patterns=[h['lget'][lmd][k]]))),
			('key roots are nodes', X.forall([k], z3.Implies(z3.And(0 <= k,
			k < n), z3.And(V.is_vint(g(k)), inr(t, V.i(g(k))))), patterns=[
			g(k)])),
			('the last with their leftmost node', X.forall([k, m], z3.Implies(
			z3.And(0 <= k, k < n, inr(t, m), L(t, V.i(g(k))) == L(t, m)), m
			<= V.i(g(k))), patterns=[z3.MultiPattern(g(k), L(t, m))])),
			('in order', X.forall([k, m], z3.Implies(z3.And(0 <= k, k < m, m
			< n), V.i(g(k)) < V.i(g(m))), patterns=[z3.MultiPattern(g(k),
			g(m))])),
			('of every leftmost node', z3.Implies(inr(t, KEY), keyof(P, kr, n,
			KEY)))]
	return Contract('%s:AnnotatedTree.__init__' % TD, [Case('', setup, post)],
			timeout=12)


NUM = z3.Function('numberof', Int, Int)
KEY = z3.Int('anynode')  # an arbitrary node


def keyof(P, kr, n, k):
	"""The list has the key root of node k."""
	t = P.st.ghost['t']
	if 'keyindex' not in P.st.ghost:
		return z3.BoolVal(False)  # the list was not sorted
	pos = P.st.ghost['keyindex'](k)
	x = V.i(P.h['lget'][kr][pos])
	return z3.And(0 <= pos, pos < n, L(t, x) == L(t, k), k <= x)


def entry(S, v, p):
	"""v is the tuple of node p and its ancestors."""
	t, h = S.st.ghost['t'], S.h
	a = V.ref(V.hd(V.tl(v)))
	return z3.And(v == V.vcons(V.vref(REF(t, p)), V.vcons(V.vref(a),
			V.vnil)), 0 < a, a < h.alloc, X.clsof(a) == S.eng.classid(
			'deque'), h['dqval'][a] == ANC(t, p))


def ref(S, name):
	return S[name].e


def lists(S, *names):
	"""Different lists, which are not lists of children."""
	t, h = S.st.ghost['t'], S.h
	return ('lists', z3.And(z3.Distinct(*[S[x].e for x in names]), *[z3.And(
			S[x].e >= S.eng.entryheap.alloc - 0, S[x].e < h.alloc)
			for x in names]))


def onstack(S, upto):
	t, h, pos = S.st.ghost['t'], S.h, S.st.ghost['pos']
	s = z3.Int('s')
	v = h['lget'][S['stack'].e][s]
	return X.forall([s], z3.Implies(z3.And(0 <= s, s < upto), z3.And(inr(t,
			pos[s]), entry(S, v, pos[s]), z3.Implies(s > 0, pos[s - 1] == L(t,
			pos[s]) - 1))), patterns=[v, pos[s]])


def popped(S, j):
	t, h = S.st.ghost['t'], S.h
	s = z3.Int('s')
	v = h['lget'][S['pstack'].e][s]
	return X.forall([s], z3.Implies(z3.And(0 <= s, s < j), entry(S, v, N(t)
			- 1 - s)), patterns=[v])


def types(S, j):
	"""Identifiers of the nodes seen so far."""
	t, h = S.st.ghost['t'], S.h
	p = z3.Int('p')
	return X.forall([p], z3.Implies(z3.And(inr(t, p), p > N(t) - 1 - j), h[
			'type'][REF(t, p)] == V.vint(N(t) - 1 - p)), patterns=[REF(t,
			p)])


def inv_push(S):
	t, h, pos = S.st.ghost['t'], S.h, S.st.ghost['pos']
	j, q = S.int('j'), h['llen'][S['stack'].e]
	return [('number of nodes', z3.And(j == S.i, h['llen'][S['pstack'].e] ==
			j, j <= N(t))),
		('top of the stack', z3.If(q == 0, j == N(t), z3.And(pos[q - 1]
			== N(t) - 1 - j, L(t, pos[0]) == 0))),
		('stack', onstack(S, q)), ('nodes so far', popped(S, j)),
		('identifiers', types(S, j)), lists(S, 'stack', 'pstack')] + fixed(S)


def fixed(S):
	"""Lists of children stay the same."""
	return []


def newpos(S):
	"""Numbers of the nodes on the stack after an iteration."""
	t, h, old = S.st.ghost['t'], S.h, S.st.ghost['pos']
	p = N(t) - 1 - (S.i - 1)
	q = S.head['llen'][S['stack'].e]
	s = z3.Int('s')
	new = fresh(z3.ArraySort(Int, Int), 'pos')
	S.st.assume(X.forall([s], new[s] == z3.If(s < q - 1, old[s], CH(t, p,
			s - (q - 1))), patterns=[new[s]]))
	return new


def inv_children(S):
	t, h, pos = S.st.ghost['t'], S.h, S.st.ghost['pos']
	j = S.int('j')
	p = N(t) - 1 - j
	q0 = S.pre['llen'][S['stack'].e]
	s = z3.Int('s')
	v = h['lget'][S['stack'].e][s]
	return [('children pushed', z3.And(h['llen'][S['stack'].e] == q0 + S.i,
			X.forall([s], z3.Implies(z3.And(0 <= s, s < S.i), entry(S, h[
			'lget'][S['stack'].e][q0 + s], CH(t, p, s))), patterns=[CH(t, p,
			s)]), X.forall([s], z3.Implies(z3.And(q0 <= s, s < q0 + S.i),
			entry(S, v, CH(t, p, s - q0))), patterns=[v]))),
		('stack', onstack(S, q0)), ('nodes so far', popped(S, j)),
		lists(S, 'stack', 'pstack'), ('this node', z3.And(inr(t, p), S.ref(
			'n') == REF(t, p), h['type'][REF(t, p)] == V.vint(j), V.ref(toV(S[
			'anc'])) < h.alloc, X.clsof(V.ref(toV(S['anc']))) == S.eng.classid(
			'deque'), h['dqval'][V.ref(toV(S['anc']))] == ANC(t, p)))]


def isdict(S, name):
	return z3.And(S[name].e >= S.eng.entryheap.alloc, S[name].e < S.h.alloc)


def leftdict(S, i):
	"""Leftmost nodes known after i nodes."""
	t, h = S.st.ghost['t'], S.h
	a = z3.Int('a')
	d = S['leftmostdescendents'].e
	key = V.vint(N(t) - 1 - a)
	dom, val = h['ddom'][d][key], h['dmap'][d][key]
	return X.forall([a], z3.Implies(z3.And(inr(t, a), NC(t, a) > 0), z3.And(
			dom == (L(t, a) < i), z3.Implies(dom, val == V.vint(L(t, a))))),
			patterns=[dom, val, NC(t, a)])


def keydict(S, i):
	"""The last node so far for each leftmost node."""
	t, h = S.st.ghost['t'], S.h
	a, b, k = z3.Int('a'), z3.Int('b'), z3.Const('k', V)
	d = S['keyroots'].e
	dom = lambda x: h['ddom'][d][x]
	val = lambda x: h['dmap'][d][x]
	key = V.vint(L(t, a))
	return [('last nodes', X.forall([a], z3.Implies(z3.And(inr(t, a), a < i),
			z3.And(dom(key), V.i(val(key)) >= a)), patterns=[L(t, a)])),
		('are nodes', X.forall([k], z3.Implies(dom(k), z3.And(V.is_vint(
			val(k)), inr(t, V.i(val(k))), V.i(val(k)) < i, k == V.vint(L(t,
			V.i(val(k)))))), patterns=[dom(k), val(k)]))]


def selfattr(S, name):
	return V.ref(S.h[name][S.args[0].e])


def annlists(S):
	h = S.h
	nodes, lmd = selfattr(S, 'nodes'), selfattr(S, 'leftmostdescendents')
	lo = S.eng.entryheap.alloc
	return ('lists of nodes', z3.And(z3.Distinct(nodes, lmd, S['pstack'].e),
			lo <= nodes, nodes < h.alloc, lo <= lmd, lmd < h.alloc, V.is_vref(
			h['nodes'][S.args[0].e]), V.is_vref(h['leftmostdescendents'][
			S.args[0].e])))


def sofar(S, i, lmdtoo=True):
	t, h = S.st.ghost['t'], S.h
	nodes, lmd = selfattr(S, 'nodes'), selfattr(S, 'leftmostdescendents')
	k = z3.Int('k')
	return [('nodes in postorder', z3.And(h['llen'][nodes] == i + (0 if lmdtoo
			else 1), X.forall([k], z3.Implies(z3.And(0 <= k, k < i), h['lget'][
			nodes][k] == V.vref(REF(t, k))), patterns=[h['lget'][nodes][k]]))),
		('leftmost nodes', z3.And(h['llen'][lmd] == i, X.forall([k],
			z3.Implies(z3.And(0 <= k, k < i), h['lget'][lmd][k] == V.vint(L(t,
			k))), patterns=[h['lget'][lmd][k]])))]


def inv_pop(S):
	t, h = S.st.ghost['t'], S.h
	i = S.int('i')
	return [('number of nodes', z3.And(i == S.i, i <= N(t), h['llen'][S[
			'pstack'].e] == N(t) - i)), ('nodes to do', popped(S, N(t) - i)),
		('leftmost nodes known', leftdict(S, i)), annlists(S), ('dicts',
			z3.And(isdict(S, 'leftmostdescendents'), isdict(S, 'keyroots'),
			S['leftmostdescendents'].e != S['keyroots'].e))] + keydict(S, i
		) + sofar(S, i)


def inv_ancestors(S):
	t, h = S.st.ghost['t'], S.h
	i = S.int('i')
	k, a = S.i, z3.Int('a')
	d = S['leftmostdescendents'].e
	key = V.vint(N(t) - 1 - a)
	dom, val = h['ddom'][d][key], h['dmap'][d][key]
	mine = z3.And(L(t, a) == i, AK(t, i, a) < k)
	return [('known so far', X.forall([a], z3.Implies(z3.And(inr(t, a), NC(t,
			a) > 0), z3.And(dom == z3.Or(L(t, a) < i, mine), z3.Implies(dom,
			val == V.vint(L(t, a))))), patterns=[dom, val, NC(t, a)])),
		('other dictionaries', z3.And(*[g for _, g in keydict(S, i)])),
		('new ancestors', X.forall([a], z3.Implies(z3.And(0 <= a, a < k),
			L(t, AN(t, i, a)) == i), patterns=[AN(t, i, a)]))]


LOOPS = {
	('AnnotatedTree.__init__', 0): LoopSpec(inv_push, modifies=[('llen',
		lambda S: [S['stack'].e, S['pstack'].e]), ('lget', lambda S: [
		S['stack'].e, S['pstack'].e]), 'type', 'dqval'], allocs=True,
		kinds=dict(n='undef', anc='undef', c='undef', a='undef'), ghosts={
		'pos': (lambda S: z3.K(Int, N(S.st.ghost['t']) - 1), newpos)}),
	('AnnotatedTree.__init__', 1): LoopSpec(inv_children, modifies=[('llen',
		lambda S: [S['stack'].e]), ('lget', lambda S: [S['stack'].e]),
		('dqval', lambda S: [])], allocs=True, kinds=dict(c='undef',
		a='undef')),
	('AnnotatedTree.__init__', 2): LoopSpec(inv_pop, modifies=[('llen',
		lambda S: [S['pstack'].e, selfattr(S, 'nodes'), selfattr(S,
		'leftmostdescendents')]), ('lget', lambda S: [S['pstack'].e, selfattr(
		S, 'nodes'), selfattr(S, 'leftmostdescendents')]), 'ddom', 'dmap',
		'dsize'], kinds=dict(n='undef', anc='undef', a='undef', lmd='undef')),
	('AnnotatedTree.__init__', 3): LoopSpec(inv_ancestors, modifies=['ddom',
		'dmap', 'dsize'], kinds=dict(a='undef')),
	}
CLASSES = {'Tree': [(TREE, 'Tree')], 'AnnotatedTree': [(TD, 'AnnotatedTree')]}
ATTRS = {('Tree', 'children'): 'list', ('Tree', 'type'): 'dyn',
	('AnnotatedTree', 'root'): 'dyn', ('AnnotatedTree', 'nodes'): 'list',
	('AnnotatedTree', 'leftmostdescendents'): 'list',
	('AnnotatedTree', 'keyroots'): 'dyn'}


def use_sorted(eng, st, args, kwargs):
	"""sorted(); where the key root of each node is afterwards."""
	for s, v in pylib.b_sorted(eng, st, args, kwargs):
		if not isinstance(v, X.Exc):
			t, dst = s.ghost['t'], s.ghost['sorted'][1]
			r = s.env['keyroots'].e
			h = s.heap
			pos = z3.Function('dict_pos', Int, Int, h['ddom'].sort().range(),
					V, Int)
			k, get = z3.Int('k'), s.ghost['sortedget']
			at = lambda k: pos(r, h['dver'][r], h['ddom'][r], V.vint(L(t, k)))
			s.ghost['keyindex'] = lambda k: dst(at(k))
			# proved first: the key root of each node is one of the values
			x = h['dmap'][r][V.vint(L(t, k))]
			nodes = z3.substitute(z3.Implies(inr(t, k), z3.And(get(at(k)) == x,
				0 <= at(k), at(k) < s.ghost['sorted'][2], V.i(x) >= k, L(t,
				V.i(x)) == L(t, k))), (k, KEY))
			eng.oblige(s, 'values of the dictionary', nodes)
			s.assume(nodes)
			d = dst(z3.substitute(at(k), (k, KEY)))
			there = z3.Implies(inr(t, KEY), z3.And(0 <= d, d < h['llen'][v.e],
				h['lget'][v.e][d] == z3.substitute(x, (k, KEY))))
			eng.oblige(s, 'values are in the list', there)
			s.assume(there)
		yield s, v


def mk(name):
	callees = {'deque': new_deque, 'deque.appendleft': appendleft,
		'deque.__iter__': iterdeque, 'deque.__len__': lendeque, 'sorted': use_sorted}
	return Engine(classes=CLASSES, attrs=ATTRS, loops=LOOPS, refeq='identity',
			callees=callees, dynclasses=('Tree', 'deque'))


CONTRACTS = [c_annotated]
