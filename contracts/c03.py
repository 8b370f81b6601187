"""Contracts of the traversals and views of Tree (discodop/tree.py).

A view of a tree as a sequence is defined by structural recursion (ghost
functions): START(n, j) is the position of the items of the j-th child of n
among those of n, SIZE(v) the number of items of v, AT(v, i) the i-th item. The
definitions determine these functions uniquely for every finite tree; the
contracts state that the loops of the code compute them.
"""
import z3
from pv import vc, pyexec as X
from pv.pyexec import (V, Int, Bool, SInt, SDyn, SRef, SNone, STup, SStr, SBool,
		SCallback, Case, Contract, LoopSpec, Engine, fresh, toV)

TREE = 'discodop/tree.py'
CLASSES = {'Tree': [(TREE, 'Tree')]}
ATTRS = {('Tree', 'label'): 'dyn', ('Tree', 'children'): 'list',
	('Tree', 'source'): 'dyn', ('Tree', 'type'): 'dyn'}
COND = z3.Function('condition', V, Bool)
PARENT = z3.Function('parentof', Int, Int)
SLOT = z3.Function('slotof', Int, Int)


class Forest(object):
	"""The trees in the heap at entry."""
	def __init__(self, eng, h):
		self.eng, self.h = eng, h.copy()
		self.cls, self.lst = eng.classid('Tree'), eng.classid('list')

	def node(self, n):
		return z3.And(0 < n, n < self.h.alloc, X.clsof(n) == self.cls)

	def istree(self, e):
		return z3.And(V.is_vref(e), X.clsof(V.ref(e)) == self.cls)

	def kids(self, n):
		return V.ref(self.h['children'][n])

	def len(self, n):
		return self.h['llen'][self.kids(n)]

	def child(self, n, j):
		return self.h['lget'][self.kids(n)][j]

	def wf(self):
		n, j = z3.Ints('n j')
		c = self.child(n, j)
		return [X.forall([n], z3.Implies(self.node(n), z3.And(V.is_vref(
				self.h['children'][n]), 0 < self.kids(n), self.kids(n)
				< self.h.alloc, X.clsof(self.kids(n)) == self.lst,
				self.len(n) >= 0)), patterns=[self.h['children'][n]]),
			X.forall([n, j], z3.Implies(z3.And(self.node(n), 0 <= j,
				j < self.len(n), V.is_vref(c)), z3.And(0 < V.ref(c),
				V.ref(c) < self.h.alloc)), patterns=[c])]

	def distinct(self, me):
		"""Each node occurs at one place; me is the root."""
		n, j = z3.Ints('n j')
		c = self.child(n, j)
		return [X.forall([n, j], z3.Implies(z3.And(self.node(n), 0 <= j,
				j < self.len(n), self.istree(c)), z3.And(PARENT(V.ref(c)) == n,
				SLOT(V.ref(c)) == j, V.ref(c) != me)), patterns=[c])]


class View(object):
	"""A tree as a sequence; before(n)/after(n): number of items of the node
	itself before and after those of its children, own(n, i) these items,
	leaf(v): number of items (0 or 1) of a leaf; skip: not below n."""
	def __init__(self, name, forest, before, after, leaf, own=None,
			leafitem=None, wrap=None):
		self.wrap = wrap or (lambda j, x: x)
		self.f, self.before, self.after = forest, before, after
		self.leaf = leaf
		self.own = own or (lambda n, i: V.vref(n))
		self.leafitem = leafitem or (lambda v: v)
		self.start = z3.Function(name + '_start', Int, Int, Int)
		self.size = z3.Function(name + '_size', V, Int)
		self.at = z3.Function(name + '_at', V, Int, V)

	def axioms(self):
		f = self.f
		j, i = z3.Ints('j i')
		v = z3.Const('v', V)
		n = V.ref(v)
		ist = z3.And(f.istree(v), f.node(n))
		c = f.child(n, j)
		start, size, at = self.start, self.size, self.at
		slot = z3.And(ist, 0 <= j, j < f.len(n))
		end = start(n, f.len(n))
		return [
			# a node: its own items, those of its children, its own items
			X.forall([v], z3.Implies(ist, z3.And(start(n, 0)
				== self.before(n), size(v) == end + self.after(n))),
				patterns=[size(v)]),
			X.forall([v, j], z3.Implies(slot, start(n, j + 1) == start(n, j)
				+ size(c)), patterns=[z3.MultiPattern(size(v), c)]),
			X.forall([v], size(v) >= 0, patterns=[size(v)]),
			# lemma, by induction on the number of children
			X.forall([v, j], z3.Implies(slot, z3.And(self.before(n)
				<= start(n, j), start(n, j) + size(c) <= end)),
				patterns=[z3.MultiPattern(size(v), c)]),
			X.forall([v], z3.Implies(ist, self.before(n) <= end),
				patterns=[size(v)]),
			X.forall([v, i], z3.Implies(z3.And(ist, 0 <= i,
				i < self.before(n)), at(v, i) == self.own(n, i)),
				patterns=[at(v, i)]),
			X.forall([v], z3.Implies(z3.And(ist, self.before(n) >= 1),
				at(v, 0) == self.own(n, z3.IntVal(0))), patterns=[size(v)]),
			X.forall([v], z3.Implies(z3.And(ist, self.after(n) == 1),
				at(v, end) == self.own(n, z3.IntVal(0))),
				patterns=[size(v)]),
			X.forall([v, j, i], z3.Implies(z3.And(slot, 0 <= i, i < size(c)),
				at(v, start(n, j) + i) == self.wrap(j, at(c, i))),
				patterns=[z3.MultiPattern(size(v), c, at(c, i))]),
			# a leaf
			X.forall([v], z3.Implies(z3.Not(f.istree(v)), z3.And(size(v)
				== self.leaf(v), z3.Implies(self.leaf(v) == 1, at(v, 0)
				== self.leafitem(v)))), patterns=[size(v)]),
			]

def tree(eng, st, distinct=False):
	f = Forest(eng, st.heap)
	me = z3.Const('self', Int)
	st.assume(f.node(me), *f.wf())
	if distinct:
		st.assume(*f.distinct(me))
	st.ghost['forest'] = f
	return f, SRef(me, 'Tree')


def condition(pred=COND):
	def call(eng, st, args, kwargs):
		yield st, SBool(pred(toV(args[0])))
	return SCallback(call)


def unchanged(P):
	"""Existing lists are not changed."""
	n = z3.Int('n')
	h, o = P.h, P.st.ghost['forest'].h
	return [('existing lists are unchanged', X.forall([n], z3.Implies(z3.And(
			0 < n, n < o.alloc), z3.And(h['llen'][n] == o['llen'][n],
			h['lget'][n] == o['lget'][n])), patterns=[h['llen'][n],
			h['lget'][n]])),
		('existing objects are unchanged', z3.And([h[f] == o[f] for f in (
			'children', 'label', 'source', 'type')]))]


def cases(setup, post, generator=False):
	def one(cond):
		def s(eng, st):
			f, me = tree(eng, st, distinct=setup.distinct)
			w = (lambda n: z3.If(COND(V.vref(n)), z3.IntVal(1), z3.IntVal(0))
					) if cond else (lambda n: z3.IntVal(1))
			v = setup(f, w)
			st.assume(*v.axioms())
			st.ghost['view'] = v
			return [me] + ([condition()] if cond else [SNone()]), {}
		return s
	return [Case('all', one(False), post, generator=generator),
			Case('condition', one(True), post, generator=generator)]


def isview(P, l, n=None, who='the result'):
	v = P.st.ghost['view']
	root = V.vref(P.args[0].e)
	i = z3.Int('i')
	n = v.size(root) if n is None else n
	return [('%s has all items' % who, P.h['llen'][l] == n),
		('%s has the items in order' % who, X.forall([i], z3.Implies(z3.And(
			0 <= i, i < n), P.h['lget'][l][i] == v.at(root, i)),
			patterns=[P.h['lget'][l][i]]))]


def pre(f, w):
	return View('pre', f, w, lambda n: z3.IntVal(0), lambda v: z3.IntVal(0))


pre.distinct = False


def post(f, w):
	return View('post', f, lambda n: z3.IntVal(0), w, lambda v: z3.IntVal(0))


post.distinct = True


def c_subtrees():
	return Contract('%s:Tree.subtrees' % TREE, cases(pre, lambda P: isview(P,
			P.st.out) + unchanged(P), generator=True))


def c_postorder():
	return Contract('%s:Tree.postorder' % TREE, cases(post, lambda P: isview(P,
			P.st.out) + unchanged(P), generator=True))


# --- the agenda of a depth-first traversal ---------------------------------
def offinit(S):
	"""Ghost: position in the result of the items of agenda[j]."""
	return z3.K(Int, z3.IntVal(0))


def offupdate(S):
	"""After node was popped, and replaced by its children if it is a tree."""
	f, v = S.st.ghost['forest'], S.st.ghost['view']
	off = S.st.ghost['off']
	ag = S.ref('agenda')
	x = S.v('node')
	# length of the agenda without node and its children
	new = fresh(z3.ArraySort(Int, Int), 'off')
	j = z3.Int('j')
	n = V.ref(x)
	m = S.h['llen'][ag] - z3.If(f.istree(x), f.len(n), 0)
	S.st.assume(X.forall([j], new[j] == z3.If(z3.Or(j < m, z3.Not(f.istree(
			x))), off[j], off[m] + v.start(n, f.len(n) - 1 - (j - m))),
			patterns=[new[j]]))
	return new


def agendainv(S, done, rem=None, l=None):
	"""The items of the agenda, from top to bottom, are what remains."""
	f, v = S.st.ghost['forest'], S.st.ghost['view']
	off = S.st.ghost['off']
	ag = S.ref('agenda')
	root = V.vref(S.args[0].e)
	h = S.h
	get, n = h['lget'][ag], h['llen'][ag]
	j, i = z3.Ints('j i')
	rem = rem or v.size
	return [('agenda is a new list', z3.And(ag >= f.h.alloc, ag < h.alloc,
			X.clsof(ag) == f.lst, n >= 0)),
		('agenda has values of the tree', X.forall([j], z3.Implies(z3.And(
			0 <= j, j < n, V.is_vref(get[j])), z3.And(0 < V.ref(get[j]),
			V.ref(get[j]) < f.h.alloc)), patterns=[get[j]])),
		('top of agenda comes next', z3.If(n == 0, done == v.size(root),
			off[n - 1] == done)),
		('last of agenda comes last', z3.Implies(n > 0, off[0] + rem(get[0])
			== v.size(root))),
		('items on agenda follow each other', X.forall([j], z3.Implies(z3.And(
			1 <= j, j < n), off[j - 1] == off[j] + rem(get[j])),
			patterns=[get[j], off[j]])),
		('what remains of the agenda is in the tree', X.forall([j, i],
			z3.Implies(z3.And(0 <= j, j < n, 0 <= i, i < v.size(get[j])),
			v.at(root, off[j] + i) == v.at(get[j], i)), patterns=[
			v.at(get[j], i)]))]


def outinv(S, out):
	h = S.h
	f = S.st.ghost['forest']
	return [('result is a new list', z3.And(out >= f.h.alloc,
			out != S.ref('agenda')))] + isview(S, out, h['llen'][out],
			'what was produced')


def subtreesinv(S):
	out = S.st.out
	return agendainv(S, S.h['llen'][out]) + outinv(S, out) + unchanged(S)


def visited(S, x):
	return S.h['sdom'][S.ref('visited')][V.vint(V.ref(x))]


def postupdate(S):
	"""node was replaced by itself (visited) and its children."""
	f, v = S.st.ghost['forest'], S.st.ghost['view']
	off = S.st.ghost['off']
	ag = S.ref('agenda')
	x = S.v('node')
	m = S.head['llen'][ag]
	new = fresh(z3.ArraySort(Int, Int), 'off')
	j = z3.Int('j')
	n = V.ref(x)
	S.st.assume(X.forall([j], new[j] == z3.If(z3.Or(j < m - 1,
			S.h['llen'][ag] < m), off[j], off[m - 1] + v.start(n, z3.If(
			j == m - 1, f.len(n), f.len(n) - 1 - (j - m)))),
			patterns=[new[j]]))
	push = S.h['llen'][ag] >= m
	get = S.h['lget'][ag]
	below = z3.And(push, m <= j, j < S.h['llen'][ag], f.istree(get[j]))
	for name, goal in [
			('postorder: children of a node which was not visited', X.forall(
				[j], z3.Implies(below, PARENT(V.ref(get[j])) == n),
				patterns=[get[j]])),
			('postorder: children were not visited', X.forall([j], z3.Implies(
				below, z3.Not(S.head['sdom'][S.ref('visited')][V.vint(V.ref(
				get[j]))])), patterns=[get[j]])),
			('postorder: position of a node', z3.Implies(z3.And(push,
				v.after(n) == 1), z3.And(0 <= v.start(n, f.len(n)),
				v.start(n, f.len(n)) < v.size(x),
				v.at(x, v.start(n, f.len(n))) == x))),
			('postorder: place of a node', z3.Implies(z3.And(push,
				v.after(n) == 1), new[m - 1] == off[m - 1]
				+ v.start(n, f.len(n)))),
			('postorder: a node comes last', z3.Implies(z3.And(push,
				v.after(n) == 1), v.at(V.vref(S.args[0].e), new[m - 1]) == x))]:
		S.eng.oblige(S.st, name, goal)
		S.st.assume(goal)
	return new


def postinv(S):
	f, v = S.st.ghost['forest'], S.st.ghost['view']
	off = S.st.ghost['off']
	ag, out, vis = S.ref('agenda'), S.st.out, S.ref('visited')
	h = S.h
	root = V.vref(S.args[0].e)
	get, n = h['lget'][ag], h['llen'][ag]
	j, i, r = z3.Ints('j i r')
	u = z3.Const('u', V)
	vi = lambda x: z3.And(f.istree(x), visited(S, x))
	rem = lambda x: z3.If(vi(x), v.after(V.ref(x)), v.size(x))
	upper = lambda r: z3.Or(r == V.ref(root), h['sdom'][vis][V.vint(PARENT(
			r))])
	res = agendainv(S, h['llen'][out], rem)
	return res[:-1] + [
		('what remains of the agenda is in the tree', X.forall([j, i],
			z3.Implies(z3.And(0 <= j, j < n, z3.Not(vi(get[j])), 0 <= i,
			i < v.size(get[j])), v.at(root, off[j] + i) == v.at(get[j], i)),
			patterns=[v.at(get[j], i)])),
		('a visited node comes after its children', X.forall([j], z3.Implies(
			z3.And(0 <= j, j < n, vi(get[j]), v.after(V.ref(get[j])) == 1),
			v.at(root, off[j]) == get[j]), patterns=[get[j]])),
		('visited is a new set', z3.And(vis >= f.h.alloc, vis < h.alloc,
			X.clsof(vis) == S.eng.classid('set'))),
		('nodes on the agenda are visited from above', X.forall([j],
			z3.Implies(z3.And(0 <= j, j < n, f.istree(get[j])), upper(V.ref(
			get[j]))), patterns=[get[j]])),
		('visited nodes are visited from above', X.forall([r], z3.Implies(
			h['sdom'][vis][V.vint(r)], upper(r)),
			patterns=[h['sdom'][vis][V.vint(r)]])),
		('nodes on the agenda are different', X.forall([j, i], z3.Implies(
			z3.And(0 <= j, j < i, i < n, f.istree(get[j])), get[j] != get[i]),
			patterns=[z3.MultiPattern(get[j], get[i])])),
		('the root is visited first', z3.And(z3.Implies(n > 0, get[0]
			== root), z3.Implies(z3.And(n > 0, z3.Not(visited(S, root))),
			n == 1)))
		] + outinv(S, out) + unchanged(S)


def zero(_):
	return z3.IntVal(0)


def one(_):
	return z3.IntVal(1)


def viewcase(name, view, post, args=(), generator=False, raises=None, kw=None):
	"""view(forest) is the view; args: arguments after self."""
	def setup(eng, st):
		f, me = tree(eng, st)
		v = view(f)
		st.assume(v.size(V.vref(me.e)) >= 0, *v.axioms())
		st.ghost['view'] = v
		return [me] + [a(eng, st) if callable(a) else a for a in args], {}
	return Case(name, setup, post, generator=generator, raises=raises)


def use_view(eng, st, args, kwargs):
	"""Contract of a recursive call: a new list with the view of the node."""
	v = st.ghost['view']
	x = toV(args[0])
	arr = fresh(z3.ArraySort(Int, V), 'sub')
	i = z3.Int('i')
	n = v.size(x)
	st.assume(n >= 0, X.forall([i], z3.Implies(z3.And(0 <= i, i < n), arr[i]
			== v.at(x, i)), patterns=[arr[i], v.at(x, i)]))
	yield st, eng.newlist(st, n=n, arr=arr)


def listresult(P):
	return isview(P, P.result.e) + unchanged(P) + [('a new list',
			P.result.e >= P.st.ghost['forest'].h.alloc)]


def c_leaves():
	return Contract('%s:Tree.leaves' % TREE, [viewcase('', lambda f: View(
			'leaves', f, zero, zero, one), listresult)])


def recinv(local, extra=None):
	"""After the k-th child: the items of these children."""
	def inv(S):
		f, v = S.st.ghost['forest'], S.st.ghost['view']
		l = S.ref(local)
		n = S.args[0].e
		return [('%s is a new list' % local, z3.And(l >= f.h.alloc,
				l < S.h.alloc, X.clsof(l) == f.lst))] + isview(S, l, v.start(
				n, S.i), local) + unchanged(S)
	return inv


# height
HEIGHT = z3.Function('height', V, Int)
MAXH = z3.Function('maxheight', Int, Int, Int)


def c_height():
	def setup(eng, st):
		f, me = tree(eng, st)
		n, j = z3.Ints('n j')
		c = f.child(n, j)
		hv = z3.If(f.istree(c), HEIGHT(c), 1)
		st.assume(X.forall([n], z3.Implies(f.node(n), z3.And(MAXH(n, 0) == 0,
				HEIGHT(V.vref(n)) == 1 + MAXH(n, f.len(n)))),
				patterns=[HEIGHT(V.vref(n))]),
			X.forall([n, j], z3.Implies(z3.And(f.node(n), 0 <= j,
				j < f.len(n)), MAXH(n, j + 1) == z3.If(MAXH(n, j) > hv,
				MAXH(n, j), hv)), patterns=[z3.MultiPattern(MAXH(n, j), c)]))
		return [me], {}

	def post(P):
		return [('height of the tree', P.eng_int(P.result) == HEIGHT(V.vref(
				P.args[0].e)))] + unchanged(P)
	return Contract('%s:Tree.height' % TREE, [Case('', setup, post)])


def use_height(eng, st, args, kwargs):
	yield st, SInt(HEIGHT(toV(args[0])))


def heightinv(S):
	return [('height of the children', S.int('max_child_height') == MAXH(
			S.args[0].e, S.i))]


# preterminals
NLEAVES = z3.Function('childleaves', Int, Int, Int)
LEAFAT = z3.Function('childleaf', Int, Int, V)


def leafdefs(f):
	"""NLEAVES(n, j): leaves among the first j children; LEAFAT(n, i): the
	i-th leaf among the children."""
	n, j = z3.Ints('n j')
	c = f.child(n, j)
	return [X.forall([n], NLEAVES(n, 0) == 0, patterns=[f.len(n)]),
		X.forall([n, j], z3.Implies(z3.And(f.node(n), 0 <= j, j < f.len(n)),
			z3.And(NLEAVES(n, j + 1) == NLEAVES(n, j) + z3.If(f.istree(c), 0,
			1), NLEAVES(n, j) >= 0, NLEAVES(n, j + 1) <= NLEAVES(n,
			f.len(n)), z3.Implies(z3.Not(f.istree(c)), LEAFAT(n, NLEAVES(n,
			j)) == c))), patterns=[z3.MultiPattern(NLEAVES(n, j), c)])]


def posview(nodes):
	def view(f):
		cnt = lambda n: NLEAVES(n, f.len(n))
		if nodes:
			return View('pos', f, lambda n: z3.If(cnt(n) > 0, z3.IntVal(1),
					z3.IntVal(0)), zero, zero)
		return View('pos', f, cnt, zero, zero, own=lambda n, i: V.vcons(
				LEAFAT(n, i), V.vcons(f.h['label'][n], V.vnil)))
	return view


def c_pos():
	def case(name, nodes):
		c = viewcase(name, posview(nodes), listresult,
				args=[SBool(z3.BoolVal(nodes))])
		setup = c.setup

		def withleaves(eng, st):
			res = setup(eng, st)
			st.assume(*leafdefs(st.ghost['forest']))
			st.ghost['nodes'] = nodes
			return res
		c.setup = withleaves
		return c
	return Contract('%s:Tree.pos' % TREE, [case('tuples', False),
			case('nodes', True)])


def posinv(S):
	res = S.ref('result')
	f = S.st.ghost['forest']
	ag = S.ref('agenda')
	return agendainv(S, S.h['llen'][res]) + [('result is a new list', z3.And(
			res >= f.h.alloc, res < S.h.alloc, X.clsof(res) == f.lst,
			res != ag))] + isview(S, res, S.h['llen'][res],
			'what was produced') + unchanged(S)


def posinner(S):
	"""The leaves among the first children of node were added."""
	f, v = S.st.ghost['forest'], S.st.ghost['view']
	res, x = S.ref('result'), S.v('node')
	n = V.ref(x)
	k = S.pre['llen'][res]
	h, o = S.h, S.pre
	i = z3.Int('i')
	if S.st.ghost['nodes']:
		return [('no leaf yet', NLEAVES(n, S.i) == 0),
				('result is unchanged', z3.And(h['llen'][res] == k,
				h['lget'][res] == o['lget'][res]))]
	return [('leaves of the node are added', h['llen'][res] == k + NLEAVES(n,
			S.i)),
		('result has items of the node', X.forall([i], z3.Implies(z3.And(
			k <= i, i < h['llen'][res]), h['lget'][res][i] == v.at(x, i - k)),
			patterns=[h['lget'][res][i]])),
		('result is kept', X.forall([i], z3.Implies(z3.And(0 <= i, i < k),
			h['lget'][res][i] == o['lget'][res][i]),
			patterns=[h['lget'][res][i]]))]


# find
def c_find():
	def setup(eng, st):
		f, me = tree(eng, st)
		return [me, condition()], {}

	def post(P):
		f = P.st.ghost['forest']
		n = P.args[0].e
		i, j = z3.Ints('i j')
		r = toV(P.result)
		none = X.forall([i], z3.Implies(z3.And(0 <= i, i < f.len(n)),
				z3.Not(COND(f.child(n, i)))), patterns=[f.child(n, i)])
		k = P.st.ghost.get('iteration Tree.find loop 0', z3.IntVal(0))
		first = z3.And(0 <= k, k < f.len(n), r == f.child(n, k), COND(r),
				X.forall([i], z3.Implies(z3.And(0 <= i, i < k), z3.Not(COND(
				f.child(n, i)))), patterns=[f.child(n, i)]))
		return [('the first child with the condition, or None', z3.Or(first,
				z3.And(none, V.is_none(r))))] + unchanged(P)
	return Contract('%s:Tree.find' % TREE, [Case('', setup, post)])


def findinv(S):
	f = S.st.ghost['forest']
	n = S.args[0].e
	i = z3.Int('i')
	return [('no child so far', X.forall([i], z3.Implies(z3.And(0 <= i,
			i < S.i), z3.Not(COND(f.child(n, i)))),
			patterns=[f.child(n, i)]))]


# tree positions
def posnview(before, after):
	from pv import pylib

	def view(f):
		v = View('position', f, before, after, one, own=lambda n, i: V.vnil,
				leafitem=lambda v: V.vnil,
				wrap=lambda j, x: V.vcons(V.vint(j), x))
		axioms = v.axioms

		def withtuple():
			x, i = z3.Const('v', V), z3.Int('i')
			return axioms() + pylib.tupcataxioms() + [X.forall([x, i],
					z3.Implies(z3.And(0 <= i, i < v.size(x)), pylib.istuple(
					v.at(x, i))), patterns=[v.at(x, i)])]
		v.axioms = withtuple
		return v
	return view


def c_treepositions():
	return Contract('%s:Tree.treepositions' % TREE, [viewcase(order, posnview(
			before, after), listresult, args=[SStr(X.strlit(order))])
			for order, before, after in (('preorder', one, zero),
			('postorder', zero, one), ('bothorder', one, one),
			('leaves', zero, zero))])


def c_leafposition():
	def post(P):
		v = P.st.ghost['view']
		root = V.vref(P.args[0].e)
		i = P.args[1].e
		return [('position of the leaf', z3.And(0 <= i, i < v.size(root),
				toV(P.result) == v.at(root, i)))] + unchanged(P)

	def bad(P):
		v = P.st.ghost['view']
		i = P.args[1].e
		return [('there is no such leaf', z3.Or(i < 0, i >= v.size(V.vref(
				P.args[0].e))))] + unchanged(P)
	return Contract('%s:Tree.leaf_treeposition' % TREE, [viewcase('',
			posnview(zero, zero), post, args=[SInt(z3.Const('index', Int))],
			raises=dict(IndexError=bad))])


def stackitem(x):
	return V.hd(x), V.hd(V.tl(x))


def stackinv(S):
	from pv import pylib
	f, v = S.st.ghost['forest'], S.st.ghost['view']
	off = S.st.ghost['off']
	ag = S.ref('stack')
	root = V.vref(S.args[0].e)
	h = S.h
	get, n = h['lget'][ag], h['llen'][ag]
	j, i = z3.Ints('j i')
	x, tp = stackitem(get[j])
	done = S.args[1].e - S.int('index')
	return [('stack is a new list', z3.And(ag >= f.h.alloc, ag < h.alloc,
			X.clsof(ag) == f.lst, n >= 0)),
		('index counts down', z3.And(S.int('index') >= 0, done >= 0)),
		('stack has values and positions', X.forall([j], z3.Implies(z3.And(
			0 <= j, j < n), z3.And(pair(get[j]), pylib.istuple(tp),
			z3.Implies(V.is_vref(x), z3.And(0 < V.ref(x),
			V.ref(x) < f.h.alloc)))), patterns=[get[j]])),
		('top of stack comes next', z3.If(n == 0, done == v.size(root),
			off[n - 1] == done)),
		('last of stack comes last', z3.Implies(n > 0, off[0] + v.size(
			V.hd(get[0])) == v.size(root))),
		('items on stack are in the tree', X.forall([j], z3.Implies(z3.And(
			0 <= j, j < n), off[j] + v.size(x) <= v.size(root)),
			patterns=[get[j], off[j]])),
		('items on stack follow each other', X.forall([j], z3.Implies(z3.And(
			1 <= j, j < n), off[j - 1] == off[j] + v.size(x)),
			patterns=[get[j], off[j]])),
		('what remains on the stack is in the tree', X.forall([j, i],
			z3.Implies(z3.And(0 <= j, j < n, 0 <= i, i < v.size(x)),
			v.at(root, off[j] + i) == pylib.TUPCAT(tp, v.at(x, i))),
			patterns=[z3.MultiPattern(get[j], v.at(x, i))]))] + unchanged(S)


def pair(x):
	return z3.And(V.is_vcons(x), V.is_vcons(V.tl(x)), V.is_vnil(V.tl(V.tl(
			x))))


def stackupdate(S):
	f, v = S.st.ghost['forest'], S.st.ghost['view']
	off = S.st.ghost['off']
	ag = S.ref('stack')
	x = S.v('value')
	new = fresh(z3.ArraySort(Int, Int), 'off')
	j = z3.Int('j')
	n = V.ref(x)
	m = S.head['llen'][ag] - 1
	S.st.assume(X.forall([j], new[j] == z3.If(z3.Or(j < m, z3.Not(f.istree(
			x))), off[j], off[m] + v.start(n, f.len(n) - 1 - (j - m))),
			patterns=[new[j]]))
	return new


def stackinner(S):
	"""The children of value are added from the last to the first."""
	f = S.st.ghost['forest']
	from pv import pylib
	ag = S.ref('stack')
	n, tp = V.ref(S.v('value')), S.v('treepos')
	h, o = S.h, S.pre
	k = o['llen'][ag]
	j = z3.Int('j')
	get = h['lget'][ag]
	ch = f.len(n) - 1 - (j - k)
	return [('children added', h['llen'][ag] == k + S.i),
		('stack is kept', X.forall([j], z3.Implies(z3.And(0 <= j, j < k),
			get[j] == o['lget'][ag][j]), patterns=[get[j]])),
		('stack has children', X.forall([j], z3.Implies(z3.And(k <= j,
			j < h['llen'][ag]), get[j] == V.vcons(f.child(n, ch), V.vcons(
			pylib.TUPCAT(tp, V.vcons(V.vint(ch), V.vnil)), V.vnil))),
			patterns=[get[j]]))] + unchanged(S)


ALLOCS = ['lget', 'llen']
LOOPS = {
	('Tree.subtrees', 0): LoopSpec(subtreesinv, modifies=ALLOCS, allocs=True,
		kinds=dict(node='dyn'), ghosts=dict(off=(offinit, offupdate))),
	('Tree.postorder', 0): LoopSpec(postinv, modifies=ALLOCS + ['sdom',
		'ssize'], allocs=True, kinds=dict(node='dyn'), ghosts=dict(off=(
		offinit, postupdate))),
	('Tree.leaves', 0): LoopSpec(recinv('leaves'), modifies=ALLOCS,
		allocs=True, kinds=dict(child='undef')),
	('Tree.height', 0): LoopSpec(heightinv, kinds=dict(child='undef')),
	('Tree.pos', 0): LoopSpec(posinv, modifies=ALLOCS, allocs=True,
		kinds=dict(node='dyn', child='undef'), ghosts=dict(off=(offinit,
		offupdate))),
	('Tree.pos', 1): LoopSpec(posinner, kinds=dict(child='undef'), modifies=[
		('lget', lambda S: [S.ref('result')]),
		('llen', lambda S: [S.ref('result')])]),
	('Tree.find', 0): LoopSpec(findinv, kinds=dict(child='undef')),
	('Tree.treepositions', 0): LoopSpec(recinv('positions'), modifies=ALLOCS,
		allocs=True, kinds=dict(i='undef', child='undef', childpos='undef')),
	('Tree.leaf_treeposition', 0): LoopSpec(stackinv, modifies=ALLOCS,
		allocs=True, kinds=dict(value='dyn', treepos='dyn', i='undef'),
		ghosts=dict(off=(offinit, stackupdate))),
	('Tree.leaf_treeposition', 1): LoopSpec(stackinner, kinds=dict(i='undef'),
		modifies=[('lget', lambda S: [S.ref('stack')]),
		('llen', lambda S: [S.ref('stack')])]),
	}


# --- immutable trees ----------------------------------------------------------
FIELDS = ('lget', 'llen', 'children', 'label', 'source', 'type', '_hash',
	'_leaves', 'bitset')


def rejected(name, nargs):
	def make():
		def setup(eng, st):
			me = z3.Const('self', Int)
			st.assume(0 < me, me < st.heap.alloc, X.clsof(me)
					== eng.classid('ImmutableTree'))
			return [SRef(me, 'ImmutableTree')] + [SDyn(z3.Const('arg%d' % n,
					V)) for n in range(nargs)], {}

		def post(P):
			return [('is rejected', z3.BoolVal(False))]

		def bad(P):
			return [('%s is unchanged' % f, P.h[f] == P.old[f])
					for f in FIELDS]
		return Contract('%s:ImmutableTree.%s' % (TREE, name), [Case('', setup,
				post, raises=dict(ValueError=bad))])
	return make


MUTATORS = [rejected(name, n) for name, n in (('__setitem__', 2),
	('__delitem__', 1), ('__iadd__', 1), ('__imul__', 1), ('append', 1),
	('extend', 1), ('insert', 2), ('pop', 0), ('pop', 1), ('remove', 1))]


# --- equality of discontinuous trees ------------------------------------------
DEQ = z3.Function('equaltrees', Int, Int, Bool)


def c_disceq():
	from pv import pylib

	def setup(eng, st):
		f = Forest(eng, st.heap)
		f.cls = eng.classid('DiscTree')
		h = st.heap
		a, b, j = z3.Ints('self other j')
		m, n = z3.Ints('m n')
		word = lambda n, j: h['lget'][V.ref(h['sent'][n])][V.i(f.child(n, j))]
		ca, cb = f.child(m, j), f.child(n, j)
		same = z3.If(z3.Or(f.istree(ca), f.istree(cb)), z3.And(f.istree(ca),
				f.istree(cb), DEQ(V.ref(ca), V.ref(cb))), pylib.valeq(eng, st,
				word(m, j), word(n, j)))
		k = z3.Function('different', Int, Int, Int)(m, n)
		sub = lambda e: z3.substitute(e, (j, k))
		head = z3.And(pylib.valeq(eng, st, h['label'][m], h['label'][n]),
				f.len(m) == f.len(n))
		st.assume(f.node(a), f.node(b), *f.wf())
		st.assume(
			# leaves are positions in the sentence
			X.forall([n, j], z3.Implies(z3.And(f.node(n), 0 <= j,
				j < f.len(n), z3.Not(f.istree(cb))), z3.And(V.is_vint(cb),
				0 <= V.i(cb), V.i(cb) < h['llen'][V.ref(h['sent'][n])])),
				patterns=[cb]),
			X.forall([n], z3.Implies(f.node(n), z3.And(V.is_vref(
				h['sent'][n]), 0 < V.ref(h['sent'][n]), V.ref(h['sent'][n])
				< h.alloc, X.clsof(V.ref(h['sent'][n])) == f.lst)),
				patterns=[h['sent'][n]]),
			# the recursive definition of equality
			X.forall([m, n, j], z3.Implies(z3.And(f.node(m), f.node(n),
				DEQ(m, n), 0 <= j, j < f.len(m)), same),
				patterns=[z3.MultiPattern(DEQ(m, n), ca),
				z3.MultiPattern(DEQ(m, n), cb)]),
			X.forall([m, n], z3.Implies(z3.And(f.node(m), f.node(n),
				DEQ(m, n)), head), patterns=[DEQ(m, n)]),
			X.forall([m, n], z3.Implies(z3.And(f.node(m), f.node(n), head,
				z3.Not(DEQ(m, n))), z3.And(0 <= k, k < f.len(m), z3.Not(sub(
				same)))), patterns=[DEQ(m, n)]))
		st.ghost['forest'] = f
		st.ghost['same'] = lambda i: z3.substitute(same, (m, a), (n, b), (j,
				i))
		return [SRef(a, 'DiscTree'), SRef(b, 'DiscTree')], {}

	def post(P):
		a, b = P.args
		return [('equality of the trees', P.result.e == DEQ(a.e, b.e))] + [
				('%s is unchanged' % f, P.h[f] == P.old[f]) for f in FIELDS]
	return Contract('%s:DiscTree.__eq__' % TREE, [Case('', setup, post)])


def disceq(eng, st, a, b):
	"""Equality of references: that of DiscTree, or identity."""
	cls = eng.classid('DiscTree')
	return z3.If(z3.And(X.clsof(V.ref(a)) == cls, X.clsof(V.ref(b)) == cls),
			DEQ(V.ref(a), V.ref(b)), a == b)


def use_disceq(eng, st, args, kwargs):
	a, b = toV(args[0]), toV(args[1])
	yield st, SBool(DEQ(V.ref(a), V.ref(b)))


def disceqinv(S):
	i = z3.Int('i')
	same = S.st.ghost['same']
	return [('children so far are equal', X.forall([i], z3.Implies(z3.And(
			0 <= i, i < S.i), same(i)), patterns=[S.st.ghost[
			'forest'].child(S.args[0].e, i)]))]


LOOPS['DiscTree.__eq__', 0] = LoopSpec(disceqinv, kinds=dict(a='undef',
		b='undef', istree='undef'))


def mk(name):
	callees = {}
	if 'Immutable' in name:
		cls = 'ImmutableTree'
		return Engine(classes={cls: [(TREE, cls), (TREE, 'Tree')]},
				attrs={(cls, a): k for (_, a), k in ATTRS.items()},
				refeq='identity')
	if 'DiscTree' in name:
		cls = 'DiscTree'
		attrs = {(cls, a): k for (_, a), k in ATTRS.items()}
		attrs[cls, 'sent'] = 'list'
		return Engine(classes={cls: [(TREE, cls), (TREE, 'ImmutableTree'),
				(TREE, 'Tree')], 'Tree': [(TREE, 'Tree')]}, attrs=attrs,
				dynclasses=(cls, ), loops=LOOPS, refeq=disceq,
				callees={'DiscTree.__eq__': use_disceq})
	if name.endswith('.leaves') or name.endswith('.treepositions'):
		callees[name.split(':')[1]] = use_view
	if name.endswith('.height'):
		callees['Tree.height'] = use_height
	return Engine(classes=CLASSES, attrs=ATTRS, dynclasses=('Tree', ),
			loops=LOOPS, refeq='identity', callees=callees)


CONTRACTS = [c_subtrees, c_postorder, c_leaves, c_height, c_pos, c_find,
	c_treepositions, c_leafposition, c_disceq] + MUTATORS
