"""Contracts of ParentedTree (discodop/tree.py).

Representation invariant WF of the heap, for every pair of node and child:

- W0: the children attribute of a node is a list; no two nodes share it;
- W1: a child that is a Tree is a ParentedTree, whose parent is the node, and
  it occurs there at ghost position idx(child) (hence: only once);
- W3: a node that has a parent occurs among the children of that parent, at
  position idx(node).

W1 and W3 say: x.parent is p if and only if x is a child of p, and each node
has at most one parent and at most one position.
"""
import z3
from pv import vc, pyexec as X
from pv.pyexec import (V, Int, Bool, SInt, SDyn, SRef, SNone, SSlice, STup,
		SSeq, Case, Contract, LoopSpec, Engine, fresh, toV)

TREE = 'discodop/tree.py'
PT = 'ParentedTree'
CLASSES = {
	PT: [(TREE, PT), (TREE, 'Tree')],
	'Tree': [(TREE, 'Tree')]}
ATTRS = {}
for _c in CLASSES:
	ATTRS[_c, 'children'] = 'list'
	for _a in ('label', 'source', 'type'):
		ATTRS[_c, _a] = 'dyn'
ATTRS[PT, '_parent'] = 'dyn'


class Spec(object):
	"""Formulas about a heap."""
	def __init__(self, eng):
		self.eng = eng
		self.pt = eng.classid(PT)
		self.lst = eng.classid('list')
		self.tree = eng.classid('Tree')

	def kids(self, h, n):
		return V.ref(h['children'][n])

	def node(self, h, n):
		return z3.And(0 < n, n < h.alloc, X.clsof(n) == self.pt)

	def istree(self, e):
		return z3.And(V.is_vref(e), z3.Or(X.clsof(V.ref(e)) == self.pt,
				X.clsof(V.ref(e)) == self.tree))

	def wf(self, h, idx):
		"""List of (name, formula)."""
		n, i, m = z3.Ints('n i m')
		l = self.kids(h, n)
		c = h['lget'][l][i]
		r = V.ref(c)
		par = h['_parent'][n]
		p = V.ref(par)
		return [
			('W0: each node has a list of children', X.forall([n], z3.Implies(
				self.node(h, n), z3.And(V.is_vref(h['children'][n]),
				0 < l, l < h.alloc, X.clsof(l) == self.lst,
				h['llen'][l] >= 0)), patterns=[h['children'][n]])),
			# at calls of functions which leave the attribute children of all
			# nodes as it is, a ghost owner may be used (the same statement)
			('W0: lists of children are not shared', X.forall([n], z3.Implies(
				self.node(h, n), self.eng.owner(self.kids(h, n)) == n),
				patterns=[h['children'][n]]) if getattr(self.eng, 'owner',
				None) is not None else X.forall([n, m],
				z3.Implies(z3.And(self.node(h, n), self.node(h, m),
				self.kids(h, n) == self.kids(h, m)), n == m),
				patterns=[z3.MultiPattern(h['children'][n],
				h['children'][m])])),
			('W1: a child points to its parent and position', X.forall([n, i],
				z3.Implies(z3.And(self.node(h, n), 0 <= i, i < h['llen'][l],
				self.istree(c)), z3.And(self.node(h, r),
				h['_parent'][r] == V.vref(n), idx(r) == i)),
				patterns=[h['lget'][l][i]])),
			('W3: a node occurs among the children of its parent', X.forall(
				[n], z3.Implies(z3.And(self.node(h, n),
				z3.Not(V.is_none(par))), z3.And(V.is_vref(par),
				self.node(h, p), 0 <= idx(n), idx(n) < h['llen'][
				self.kids(h, p)], h['lget'][self.kids(h, p)][idx(n)]
				== V.vref(n))), patterns=[h['_parent'][n]])),
			]

	def refs(self, h):
		"""Every reference in a node's list is to an allocated object."""
		n, i = z3.Ints('n i')
		c = h['lget'][self.kids(h, n)][i]
		return X.forall([n, i], z3.Implies(z3.And(self.node(h, n), 0 <= i,
				i < h['llen'][self.kids(h, n)], V.is_vref(c)),
				z3.And(0 < V.ref(c), V.ref(c) < h.alloc)),
				patterns=[h['lget'][self.kids(h, n)][i]])


IDX0 = z3.Function('idx0', Int, Int)


def mk(name):
	callees = {}
	fn = name.split(':')[1].split('.')[-1]
	if fn != 'slice_bounds':
		callees['slice_bounds'] = use_slice_bounds
	if fn != '_get_parent_index':
		callees[PT + '._get_parent_index'] = use_parent_index
	if fn in ('detach', 'disown', 'prune', 'spliceabove', 'splicebelow'):
		callees[PT + '.pop'] = use(c_pop, 2, 'dyn')
		callees[PT + '.__setitem__'] = use(c_setitem, 3)
		callees[PT + '.insert'] = use(c_insert, 3)
		callees[PT + '.append'] = use(c_append, 2)
		callees['new ' + PT] = use_init
		if fn not in ('detach', 'disown'):
			callees[PT + '.disown'] = use(c_disown, 1, 'list')
			callees[PT + '.detach'] = use(c_detach, 1, 'dyn')
	eng = Engine(classes=CLASSES, attrs=ATTRS, dynclasses=(PT, ),
			loops=LOOPS, callees=callees)
	return eng


def slicebound(v, default, n):
	"""What Python takes a slice bound to mean."""
	def clamp(i):
		return z3.If(i < 0, z3.If(i + n < 0, 0, i + n), z3.If(i > n, n, i))
	if isinstance(v, SNone):
		return default
	if isinstance(v, SInt):
		return clamp(v.e)
	return z3.If(V.is_none(v.e), default, clamp(V.i(v.e)))


def slicespec(sl, n):
	"""The bounds that a slice denotes for a sequence of length n, and
	whether its step is accepted."""
	lo, hi = slicebound(sl.a, z3.IntVal(0), n), slicebound(sl.b, n, n)
	if isinstance(sl.c, SNone):
		ok = z3.BoolVal(True)
	elif isinstance(sl.c, SInt):
		ok = sl.c.e == 1
	else:
		ok = z3.Or(V.is_none(sl.c.e), z3.And(V.is_vint(sl.c.e),
				V.i(sl.c.e) == 1))
	# start is at most stop
	return z3.If(lo > hi, hi, lo), hi, ok


def use_slice_bounds(eng, st, args, kwargs):
	"""Contract of slice_bounds at its call sites."""
	seq, sl = args
	sp = Spec(eng)
	n = st.heap['llen'][sp.kids(st.heap, seq.e)]
	lo, hi, ok = slicespec(sl, n)
	for s, good in eng.split(st, ok):
		if good:
			a, b = fresh(Int, 'lo'), fresh(Int, 'hi')
			s.assume(a == lo, b == hi, 0 <= a, a <= b, b <= n)
			yield s, STup([SInt(a), SInt(b), SInt(1)])
		else:
			yield s, X.Exc('ValueError', 'slice step')


def c_slice_bounds():
	def setup(eng, st):
		sp, me = start(eng, st)
		return [me, SSlice(bound(st, 'start'), bound(st, 'stop'),
				bound(st, 'step'))], {}

	def post(P):
		n0 = mylist(P, Spec(P.eng))[0]
		lo, hi, ok = slicespec(P.args[1], n0)
		r = P.result.items
		return unchanged(P) + [('start', P.eng_int(r[0]) == lo),
				('stop', P.eng_int(r[1]) == hi), ('step accepted', ok),
				('third is 1', P.eng_int(r[2]) == 1),
				('0 <= start <= stop <= len', z3.And(0 <= P.eng_int(r[0]),
				P.eng_int(r[0]) <= P.eng_int(r[1]), P.eng_int(r[1]) <= n0))]

	def raises(P):
		n0 = mylist(P, Spec(P.eng))[0]
		return unchanged(P) + [('step not accepted', z3.Not(slicespec(
				P.args[1], n0)[2]))]
	return Contract('discodop/util.py:slice_bounds', [Case('', setup, post,
			raises=dict(ValueError=raises))])


def start(eng, st, cls=PT):
	"""A well-formed heap with a node self."""
	sp = Spec(eng)
	self = z3.Const('self', Int)
	st.assume(sp.node(st.heap, self))
	for _, f in sp.wf(st.heap, IDX0):
		st.assume(f)
	# the list object of self
	return sp, SRef(self, PT)


def value(eng, st, name):
	"""Any value which is not a list."""
	e = z3.Const(name, V)
	st.assume(z3.Implies(V.is_vref(e), z3.And(0 < V.ref(e),
			V.ref(e) < st.heap.alloc, z3.Or(X.clsof(V.ref(e))
			== eng.classid(PT), X.clsof(V.ref(e)) == eng.classid('Tree')))))
	return SDyn(e)


def others(P, sp, changed):
	"""Frame: nothing else changes.

	:param changed: refs of nodes whose _parent may change: function r -> Bool.
	"""
	h, o = P.h, P.old
	n, i = z3.Ints('n i')
	me = P.args[0].e
	return [
		('other nodes keep their lists of children', X.forall([n],
			z3.Implies(z3.And(sp.node(o, n), n != me), z3.And(
			h['children'][n] == o['children'][n],
			h['llen'][sp.kids(o, n)] == o['llen'][sp.kids(o, n)],
			h['lget'][sp.kids(o, n)] == o['lget'][sp.kids(o, n)])))),
		('other lists are kept', X.forall([n], z3.Implies(z3.And(0 < n,
			n < o.alloc, n != sp.kids(o, me)), z3.And(
			h['llen'][n] == o['llen'][n], h['lget'][n] == o['lget'][n])),
			patterns=[h['lget'][n], h['llen'][n]])),
		('other nodes keep their parents', X.forall([n], z3.Implies(z3.And(
			sp.node(o, n), z3.Not(changed(n))),
			h['_parent'][n] == o['_parent'][n]))),
		('labels are kept', X.forall([n], z3.Implies(sp.node(o, n),
			h['label'][n] == o['label'][n]))),
		('children attribute is kept', h['children'][me]
			== o['children'][me]),
		('no new nodes', X.forall([n], z3.Implies(z3.And(o.alloc <= n,
			n < h.alloc), X.clsof(n) != sp.pt), patterns=[X.clsof(n)])),
		]


def unchanged(P):
	"""Nothing observable changed."""
	sp = Spec(P.eng)
	h, o = P.h, P.old
	n = z3.Int('n')
	return [('nothing changes', X.forall([n], z3.Implies(sp.node(o, n), z3.And(
			h['children'][n] == o['children'][n],
			h['_parent'][n] == o['_parent'][n],
			h['label'][n] == o['label'][n],
			h['llen'][sp.kids(o, n)] == o['llen'][sp.kids(o, n)],
			h['lget'][sp.kids(o, n)] == o['lget'][sp.kids(o, n)]))))]


def idx_of(P):
	return getattr(P, 'idx', IDX0)


def mylist(P, sp):
	"""(old length, old array, new length, new array) of self."""
	me = P.args[0].e
	l = sp.kids(P.old, me)
	return (P.old['llen'][l], P.old['lget'][l], P.h['llen'][l],
			P.h['lget'][l])


def spliced(P, lo, hi, m, new, ischild, name=''):
	"""Postcondition: children[lo:hi] was replaced by m values new(j).

	:param ischild: function r -> Bool: node is one of the new values, with
		its position among these given by pos(r)."""
	sp = Spec(P.eng)
	me = P.args[0].e
	n0, a0, n1, a1 = mylist(P, sp)
	isnew, pos = ischild
	lo, hi = P.name(lo, 'lo'), P.name(hi, 'hi')
	idx0 = idx_of(P)
	removed = lambda r: z3.And(P.old['_parent'][r] == V.vref(me),
			lo <= idx0(r), idx0(r) < hi)

	def idx(r):
		return z3.If(isnew(r), lo + pos(r), z3.If(z3.And(
				P.old['_parent'][r] == V.vref(me), idx0(r) >= hi),
				idx0(r) - (hi - lo) + m, idx0(r)))
	if getattr(P, 'newidx', None) is not None:
		# at a call: the new positions are given by a new ghost function
		x = z3.Int('x')
		P.st.assume(X.forall([x], P.newidx(x) == idx(x),
				patterns=[P.newidx(x)]))
		idx = P.newidx
	j, n = z3.Ints('j n')
	res = list(sp.wf(P.h, idx))
	res.append(('length of children', n1 == n0 - (hi - lo) + m))
	res.append(('children before are kept', X.forall([j], z3.Implies(z3.And(
			0 <= j, j < lo), a1[j] == a0[j]))))
	res.append(('children after are shifted', X.forall([j], z3.Implies(z3.And(
			lo + m <= j, j < n1), a1[j] == a0[j + (hi - lo) - m]),
			patterns=[a1[j]])))
	res.append(('new children', X.forall([j], z3.Implies(z3.And(
			lo <= j, j < lo + m), a1[j] == new(j - lo)), patterns=[a1[j]])))
	res.append(('removed children have no parent', X.forall([n], z3.Implies(
			z3.And(sp.node(P.old, n), removed(n), z3.Not(isnew(n))),
			V.is_none(P.h['_parent'][n])))))
	res.extend(others(P, sp, lambda r: z3.Or(isnew(r), removed(r))))
	return res


def single(x):
	"""isnew and position for a single value x (a V expression)."""
	sp = lambda r: z3.And(V.is_vref(x), V.ref(x) == r)
	return sp, lambda r: z3.IntVal(0)


NONE = (lambda r: z3.BoolVal(False), lambda r: z3.IntVal(0))


# --- append, insert, pop, remove ----------------------------------------------
def c_append():
	def setup(eng, st):
		sp, me = start(eng, st)
		return [me, value(eng, st, 'child')], {}

	def post(P):
		n0 = mylist(P, Spec(P.eng))[0]
		x = toV(P.args[1])
		return spliced(P, n0, n0, z3.IntVal(1), lambda j: x, single(x))
	return Contract('%s:%s.append' % (TREE, PT), [Case('', setup, post,
			raises=dict(ValueError=parented, TypeError=nonparented))])


def parented(P):
	"""ValueError: value already has a parent; nothing changes."""
	x = toV(P.args[-1])
	return unchanged(P) + [('the value has a parent',
			z3.And(V.is_vref(x), z3.Not(V.is_none(
				P.old['_parent'][V.ref(x)]))))]


def nonparented(P):
	x = toV(P.args[-1])
	return unchanged(P) + [('the value is a tree of another class', z3.And(
			V.is_vref(x), X.clsof(V.ref(x)) == P.eng.classid('Tree')))]


def c_insert():
	def setup(eng, st):
		sp, me = start(eng, st)
		return [me, SInt(z3.Const('index', Int)),
				value(eng, st, 'child')], {}

	def post(P):
		n0 = mylist(P, Spec(P.eng))[0]
		i, x = P.args[1].e, toV(P.args[2])
		k = z3.If(i < 0, z3.If(i + n0 < 0, 0, i + n0), z3.If(i > n0, n0, i))
		return spliced(P, k, k, z3.IntVal(1), lambda j: x, single(x))
	return Contract('%s:%s.insert' % (TREE, PT), [Case('', setup, post,
			raises=dict(ValueError=parented, TypeError=nonparented))])


def outofrange(P):
	n0 = mylist(P, Spec(P.eng))[0]
	i = P.args[1].e if len(P.args) > 1 else z3.IntVal(-1)
	return unchanged(P) + [('index out of range', z3.Or(i >= n0, i < -n0))]


def position(P, i):
	n0 = mylist(P, Spec(P.eng))[0]
	return z3.If(i < 0, i + n0, i)


def c_pop():
	def setup(eng, st):
		sp, me = start(eng, st)
		return [me, SInt(z3.Const('index', Int))], {}

	def setup0(eng, st):
		sp, me = start(eng, st)
		return [me], {}

	def post(P):
		i = P.args[1].e if len(P.args) > 1 else z3.IntVal(-1)
		k = position(P, i)
		a0 = mylist(P, Spec(P.eng))[1]
		return spliced(P, k, k + 1, z3.IntVal(0), None, NONE) if False else (
				removedone(P, k) + [('returns the child', toV(P.result)
				== a0[k])])
	return Contract('%s:%s.pop' % (TREE, PT), [
			Case('index', setup, post, raises=dict(IndexError=outofrange)),
			Case('last', setup0, post, raises=dict(IndexError=outofrange))])


def removedone(P, k):
	return spliced(P, k, k + 1, z3.IntVal(0), lambda j: V.none, NONE)


def c_delitem():
	def setup(eng, st):
		sp, me = start(eng, st)
		return [me, SInt(z3.Const('index', Int))], {}

	def post(P):
		return removedone(P, position(P, P.args[1].e))

	def setups(eng, st):
		sp, me = start(eng, st)
		return [me, SSlice(bound(st, 'start'), bound(st, 'stop'),
				SNone())], {}

	def posts(P):
		lo, hi = bounds(P)
		return spliced(P, lo, hi, z3.IntVal(0), lambda j: V.none, NONE)

	def setupt(eng, st):
		sp, me = start(eng, st)
		return [me, STup([])], {}

	def setup1(eng, st):
		sp, me = start(eng, st)
		return [me, STup([SInt(z3.Const('index', Int))])], {}

	def post1(P):
		return removedone(P, position(P, P.args[1].items[0].e))

	def raise1(P):
		n0 = mylist(P, Spec(P.eng))[0]
		i = P.args[1].items[0].e
		return unchanged(P) + [('index out of range', z3.Or(i >= n0,
				i < -n0))]
	return Contract('%s:%s.__delitem__' % (TREE, PT), [
			Case('index', setup, post, raises=dict(IndexError=outofrange)),
			Case('slice', setups, posts),
			Case('position ()', setupt, lambda P: [('raises', z3.BoolVal(
				False))], raises=dict(IndexError=unchanged)),
			Case('position (i, )', setup1, post1,
				raises=dict(IndexError=raise1)),
			])


def bound(st, name):
	"""A slice bound: None or an integer."""
	e = z3.Const(name, V)
	st.assume(z3.Or(V.is_none(e), V.is_vint(e)))
	return SDyn(e)


def bounds(P):
	"""The bounds that a slice denotes, by definition of Python's slices."""
	n0 = mylist(P, Spec(P.eng))[0]
	sl = P.args[1]
	lo, hi = slicebound(sl.a, z3.IntVal(0), n0), slicebound(sl.b, n0, n0)
	return lo, z3.If(hi < lo, lo, hi)


def c_remove():
	def setup(eng, st):
		sp, me = start(eng, st)
		return [me, value(eng, st, 'child')], {}

	def post(P):
		from pv import pylib
		n0, a0, _, _ = mylist(P, Spec(P.eng))
		x = P.args[1].e
		k = z3.Const('k', Int)
		first = FIRST(x)
		st = P.st.fork()
		st.heap = P.old
		P.st.assume(*firstaxioms(P, x))
		return removedone(P, first)

	def missing(P):
		P.st.assume(*firstaxioms(P, P.args[1].e))
		n0 = mylist(P, Spec(P.eng))[0]
		return unchanged(P) + [('the value does not occur',
				FIRST(P.args[1].e) == n0)]
	return Contract('%s:%s.remove' % (TREE, PT), [Case('', setup, post,
			raises=dict(ValueError=missing))])


FIRST = z3.Function('first', V, Int)


def firstaxioms(P, x):
	"""first(x): position of first child equal to x, or number of children."""
	from pv import pylib
	sp = Spec(P.eng)
	n0, a0, _, _ = mylist(P, sp)
	st = P.st.fork()
	st.heap = P.old
	f, j = FIRST(x), z3.Int('j')
	return [0 <= f, f <= n0, z3.Implies(f < n0, pylib.eqid(P.eng, st, a0[f],
			x)), X.forall([j], z3.Implies(z3.And(0 <= j, j < f), z3.Not(
			pylib.eqid(P.eng, st, a0[j], x))), patterns=[a0[j]])]


# --- item and slice assignment ------------------------------------------------
def c_setitem():
	def setup(eng, st):
		sp, me = start(eng, st)
		return [me, SInt(z3.Const('index', Int)), value(eng, st, 'value')], {}

	def postat(P, i):
		k = position(P, i)
		x = P.args[2].e
		a0 = mylist(P, Spec(P.eng))[1]
		same = z3.And(V.is_vref(x), a0[k] == x)
		res = spliced(P, k, k + 1, z3.IntVal(1), lambda j: x, single(x))
		return res

	def post(P):
		return postat(P, P.args[1].e)

	def setup1(eng, st):
		sp, me = start(eng, st)
		return [me, STup([SInt(z3.Const('index', Int))]),
				value(eng, st, 'value')], {}

	def post1(P):
		return postat(P, P.args[1].items[0].e)

	def raise1(P):
		n0 = mylist(P, Spec(P.eng))[0]
		i = P.args[1].items[0].e
		return unchanged(P) + [('index out of range', z3.Or(i >= n0,
				i < -n0))]

	def setupt(eng, st):
		sp, me = start(eng, st)
		return [me, STup([]), value(eng, st, 'value')], {}

	def setups(eng, st):
		sp, me = start(eng, st)
		return [me, SSlice(bound(st, 'start'), bound(st, 'stop'), SNone()),
				values(eng, st, sp)], {}

	def posts(P):
		sp = Spec(P.eng)
		lo, hi = bounds(P)
		cnt, arr = listof(P, P.args[2], P.old)
		return spliced(P, lo, hi, cnt, lambda j: arr[j], isvalue(P, sp))

	return Contract('%s:%s.__setitem__' % (TREE, PT), [
			Case('index', setup, post, raises=dict(IndexError=outofrange,
				ValueError=parented, TypeError=nonparented)),
			Case('position (i, )', setup1, post1, raises=dict(
				IndexError=raise1, ValueError=parented,
				TypeError=nonparented)),
			Case('position ()', setupt, lambda P: [('raises', z3.BoolVal(
				False))], raises=dict(IndexError=unchanged)),
			Case('slice', setups, posts, raises=dict(ValueError=badvalues,
				TypeError=badtypes)),
			])


def values(eng, st, sp):
	"""A list or tuple of arbitrary values, other than a node's own list."""
	arr = z3.Const('values', z3.ArraySort(Int, V))
	n = z3.Const('nvalues', Int)
	st.assume(n >= 0)
	j = z3.Int('j')
	st.assume(X.forall([j], z3.Implies(V.is_vref(arr[j]), z3.And(
			0 < V.ref(arr[j]), V.ref(arr[j]) < st.heap.alloc, z3.Or(
			X.clsof(V.ref(arr[j])) == eng.classid(PT),
			X.clsof(V.ref(arr[j])) == eng.classid('Tree')))),
			patterns=[arr[j]]))
	q = SSeq(n, lambda j: SDyn(arr[j]))
	q.types = ('list', 'tuple')
	q.arr = arr
	return q


# --- loops ----------------------------------------------------------------
def listof(S, v, heap=None):
	"""(length, array) of a list or sequence value."""
	h = heap or S.h
	if isinstance(v, SSeq):
		return v.n, v.arr
	if isinstance(v, SDyn):
		v = SRef(V.ref(v.e), 'list')
	return h['llen'][v.e], h['lget'][v.e]


def delloop(S):
	"""for i in range(start, stop): clear parent of self[i]"""
	sp = Spec(S.eng)
	me = S.ref('self')
	lo, hi = S.int('start'), S.int('stop')
	h, pre = S.h, S.pre
	n = z3.Int('n')
	gone = z3.And(pre['_parent'][n] == V.vref(me), lo <= IDX0(n),
			IDX0(n) < lo + S.i)
	return [
		('bounds', z3.And(0 <= lo, lo <= hi,
			hi <= h['llen'][sp.kids(h, me)])),
		('parents of children so far are cleared', X.forall([n], z3.Implies(
			sp.node(pre, n), h['_parent'][n] == z3.If(gone, V.none,
			pre['_parent'][n])), patterns=[h['_parent'][n]])),
		]


def newvalues(S):
	fn = S.st.env['__fn__'].qual
	if fn.endswith('__init__'):
		me = S.ref('self')
		return listof(S, SRef(V.ref(S.h['children'][me]), 'list'))
	return listof(S, S['value'])


def setloop(S):
	"""for i, child in enumerate(value): set parent"""
	sp = Spec(S.eng)
	me = S.ref('self')
	h, pre = S.h, S.pre
	n = z3.Int('n')
	cnt, arr = newvalues(S)
	vpos = S.st.ghost['vpos']
	new = z3.And(0 <= vpos(n), vpos(n) < S.i, arr[vpos(n)] == V.vref(n))
	return [
		('parents of new children so far are set', X.forall([n], z3.Implies(
			sp.node(pre, n), h['_parent'][n] == z3.If(new, V.vref(me),
			pre['_parent'][n])), patterns=[h['_parent'][n]])),
		]


def badvalues(P):
	"""Some value already has a parent, or occurs twice."""
	sp = Spec(P.eng)
	j, k = z3.Ints('j k')
	cnt, arr = listof(P, P.args[-1], P.old)
	return unchanged(P) + [('a value has a parent or occurs twice', z3.Or(
			z3.Exists([j], z3.And(0 <= j, j < cnt, sp.istree(arr[j]),
				z3.Not(V.is_none(P.old['_parent'][V.ref(arr[j])])))),
			z3.Exists([j, k], z3.And(0 <= j, j < k, k < cnt,
				sp.istree(arr[j]), arr[j] == arr[k]))))]


def badtypes(P):
	sp = Spec(P.eng)
	j = z3.Int('j')
	cnt, arr = listof(P, P.args[-1], P.old)
	return unchanged(P) + [('a value is a tree of another class', z3.Exists(
			[j], z3.And(0 <= j, j < cnt, V.is_vref(arr[j]),
			X.clsof(V.ref(arr[j])) == sp.tree)))]


def setlemma(S):
	"""The trees among the values are distinct; therefore there is a function
	vpos giving the position of each."""
	sp = Spec(S.eng)
	cnt, arr = newvalues(S)
	j, k = z3.Ints('j k')
	c, d = arr[j], arr[k]
	S.st.ghost['vpos'] = vpos = z3.Function('vpos!%d' % next(X._cnt), Int,
			Int)
	S.st.ghost['vals'] = (cnt, arr)
	return [('values are distinct', X.forall([j, k], z3.Implies(z3.And(
			0 <= j, j < k, k < cnt, sp.istree(c), sp.istree(d)),
			c != d)))], [X.forall([j], z3.Implies(z3.And(0 <= j, j < cnt,
			sp.istree(c)), vpos(V.ref(c)) == j), patterns=[c])]


def isvalue(P, sp):
	"""isnew: the node is among the values; pos: at which position."""
	vpos = P.st.ghost['vpos']
	cnt, arr = listof(P, P.args[-1], P.old)
	return lambda r: z3.And(0 <= vpos(r), vpos(r) < cnt,
			arr[vpos(r)] == V.vref(r)), vpos


def checkloop(S):
	"""_checkchildren: for i, child in enumerate(children, start)"""
	sp = Spec(S.eng)
	h = S.h
	j, k = z3.Ints('j k')
	x = z3.Const('x', V)
	cnt, arr = listof(S, S['children'])
	c, d = arr[j], arr[k]
	seen = h['sdom'][S.e('seen')]
	return [
		('children so far have no parent', X.forall([j], z3.Implies(z3.And(
			0 <= j, j < S.i, sp.istree(c)), z3.And(X.clsof(V.ref(c)) == sp.pt,
			V.is_none(h['_parent'][V.ref(c)]), seen[V.vint(V.ref(c))])),
			patterns=[c])),
		('only children so far were seen', X.forall([x], z3.Implies(seen[x],
			z3.Exists([j], z3.And(0 <= j, j < S.i, sp.istree(c),
			x == V.vint(V.ref(c))))), patterns=[seen[x]])),
		('children so far are distinct', X.forall([j, k], z3.Implies(z3.And(
			0 <= j, j < k, k < S.i, sp.istree(c), sp.istree(d)), c != d),
			patterns=[z3.MultiPattern(c, d)])),
		]


def indexloop(S):
	"""_get_parent_index: for i, child in enumerate(self._parent)"""
	sp = Spec(S.eng)
	me = S.ref('self')
	h = S.h
	lst = h['lget'][sp.kids(h, V.ref(h['_parent'][me]))]
	j = z3.Int('j')
	return [('self does not occur before', X.forall([j], z3.Implies(z3.And(
			0 <= j, j < S.i), lst[j] != V.vref(me)), patterns=[lst[j]]))]


def extendview(S, k):
	"""State after k values were appended."""
	sp = Spec(S.eng)
	n0 = S.old['llen'][sp.kids(S.old, S.args[0].e)]
	cnt, arr = listof(S, S.args[1], S.old)
	vpos = S.st.ghost['vpos']
	isnew = lambda r: z3.And(0 <= vpos(r), vpos(r) < k,
			arr[vpos(r)] == V.vref(r))
	n = z3.Int('n')
	return [('appended nodes have a parent', X.forall([n], z3.Implies(z3.And(
			sp.node(S.old, n), isnew(n)), S.h['_parent'][n]
			== V.vref(S.args[0].e)), patterns=[vpos(n)]))] + spliced(S, n0, n0,
			k, lambda j: arr[j], (isnew, vpos))


def extendloop(S):
	sp = Spec(S.eng)
	cnt, arr = listof(S, S['children'])
	me = S.ref('self')
	return extendview(S, S.i)


def extendlemma(S):
	"""vpos: the first position of a node among the values (a definition)."""
	cnt, arr = listof(S, S['children'])
	sp = Spec(S.eng)
	j = z3.Int('j')
	S.st.ghost['vpos'] = vpos = z3.Function('vpos!%d' % next(X._cnt), Int,
			Int)
	r = V.ref(arr[j])
	return [], [X.forall([j], z3.Implies(z3.And(0 <= j, j < cnt, sp.istree(
			arr[j])), z3.And(0 <= vpos(r), vpos(r) <= j, arr[vpos(r)]
			== arr[j])), patterns=[arr[j]])]


LOOPS = {
	(PT + '.__delitem__', 0): LoopSpec(delloop, modifies=['_parent'],
		kinds=dict(i='undef')),
	(PT + '.__setitem__', 0): LoopSpec(delloop, modifies=['_parent'],
		kinds=dict(i='undef')),
	(PT + '.__setitem__', 1): LoopSpec(setloop, modifies=['_parent'],
		lemmas=setlemma,
		kinds=dict(i='undef', child='undef')),
	(PT + '.__init__', 0): LoopSpec(setloop, modifies=['_parent'],
		lemmas=setlemma, kinds=dict(i='undef', child='undef')),
	(PT + '._get_parent_index', 0): LoopSpec(indexloop,
		kinds=dict(i='undef', child='undef')),
	(PT + '.extend', 0): LoopSpec(extendloop, modifies=['_parent', 'lget',
		'llen'], lemmas=extendlemma, kinds=dict(child='undef')),
	(PT + '._checkchildren', 0): LoopSpec(checkloop, modifies=['sdom',
		'ssize'], kinds=dict(i='undef', child='undef')),
	}




# --- construction and compound operations ----------------------------------
def fullwf(P, idx):
	return Spec(P.eng).wf(P.h, idx)


def c_init():
	def setup(eng, st):
		sp = Spec(eng)
		for _, f in sp.wf(st.heap, IDX0):
			st.assume(f)
		vals = values(eng, st, sp)
		label = z3.Const('label', V)
		st.ghost['oldalloc'] = st.heap.alloc
		me = eng.alloc(st, PT)
		return [SRef(me, PT), SDyn(label), vals], {}

	def post(P):
		sp = Spec(P.eng)
		me = P.args[0].e
		vals = P.args[2]
		isnew, pos = isvalue(P, sp)
		idx0 = idx_of(P)
		idx = lambda r: z3.If(isnew(r), pos(r), idx0(r))
		j, n = z3.Ints('j n')
		l = sp.kids(P.h, me)
		o, h = P.old, P.h
		cnt, arr = listof(P, vals, P.old)
		return sp.wf(P.h, idx) + [
			('number of children', h['llen'][l] == cnt),
			('children', X.forall([j], z3.Implies(z3.And(0 <= j, j < cnt),
				h['lget'][l][j] == arr[j]))),
			('label', h['label'][me] == P.args[1].e),
			('no parent', V.is_none(h['_parent'][me])),
			('other nodes keep their lists of children', X.forall([n],
				z3.Implies(z3.And(sp.node(o, n), n != me), z3.And(
				h['children'][n] == o['children'][n],
				h['label'][n] == o['label'][n],
				h['llen'][sp.kids(o, n)] == o['llen'][sp.kids(o, n)],
				h['lget'][sp.kids(o, n)] == o['lget'][sp.kids(o, n)])))),
			('other nodes keep their parents', X.forall([n], z3.Implies(
				z3.And(sp.node(o, n), n != me, z3.Not(isnew(n))),
				h['_parent'][n] == o['_parent'][n]))),
			]

	def failed(why):
		def fn(P):
			sp = Spec(P.eng)
			n = z3.Int('n')
			me = P.args[0].e
			o, h = P.old, P.h
			return [('other nodes are unchanged', X.forall([n], z3.Implies(
				z3.And(sp.node(o, n), n != me), z3.And(
				h['children'][n] == o['children'][n],
				h['_parent'][n] == o['_parent'][n],
				h['label'][n] == o['label'][n],
				h['llen'][sp.kids(o, n)] == o['llen'][sp.kids(o, n)],
				h['lget'][sp.kids(o, n)] == o['lget'][sp.kids(o, n)])))),
				why(P)[-1]]
		return fn
	return Contract('%s:%s.__init__' % (TREE, PT), [Case('', setup, post,
			raises=dict(ValueError=failed(badvalues),
				TypeError=failed(badtypes)))])


def use_init(eng, st, args, kwargs):
	"""ParentedTree(label, children) at a call site."""
	label, vals = args
	sp = Spec(eng)
	idx = st.ghost.get('idx', IDX0)
	for nm, f in sp.wf(st.heap, idx):
		eng.oblige(st, 'call of ParentedTree(): %s' % nm, f)
	unowned(eng, st, sp, vals, 'ParentedTree()')
	me = SRef(eng.alloc(st, PT), PT)
	old = st.heap.copy()
	case = c_init().cases[0]
	args = [me, label if hasattr(label, 'e') else SDyn(toV(label)), vals]
	for exc, post in sorted(case.raises.items()):
		s = st.fork()
		P = X.View(eng, s, old=old, args=args, result=None, idx=idx)
		s.assume(*[f for _, f in post(P)])
		if X.feasible(s):
			yield s, X.Exc(exc, 'from ParentedTree()')
	for f in ('lget', 'llen', '_parent', 'children', 'label'):
		st.heap[f] = fresh(X.fieldsort(f), 'h_' + f)
	alloc = fresh(Int, 'alloc')
	st.assume(alloc >= old.alloc)
	st.heap.alloc = alloc
	newvpos(eng, st, sp, vals, old)
	P = X.View(eng, st, old=old, args=args, result=SNone(), idx=idx)
	isnew, pos = isvalue(P, sp)
	newidx = z3.Function('idx!%d' % next(X._cnt), Int, Int)
	x = z3.Int('x')
	st.assume(X.forall([x], newidx(x) == z3.If(isnew(x), pos(x), idx(x)),
			patterns=[newidx(x)]))
	st.assume(*[f for _, f in case.post(P)])
	for _, f in sp.wf(st.heap, newidx):
		st.assume(f)
	st.ghost['idx'] = newidx
	yield st, me


def newvpos(eng, st, sp, vals, old):
	"""Ghost function for the position of a node among distinct values."""
	st.ghost['vpos'] = vpos = z3.Function('vpos!%d' % next(X._cnt), Int, Int)
	P = X.View(eng, st, old=old)
	cnt, arr = listof(P, vals, old)
	j = z3.Int('j')
	st.assume(X.forall([j], z3.Implies(z3.And(0 <= j, j < cnt, sp.istree(
			arr[j])), vpos(V.ref(arr[j])) == j), patterns=[arr[j]]))


def unowned(eng, st, sp, vals, name):
	"""A list of values is not the list of children of some node."""
	if isinstance(vals, SRef):
		n = z3.Int('n')
		eng.oblige(st, 'call of %s: the list is not shared' % name,
				X.forall([n], z3.Implies(sp.node(st.heap, n),
				sp.kids(st.heap, n) != vals.e)))


def c_extend():
	def setup(eng, st):
		sp, me = start(eng, st)
		return [me, values(eng, st, sp)], {}

	def post(P):
		return extendview(P, P.args[1].n)

	def failed(P):
		k = P.st.ghost['iteration %s.extend loop 0' % PT]
		return [x for x in extendview(P, k)]
	return Contract('%s:%s.extend' % (TREE, PT), [Case('', setup, post,
			raises=dict(ValueError=failed, TypeError=failed))])


def c_parent_index():
	def setup(eng, st):
		sp, me = start(eng, st)
		return [me], {}

	def post(P):
		me = P.args[0].e
		par = P.old['_parent'][me]
		r = toV(P.result)
		return unchanged(P) + [('position in parent', r == z3.If(
				V.is_none(par), V.none, V.vint(idx_of(P)(me))))]
	return Contract('%s:%s._get_parent_index' % (TREE, PT), [Case('', setup,
			post)])


def use_parent_index(eng, st, args, kwargs):
	sp = Spec(eng)
	idx = st.ghost.get('idx', IDX0)
	me = args[0].e
	for nm, f in sp.wf(st.heap, idx):
		eng.oblige(st, 'call of parent_index: %s' % nm, f)
	for s, none in eng.split(st, V.is_none(st.heap['_parent'][me])):
		yield s, SNone() if none else SInt(idx(me))


def sibling(name, delta):
	def make():
		def setup(eng, st):
			sp, me = start(eng, st)
			return [me], {}

		def post(P):
			sp = Spec(P.eng)
			me = P.args[0].e
			par = P.old['_parent'][me]
			l = sp.kids(P.old, V.ref(par))
			k = IDX0(me) + delta
			has = z3.And(z3.Not(V.is_none(par)), 0 <= k,
					k < P.old['llen'][l])
			return unchanged(P) + [('the sibling', toV(P.result) == z3.If(has,
					P.old['lget'][l][k], V.none))]
		return Contract('%s:%s.%s' % (TREE, PT, name), [Case('', setup,
				post)])
	return make


def c_root():
	def setup(eng, st):
		sp, me = start(eng, st)
		return [me], {}

	def post(P):
		sp = Spec(P.eng)
		r = toV(P.result)
		return unchanged(P) + [('is a node', z3.And(V.is_vref(r), sp.node(
				P.old, V.ref(r)))), ('has no parent', V.is_none(
				P.old['_parent'][V.ref(r)])),
				('is an ancestor or self', ANC(V.ref(r), P.args[0].e))]
	n, m, k = z3.Ints('n m k')
	h = z3.Const('h__parent', X.fieldsort('_parent'))
	return Contract('%s:%s._get_root' % (TREE, PT), [Case('', setup, post,
			axioms=[X.forall([n], ANC(n, n), patterns=[ANC(n, n)]),
			X.forall([n, m], z3.Implies(z3.And(ANC(n, m), V.is_vref(h[n])),
				ANC(V.ref(h[n]), m)), patterns=[z3.MultiPattern(ANC(n, m),
				h[n])])])])


ANC = z3.Function('ancestor', Int, Int, Bool)


def rootloop(S):
	sp = Spec(S.eng)
	n = S.ref('node')
	return [('is a node', sp.node(S.h, n)),
		('is an ancestor', ANC(n, S.args[0].e))]


LOOPS[PT + '._get_root', 0] = LoopSpec(rootloop, kinds=dict(node=PT))


def atparent(P, args=()):
	"""View of the same states, with the parent as receiver."""
	par = P.name(V.ref(P.old['_parent'][P.args[0].e]), 'par')
	Q = X.View(P.eng, P.st, old=P.old, args=[SRef(par, PT)] + list(args),
			result=P.result)
	for a in ('idx', 'newidx'):
		if getattr(P, a, None) is not None:
			setattr(Q, a, getattr(P, a))
	return Q


def guarded(cond, pairs):
	return [(nm, z3.Implies(cond, f)) for nm, f in pairs]


def c_detach():
	def setup(eng, st):
		sp, me = start(eng, st)
		return [me], {}

	def post(P):
		me = P.args[0].e
		root = V.is_none(P.old['_parent'][me])
		k = P.name(idx_of(P)(me), 'k')
		Q = atparent(P)
		if getattr(P, 'newidx', None) is not None:
			# used at calls for nodes with a parent only
			P.eng.oblige(P.st, 'call of detach: has a parent', z3.Not(root))
		return guarded(root, unchanged(P)) + guarded(z3.Not(root),
				removedone(Q, k)) + [('returns self',
				toV(P.result) == V.vref(me)), ('has no parent now',
				V.is_none(P.h['_parent'][me]))]
	return Contract('%s:%s.detach' % (TREE, PT), [Case('', setup, post)])


def c_disown():
	def setup(eng, st):
		sp, me = start(eng, st)
		return [me], {}

	def post(P):
		sp = Spec(P.eng)
		n0, a0, n1, a1 = mylist(P, sp)
		j, n = z3.Ints('j n')
		r = P.result.e
		return spliced(P, z3.IntVal(0), n0, z3.IntVal(0), lambda j: V.none,
				NONE) + [
			('returns the children', z3.And(P.h['llen'][r] == n0, X.forall(
				[j], z3.Implies(z3.And(0 <= j, j < n0),
				P.h['lget'][r][j] == a0[j]),
				patterns=[P.h['lget'][r][j]]))),
			('in a new list', z3.And(r >= P.old.alloc, r < P.h.alloc)),
			('which no node shares', X.forall([n], z3.Implies(sp.node(P.h, n),
				sp.kids(P.h, n) != r), patterns=[P.h['children'][n]]))]
	return Contract('%s:%s.disown' % (TREE, PT), [Case('', setup, post)])


def hasparent(eng, st, me):
	"""Precondition: the node has a parent and is not its own parent."""
	st.assume(z3.Not(V.is_none(st.heap['_parent'][me.e])),
			st.heap['_parent'][me.e] != V.vref(me.e))


def c_prune():
	def setup(eng, st):
		sp, me = start(eng, st)
		hasparent(eng, st, me)
		return [me], {}

	def post(P):
		sp = Spec(P.eng)
		me = P.args[0].e
		n0, a0, n1, a1 = mylist(P, sp)
		par = P.name(V.ref(P.old['_parent'][me]), 'par')
		pl = sp.kids(P.old, par)
		i = P.name(IDX0(me), 'i')
		pn, pa = P.old['llen'][pl], P.old['lget'][pl]
		qn, qa = P.h['llen'][pl], P.h['lget'][pl]
		j, n = z3.Ints('j n')
		idx = P.st.ghost.get('idx', IDX0)
		return sp.wf(P.h, idx) + [
			('self has no parent', V.is_none(P.h['_parent'][me])),
			('self has no children', n1 == 0),
			('number of children of parent', qn == pn - 1 + n0),
			('children before', X.forall([j], z3.Implies(z3.And(0 <= j,
				j < i), qa[j] == pa[j]))),
			('own children in place of self', X.forall([j], z3.Implies(z3.And(
				i <= j, j < i + n0), qa[j] == a0[j - i]))),
			('children after', X.forall([j], z3.Implies(z3.And(i + n0 <= j,
				j < qn), qa[j] == pa[j + 1 - n0]))),
			('other lists of children are kept', X.forall([n], z3.Implies(
				z3.And(sp.node(P.old, n), n != me, n != par), z3.And(
				P.h['llen'][sp.kids(P.old, n)]
				== P.old['llen'][sp.kids(P.old, n)],
				P.h['lget'][sp.kids(P.old, n)]
				== P.old['lget'][sp.kids(P.old, n)])))),
			]
	return Contract('%s:%s.prune' % (TREE, PT), [Case('', setup, post)])


def c_spliceabove():
	def setup(eng, st):
		sp, me = start(eng, st)
		hasparent(eng, st, me)
		return [me, SDyn(z3.Const('newlabel', V))], {}

	def post(P):
		sp = Spec(P.eng)
		me = P.args[0].e
		par = P.name(V.ref(P.old['_parent'][me]), 'par')
		pl = sp.kids(P.old, par)
		i = P.name(IDX0(me), 'i')
		pn, pa = P.old['llen'][pl], P.old['lget'][pl]
		qn, qa = P.h['llen'][pl], P.h['lget'][pl]
		j, n = z3.Ints('j n')
		new = V.ref(toV(P.result))
		nl = sp.kids(P.h, new)
		idx = P.st.ghost.get('idx', IDX0)
		return sp.wf(P.h, idx) + [
			('returns a new node', z3.And(V.is_vref(toV(P.result)), sp.node(
				P.h, new), new >= P.old.alloc)),
			('with the label', P.h['label'][new] == P.args[1].e),
			('whose only child is self', z3.And(P.h['llen'][nl] == 1,
				P.h['lget'][nl][0] == V.vref(me))),
			('it takes the place of self', z3.And(qn == pn, qa[i]
				== V.vref(new))),
			('siblings are kept', X.forall([j], z3.Implies(z3.And(0 <= j,
				j < pn, j != i), qa[j] == pa[j]))),
			('other lists of children are kept', X.forall([n], z3.Implies(
				z3.And(sp.node(P.old, n), n != par), z3.And(
				P.h['llen'][sp.kids(P.old, n)]
				== P.old['llen'][sp.kids(P.old, n)],
				P.h['lget'][sp.kids(P.old, n)]
				== P.old['lget'][sp.kids(P.old, n)])))),
			]
	return Contract('%s:%s.spliceabove' % (TREE, PT), [Case('', setup,
			post)])


def c_splicebelow():
	def setup(eng, st):
		sp, me = start(eng, st)
		return [me, SDyn(z3.Const('newlabel', V))], {}

	def post(P):
		sp = Spec(P.eng)
		me = P.args[0].e
		n0, a0, n1, a1 = mylist(P, sp)
		j, n = z3.Ints('j n')
		new = V.ref(toV(P.result))
		nl = sp.kids(P.h, new)
		idx = P.st.ghost.get('idx', IDX0)
		return sp.wf(P.h, idx) + [
			('returns a new node', z3.And(V.is_vref(toV(P.result)), sp.node(
				P.h, new), new >= P.old.alloc)),
			('with the label', P.h['label'][new] == P.args[1].e),
			('which is the only child', z3.And(n1 == 1, a1[0]
				== V.vref(new))),
			('it has the former children', z3.And(P.h['llen'][nl] == n0,
				X.forall([j], z3.Implies(z3.And(0 <= j, j < n0),
				P.h['lget'][nl][j] == a0[j])))),
			('self keeps its parent', z3.Implies(P.old['_parent'][me]
				!= V.vref(me), P.h['_parent'][me] == P.old['_parent'][me])),
			('other lists of children are kept', X.forall([n], z3.Implies(
				z3.And(sp.node(P.old, n), n != me), z3.And(
				P.h['llen'][sp.kids(P.old, n)]
				== P.old['llen'][sp.kids(P.old, n)],
				P.h['lget'][sp.kids(P.old, n)]
				== P.old['lget'][sp.kids(P.old, n)])))),
			]
	return Contract('%s:%s.splicebelow' % (TREE, PT), [Case('', setup,
			post)])


# --- contracts used at call sites -------------------------------------------
def use(make, nargs, retkind=None, fresh_list=False, self_kind=PT):
	"""Turn a contract into a callee summary.

	The precondition (well-formed heap) is an obligation at the call; the
	outcome is any state that satisfies the postcondition."""
	def callee(eng, st, args, kwargs):
		contract = make()
		args = list(args)
		sp = Spec(eng)
		name = contract.qual
		idx = st.ghost.get('idx', IDX0)
		for nm, f in sp.wf(st.heap, idx):
			eng.oblige(st, 'call of %s: %s' % (name, nm), f)
		if isinstance(args[0], SDyn):
			raise vc.Unsupported('receiver')
		eng.oblige(st, 'call of %s: receiver is a node' % name, sp.node(
				st.heap, args[0].e))
		case = pick(contract, args)
		if case.name == 'slice' and len(args) > 2:
			unowned(eng, st, sp, args[2], name)
		old = st.heap.copy()
		for exc, post in sorted(case.raises.items()):
			s = st.fork()
			P = X.View(eng, s, old=old, args=args, result=None, idx=idx)
			s.assume(*[f for _, f in post(P)])
			if X.feasible(s):
				yield s, X.Exc(exc, 'from %s' % name)
		s = st
		for f in ('lget', 'llen', '_parent'):
			s.heap[f] = fresh(X.fieldsort(f), 'h_' + f)
		alloc = fresh(Int, 'alloc')
		s.assume(alloc >= old.alloc)
		s.heap.alloc = alloc
		newidx = z3.Function('idx!%d' % next(X._cnt), Int, Int)
		res = SNone()
		if retkind == 'dyn':
			res = SDyn(fresh(V, 'result'))
		elif retkind == 'list':
			res = SRef(fresh(Int, 'result'), 'list')
			s.assume(res.e > 0, res.e < alloc)
		P = X.View(eng, s, old=old, args=args, result=res, idx=idx,
				newidx=newidx)
		if name.endswith('__setitem__') and case.name == 'slice':
			newvpos(eng, s, sp, args[-1], old)
		s.assume(*[f for _, f in case.post(P)])
		s.ghost['idx'] = newidx
		yield s, res
	return callee


def pick(contract, args):
	"""The case of a contract that applies to arguments."""
	for case in contract.cases:
		if case.name == 'slice' and isinstance(args[1], SSlice):
			return case
		if case.name == 'index' and isinstance(args[1], (SInt, SDyn)):
			return case
		if case.name in ('', 'last'):
			return case
	raise vc.Unsupported('no case of contract %s' % contract.name)


CONTRACTS = [c_slice_bounds, c_append, c_insert, c_pop, c_delitem, c_remove,
	c_setitem, c_init, c_extend, c_parent_index,
	sibling('_get_left_sibling', -1), sibling('_get_right_sibling', 1),
	c_root, c_detach, c_disown, c_prune, c_spliceabove, c_splicebelow]
