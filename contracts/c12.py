"""Contracts of PyAgenda and Entry (discodop/util.py).

Representation invariant of an agenda, with H its heap list and M its mapping:

- heap: the elements of H are distinct entries (ghost hpos gives the position
  of an entry), no element is smaller than its parent, nor than the first;
- A1: for each key k of M, M[k] is a valid entry of H with key k, whose count
  is less than counter; counts of different keys are different;
- A2: each valid entry of H is the entry in M of its key;
- A3: length is the number of keys of M; counter is positive.

Abstract state: the keys of M, with the value and the count of M[key]; the
count gives the order in which keys were inserted.

The functions of heapq are used through contracts (trusted: C code): given a
heap, the result is a heap with the element added or the first one removed.
"""
import z3
from pv import vc, pyexec as X
from pv.pyexec import (V, Int, Bool, SInt, SDyn, SRef, SNone, STup, SSeq,
		SReal, Case, Contract, LoopSpec, Engine, fresh, toV)

UTIL = 'discodop/util.py'
CLASSES = {'Entry': [(UTIL, 'Entry')], 'PyAgenda': [(UTIL, 'PyAgenda')]}
ATTRS = {('Entry', 'key'): 'dyn', ('Entry', 'value'): 'dyn',
	('Entry', 'count'): 'int', ('Entry', 'valid'): 'bool',
	('PyAgenda', 'counter'): 'int', ('PyAgenda', 'length'): 'int',
	('PyAgenda', 'heap'): 'list', ('PyAgenda', 'mapping'): 'dict'}
# values are totally ordered: rank is an order-preserving embedding of the
# values in the real numbers
RANK = z3.Function('rank', V, z3.RealSort())


def lessval(a, b):
	return RANK(a) < RANK(b)


def valueorder(eng, st):
	"""Axiom: values of equal rank are those that are equal."""
	from pv import pylib
	a, b = z3.Consts('a b', V)
	return X.forall([a, b], (RANK(a) == RANK(b)) == pylib.valeq(eng, st, a,
			b), patterns=[z3.MultiPattern(RANK(a), RANK(b))])


class Spec(object):
	def __init__(self, eng):
		self.entry = eng.classid('Entry')
		self.list, self.dict = eng.classid('list'), eng.classid('dict')
		self.agenda = eng.classid('PyAgenda')

	def lt(self, h, a, b):
		"""Entry a is less than entry b (refs)."""
		va, vb = h['value'][a], h['value'][b]
		return z3.Or(RANK(va) < RANK(vb), z3.And(RANK(va) == RANK(vb),
				V.i(h['count'][a]) < V.i(h['count'][b])))

	def heap(self, me, h):
		return V.ref(h['heap'][me])

	def map(self, me, h):
		return V.ref(h['mapping'][me])

	def isentry(self, h, e):
		return z3.And(V.is_vref(e), 0 < V.ref(e), V.ref(e) < h.alloc,
				X.clsof(V.ref(e)) == self.entry)

	def inheap(self, h, l, e):
		"""The entry e (ref) is an element of list l."""
		k = h['hpos'][e]
		return z3.And(0 <= k, k < h['llen'][l], h['lget'][l][k] == V.vref(e))

	def wfheap(self, h, l, ordered=True):
		i = z3.Int('i')
		x = h['lget'][l][i]
		rng = z3.And(0 <= i, i < h['llen'][l])
		p = h['lget'][l][(i - 1) / 2]
		res = [('elements of the heap are distinct entries', X.forall([i],
				z3.Implies(rng, z3.And(self.isentry(h, x), h['hpos'][V.ref(x)]
				== i)), patterns=[x])),
			('length of heap', h['llen'][l] >= 0)]
		if ordered:
			res += [('no element of the heap is less than its parent',
				X.forall([i], z3.Implies(z3.And(rng, i >= 1), z3.Not(self.lt(
				h, V.ref(x), V.ref(p)))), patterns=[x])),
			('the first element of the heap is minimal', X.forall([i],
				z3.Implies(rng, z3.Not(self.lt(h, V.ref(x), V.ref(
				h['lget'][l][0])))), patterns=[x]))]
		return res

	def wf(self, me, h, ordered=True):
		l, m = self.heap(me, h), self.map(me, h)
		k, k2 = z3.Consts('k k2', V)
		i = z3.Int('i')
		x = h['lget'][l][i]
		e, e2 = h['dmap'][m][k], h['dmap'][m][k2]
		dom = h['ddom'][m]
		return [('heap and mapping are objects', z3.And(V.is_vref(
				h['heap'][me]), V.is_vref(h['mapping'][me]), 0 < l,
				l < h.alloc, X.clsof(l) == self.list, 0 < m, m < h.alloc,
				X.clsof(m) == self.dict, V.is_vint(h['counter'][me]),
				V.is_vint(h['length'][me]))),
			] + self.wfheap(h, l, ordered) + [
			('A1: entry of a key', X.forall([k], z3.Implies(dom[k], z3.And(
				self.isentry(h, e), h['key'][V.ref(e)] == k,
				h['valid'][V.ref(e)] == V.vbool(True), self.inheap(h, l,
				V.ref(e)), V.is_vint(h['count'][V.ref(e)]),
				V.i(h['count'][V.ref(e)]) < V.i(h['counter'][me]),
				1 <= V.i(h['count'][V.ref(e)]))), patterns=[dom[k], e])),
			('A1: counts are different', X.forall([k, k2], z3.Implies(z3.And(
				dom[k], dom[k2], V.i(h['count'][V.ref(e)])
				== V.i(h['count'][V.ref(e2)])), k == k2),
				patterns=[z3.MultiPattern(e, e2)])),
			('A2: a valid entry is the entry of its key', X.forall([i],
				z3.Implies(z3.And(0 <= i, i < h['llen'][l],
				h['valid'][V.ref(x)] == V.vbool(True)), z3.And(
				dom[h['key'][V.ref(x)]], h['dmap'][m][h['key'][V.ref(x)]]
				== x)), patterns=[x])),
			('A2: valid is a boolean', X.forall([i], z3.Implies(z3.And(
				0 <= i, i < h['llen'][l]), V.is_vbool(h['valid'][V.ref(x)])),
				patterns=[x])),
			('A3: length is the number of keys', V.i(h['length'][me])
				== h['dsize'][m]),
			('A3: counter is positive', V.i(h['counter'][me]) >= 1)]

	# abstract state
	def has(self, me, h, k):
		return h['ddom'][self.map(me, h)][k]

	def ent(self, me, h, k):
		return V.ref(h['dmap'][self.map(me, h)][k])

	def val(self, me, h, k):
		return h['value'][self.ent(me, h, k)]

	def cnt(self, me, h, k):
		return V.i(h['count'][self.ent(me, h, k)])


def start(eng, st):
	sp = Spec(eng)
	me = z3.Const('self', Int)
	st.assume(0 < me, me < st.heap.alloc, X.clsof(me) == sp.agenda)
	for _, f in sp.wf(me, st.heap):
		st.assume(f)
	st.assume(valueorder(eng, st))
	return sp, SRef(me, 'PyAgenda')


def frame(P, me):
	"""Objects of other agendas do not change."""
	sp = Spec(P.eng)
	h, o = P.h, P.old
	n = z3.Int('n')
	return [('other agendas, lists and mappings are unchanged', X.forall([n],
			z3.Implies(z3.And(0 < n, n < o.alloc), z3.And(
			z3.Or(n == sp.heap(me, o), z3.And(h['llen'][n] == o['llen'][n],
			h['lget'][n] == o['lget'][n])),
			z3.Or(n == sp.map(me, o), z3.And(h['ddom'][n] == o['ddom'][n],
			h['dmap'][n] == o['dmap'][n], h['dsize'][n] == o['dsize'][n])),
			z3.Or(n == me, z3.And(h['length'][n] == o['length'][n],
			h['counter'][n] == o['counter'][n], h['heap'][n] == o['heap'][n],
			h['mapping'][n] == o['mapping'][n])),
			h['key'][n] == o['key'][n], h['value'][n] == o['value'][n],
			h['count'][n] == o['count'][n],
			z3.Or(h['valid'][n] == o['valid'][n], z3.And(sp.has(me, o,
			o['key'][n]), sp.ent(me, o, o['key'][n]) == n))))))]


def same(P, me, but=None):
	"""Keys, values and counts are as before, except for key but."""
	sp = Spec(P.eng)
	k = z3.Const('k', V)
	o, h = P.old, P.h
	other = z3.BoolVal(True) if but is None else k != but
	return [('other keys are kept', X.forall([k], z3.Implies(other, sp.has(me,
			h, k) == sp.has(me, o, k)))),
		('priorities of other keys are kept', X.forall([k], z3.Implies(z3.And(
			other, sp.has(me, o, k)), z3.And(sp.val(me, h, k) == sp.val(me, o,
			k), sp.cnt(me, h, k) == sp.cnt(me, o, k)))))]


def best(P, me, key):
	"""The key has the best priority; first inserted among equals."""
	sp = Spec(P.eng)
	k = z3.Const('k', V)
	o = P.old
	return [('is a key', sp.has(me, o, key)),
		('minimal priority, first inserted first', X.forall([k], z3.Implies(
			z3.And(sp.has(me, o, k), k != key), z3.Or(RANK(sp.val(me, o, key))
			< RANK(sp.val(me, o, k)), z3.And(RANK(sp.val(me, o, key))
			== RANK(sp.val(me, o, k)), sp.cnt(me, o, key)
			< sp.cnt(me, o, k))))))]


def empty(P):
	sp = Spec(P.eng)
	me = P.args[0].e
	k = z3.Const('k', V)
	return sp.wf(me, P.h) + same(P, me) + frame(P, me) + [
			('the agenda was empty', X.forall([k], z3.Not(sp.has(me, P.old,
			k))))]


def method(name, setup, post, raises=None, loops=None):
	return Contract('%s:PyAgenda.%s' % (UTIL, name), [Case('', setup, post,
			raises=raises)])


def c_lt():
	def setup(eng, st):
		sp = Spec(eng)
		res = []
		for n in ('self', 'b'):
			e = z3.Const(n, Int)
			st.assume(0 < e, e < st.heap.alloc, X.clsof(e) == sp.entry)
			res.append(SRef(e, 'Entry'))
		st.assume(valueorder(eng, st))
		return res, {}

	def post(P):
		sp = Spec(P.eng)
		a, b = P.args
		r = P.result
		goal = r.e if isinstance(r, X.SBool) else (V.b(r.e) if isinstance(
				r, SDyn) else None)
		if goal is None:
			raise vc.Unsupported('result of __lt__')
		return [('order by value, then by count', goal == sp.lt(P.old, a.e,
				b.e))] + [('nothing changes: %s' % f, P.h[f] == P.old[f])
				for f in ('value', 'count', 'valid', 'key')]
	return Contract('%s:Entry.__lt__' % UTIL, [Case('', setup, post)])


def c_entry():
	def setup(eng, st):
		sp = Spec(eng)
		e = z3.Const('self', Int)
		st.assume(0 < e, e < st.heap.alloc, X.clsof(e) == sp.entry)
		return [SRef(e, 'Entry'), SDyn(z3.Const('key', V)),
				SDyn(z3.Const('value', V)), SInt(z3.Const('count', Int))], {}

	def post(P):
		e = P.args[0].e
		return [('key', P.h['key'][e] == P.args[1].e), ('value',
			P.h['value'][e] == P.args[2].e), ('count', P.h['count'][e]
			== V.vint(P.args[3].e)), ('valid', P.h['valid'][e]
			== V.vbool(True))]
	return Contract('%s:Entry.__init__' % UTIL, [Case('', setup, post)])


def c_setitem():
	def setup(eng, st):
		sp, me = start(eng, st)
		return [me, SDyn(z3.Const('key', V)), SDyn(z3.Const('value', V))], {}

	def post(P):
		sp = Spec(P.eng)
		me, key, value = P.args[0].e, P.args[1].e, P.args[2].e
		k = z3.Const('k', V)
		old = sp.has(me, P.old, key)
		return sp.wf(me, P.h) + same(P, me, key) + frame(P, me) + [
			('the key has the value', z3.And(sp.has(me, P.h, key),
				sp.val(me, P.h, key) == value)),
			('an existing key keeps its place', z3.Implies(old, sp.cnt(me,
				P.h, key) == sp.cnt(me, P.old, key))),
			('a new key comes last', z3.Implies(z3.Not(old), X.forall([k],
				z3.Implies(z3.And(sp.has(me, P.old, k)), sp.cnt(me, P.h, k)
				< sp.cnt(me, P.h, key)))))]
	return method('__setitem__', setup, post)


def removed(P, me, key):
	sp = Spec(P.eng)
	return sp.wf(me, P.h) + same(P, me, key) + frame(P, me) + [
			('the key is removed', z3.Not(sp.has(me, P.h, key)))]


def missing(P):
	sp = Spec(P.eng)
	me, key = P.args[0].e, P.args[1].e
	return sp.wf(me, P.h) + same(P, me) + frame(P, me) + [
			('not a key', z3.Not(sp.has(me, P.old, key)))]


def keyarg(eng, st):
	sp, me = start(eng, st)
	return [me, SDyn(z3.Const('key', V))], {}


def c_delitem():
	def post(P):
		sp = Spec(P.eng)
		me, key = P.args[0].e, P.args[1].e
		return removed(P, me, key) + [('was a key', sp.has(me, P.old, key))]
	return method('__delitem__', keyarg, post, dict(KeyError=missing))


def c_getitem():
	def post(P):
		sp = Spec(P.eng)
		me, key = P.args[0].e, P.args[1].e
		return sp.wf(me, P.h) + same(P, me) + frame(P, me) + [
			('was a key', sp.has(me, P.old, key)),
			('returns the value', toV(P.result) == sp.val(me, P.old, key))]
	return method('__getitem__', keyarg, post, dict(KeyError=missing))


def c_contains():
	def post(P):
		sp = Spec(P.eng)
		me, key = P.args[0].e, P.args[1].e
		return sp.wf(me, P.h) + same(P, me) + frame(P, me) + [
			('whether it is a key', P.result.e == sp.has(me, P.old, key))]
	return method('__contains__', keyarg, post)


def c_pop():
	def setup(eng, st):
		args, _ = keyarg(eng, st)
		st.assume(args[1].e != V.none)
		return args, {}

	def setup0(eng, st):
		sp, me = start(eng, st)
		return [me, SNone()], {}

	def post(P):
		sp = Spec(P.eng)
		me, key = P.args[0].e, P.args[1].e
		return removed(P, me, key) + [('was a key', sp.has(me, P.old, key)),
				('returns its value', toV(P.result) == sp.val(me, P.old,
				key))]

	def post0(P):
		return popped(P, key=None, value=toV(P.result))
	return Contract('%s:PyAgenda.pop' % UTIL, [
		Case('key', setup, post, raises=dict(KeyError=missing)),
		Case('None', setup0, post0, raises=dict(IndexError=empty))])


def popped(P, key, value):
	"""Some best key was removed, this is its value."""
	sp = Spec(P.eng)
	me = P.args[0].e
	if key is None:
		# ghost: the key that popitem() returned
		key = P.st.ghost.get('popped key')
		if key is None:
			raise vc.Unsupported('pop(None) does not call popitem()')
	key = P.name(key, 'key')
	return removed(P, me, key) + best(P, me, key) + [('returns its value',
			value == sp.val(me, P.old, key))]


def c_popitem():
	def setup(eng, st):
		sp, me = start(eng, st)
		return [me], {}

	def post(P):
		return popped(P, toV(P.result.items[0]), toV(P.result.items[1]))
	return method('popitem', setup, post, dict(IndexError=empty))


def use_popitem(eng, st, args, kwargs):
	"""Contract of popitem() at a call site."""
	sp = Spec(eng)
	me = args[0]
	for nm, f in sp.wf(me.e, st.heap):
		eng.oblige(st, 'call of popitem: %s' % nm, f)
	old = st.heap.copy()
	for f in ('lget', 'llen', 'hpos', 'valid', 'ddom', 'dmap', 'dsize',
			'length'):
		st.heap[f] = fresh(X.fieldsort(f), 'h_' + f)
	s = st.fork()
	P = X.View(eng, s, old=old, args=[me], result=None)
	s.assume(*[f for _, f in empty(P)])
	if X.feasible(s):
		yield s, X.Exc('IndexError', 'popitem')
	key, value = fresh(V, 'key'), fresh(V, 'value')
	res = STup([SDyn(key), SDyn(value)])
	P = X.View(eng, st, old=old, args=[me], result=res)
	st.assume(*[f for _, f in popped(P, key, value)])
	st.ghost['popped key'] = key
	yield st, res


def c_peekitem():
	def setup(eng, st):
		sp, me = start(eng, st)
		return [me], {}

	def post(P):
		sp = Spec(P.eng)
		me = P.args[0].e
		key, value = [toV(x) for x in P.result.items]
		return sp.wf(me, P.h) + same(P, me) + frame(P, me) + best(P, me,
				key) + [('returns its value', value == sp.val(me, P.old,
				key))]
	return method('peekitem', setup, post, dict(IndexError=empty))


def c_clear():
	def setup(eng, st):
		sp, me = start(eng, st)
		return [me], {}

	def post(P):
		sp = Spec(P.eng)
		me = P.args[0].e
		k = z3.Const('k', V)
		return sp.wf(me, P.h) + [('no keys', X.forall([k], z3.Not(
				sp.has(me, P.h, k))))]
	return method('clear', setup, post)


def c_len():
	def setup(eng, st):
		sp, me = start(eng, st)
		return [me], {}

	def post(P):
		sp = Spec(P.eng)
		me = P.args[0].e
		return sp.wf(me, P.h) + same(P, me) + [('number of keys',
				P.eng_int(P.result) == P.old['dsize'][sp.map(me, P.old)])]
	return method('__len__', setup, post)


def c_bool():
	def setup(eng, st):
		sp, me = start(eng, st)
		return [me], {}

	def post(P):
		sp = Spec(P.eng)
		me = P.args[0].e
		return sp.wf(me, P.h) + same(P, me) + [('whether there are keys',
				P.result.e == (P.old['dsize'][sp.map(me, P.old)] != 0))]
	return method('__bool__', setup, post)


def dictorder(P, me):
	from pv import pylib
	return pylib.dictkeys(P.eng, P.st, Spec(P.eng).map(me, P.h))


def seqresult(P, want, name):
	"""The result is a sequence with want(j) as the j-th item."""
	sp = Spec(P.eng)
	me = P.args[0].e
	n, keys = dictorder(P, me)
	j = z3.Int('j')
	r = P.result
	if isinstance(r, SRef) and r.cls == 'list':
		cnt, get = P.h['llen'][r.e], lambda j: P.h['lget'][r.e][j]
	else:
		cnt, get = P.eng.itercount(r, P.st), lambda j: toV(P.eng.iterget(r, j,
				P.st))
	return sp.wf(me, P.h) + same(P, me) + frame(P, me) + [
		('one item for each key', cnt == n), (name, X.forall([j], z3.Implies(
			z3.And(0 <= j, j < n), get(j) == want(sp, me, keys[j]))))]


def listing(meth, want, name):
	def make():
		def setup(eng, st):
			sp, me = start(eng, st)
			return [me], {}

		def post(P):
			return seqresult(P, lambda sp, me, k: want(P, sp, me, k), name)
		return method(meth, setup, post)
	return make


c_keys = listing('keys', lambda P, sp, me, k: k, 'the keys')
c_iter = listing('__iter__', lambda P, sp, me, k: k, 'the keys')
c_values = listing('values', lambda P, sp, me, k: sp.val(me, P.old, k),
		'the values in the order of the keys')
c_items = listing('items', lambda P, sp, me, k: V.vcons(k, V.vcons(sp.val(me,
		P.old, k), V.vnil)), 'pairs of key and value')


# --- construction -------------------------------------------------------------
PAIRS = z3.Const('pairs', z3.ArraySort(Int, V)), z3.Const('priorities',
		z3.ArraySort(Int, V))
NPAIRS = z3.Const('npairs', Int)
FIRST = z3.Function('firstpos', V, Int)
LAST = z3.Function('lastpos', V, Int, Int)


def pairs(st):
	"""A sequence of (key, value) pairs; FIRST(key) is the first position of
	a key, LAST(key, i) is its last position before i, or -1."""
	keys, vals = PAIRS
	j, k = z3.Int('j'), z3.Const('k', V)
	st.assume(NPAIRS >= 0, X.forall([j], z3.Implies(z3.And(0 <= j,
			j < NPAIRS), z3.And(0 <= FIRST(keys[j]), FIRST(keys[j]) <= j,
			keys[FIRST(keys[j])] == keys[j])), patterns=[keys[j]]),
			X.forall([k], LAST(k, 0) == -1, patterns=[LAST(k, 0)]),
			X.forall([k, j], z3.Implies(j >= 0, LAST(k, j + 1) == z3.If(
			keys[j] == k, j, LAST(k, j))), patterns=[LAST(k, j + 1)]))
	return SSeq(NPAIRS, lambda j: STup([SDyn(keys[j]), SDyn(vals[j])]))


def occurs(k, i):
	keys, _ = PAIRS
	return z3.And(0 <= FIRST(k), FIRST(k) < i, keys[FIRST(k)] == k)


def built(S, i):
	"""State after i pairs."""
	sp = Spec(S.eng)
	me = S.args[0].e
	keys, vals = PAIRS
	h = S.h
	k, k2 = z3.Consts('k k2', V)
	j = z3.Int('j')
	return [
		('keys', X.forall([k], sp.has(me, h, k) == occurs(k, i),
			patterns=[sp.has(me, h, k)])),
		('order of insertion', X.forall([k, k2], z3.Implies(z3.And(sp.has(me,
			h, k), sp.has(me, h, k2), FIRST(k) < FIRST(k2)), sp.cnt(me, h, k)
			< sp.cnt(me, h, k2)), patterns=[z3.MultiPattern(sp.ent(me, h, k),
			sp.ent(me, h, k2))])),
		('value is the best', X.forall([j], z3.Implies(z3.And(0 <= j, j < i),
			RANK(sp.val(me, h, keys[j])) <= RANK(vals[j])),
			patterns=[keys[j]])),
		('value is one of those given', X.forall([k], z3.Implies(sp.has(me, h,
			k), z3.Exists([j], z3.And(0 <= j, j < i, keys[j] == k, vals[j]
			== sp.val(me, h, k)))), patterns=[sp.ent(me, h, k)]))]


def newobjects(S):
	sp = Spec(S.eng)
	h, o = S.h, S.old
	me = S.args[0].e
	n = z3.Int('n')
	k = z3.Const('k', V)
	return [('entries are new', X.forall([k], z3.Implies(sp.has(me, h, k),
			sp.ent(me, h, k) >= o.alloc), patterns=[sp.ent(me, h, k)])),
		('heap and mapping are new', z3.And(sp.heap(me, h) >= o.alloc,
			sp.map(me, h) >= o.alloc))] + [('other objects are unchanged: ' + f, X.forall([n], z3.Implies(
			z3.And(0 < n, n < o.alloc, n != me), h[f][n] == o[f][n])))
			for f in ('llen', 'lget', 'ddom', 'dmap', 'dsize', 'length',
			'counter', 'heap', 'mapping', 'key', 'value', 'count',
			'valid')]


def initloop(S):
	sp = Spec(S.eng)
	me = S.args[0].e
	h = S.h
	return [(nm, f) for nm, f in sp.wf(me, h, ordered=False)
			if nm != 'A3: length is the number of keys'] + [
			('counter', V.i(h['counter'][me]) == 1 + h['dsize'][sp.map(me,
			h)])] + built(S, S.i) + newobjects(S)


def c_init():
	def setup(eng, st):
		sp = Spec(eng)
		me = z3.Const('self', Int)
		st.assume(0 < me, me < st.heap.alloc, X.clsof(me) == sp.agenda)
		st.assume(valueorder(eng, st))
		return [SRef(me, 'PyAgenda'), pairs(st)], {}

	def setup0(eng, st):
		args, _ = setup(eng, st)
		return args[:1], {}

	def post(P):
		sp = Spec(P.eng)
		me = P.args[0].e
		n = NPAIRS if len(P.args) > 1 else z3.IntVal(0)
		return sp.wf(me, P.h) + built(P, n) + newobjects(P)
	return Contract('%s:PyAgenda.__init__' % UTIL, [Case('pairs', setup,
			post), Case('empty', setup0, post)])


KW = z3.Const('kw', Int)


def kwkey(S, k, i):
	"""k is one of the first i keys of the dictionary KW."""
	from pv import pylib
	pos = z3.Function('dict_pos', Int, Int, S.old['ddom'].sort().range(), V,
			Int)
	return z3.And(S.old['ddom'][KW][k], pos(KW, S.old['dver'][KW],
			S.old['ddom'][KW], k) < i)


def updated(S, i, j=None):
	"""After i of the pairs, and j of the keyword arguments."""
	sp = Spec(S.eng)
	me = S.args[0].e
	keys, vals = PAIRS
	h, o = S.h, S.old
	k, k2 = z3.Consts('k k2', V)
	last = LAST(k, i)
	iskw = (lambda k: z3.BoolVal(False)) if j is None else (
			lambda k: kwkey(S, k, j))
	given = lambda k: z3.Or(LAST(k, i) >= 0, iskw(k))
	value = z3.If(iskw(k), o['dmap'][KW][k], z3.If(last >= 0, vals[last],
			sp.val(me, o, k)))
	return sp.wf(me, h) + [
		('keys', X.forall([k], sp.has(me, h, k) == z3.Or(sp.has(me, o, k),
			given(k)), patterns=[sp.has(me, h, k)])),
		('last values', X.forall([k], z3.Implies(sp.has(me, h, k), sp.val(me,
			h, k) == value), patterns=[sp.ent(me, h, k)])),
		('existing keys keep their place', X.forall([k], z3.Implies(
			sp.has(me, o, k), sp.cnt(me, h, k) == sp.cnt(me, o, k)),
			patterns=[sp.ent(me, h, k)])),
		('new keys come after them', X.forall([k, k2], z3.Implies(z3.And(
			sp.has(me, o, k), sp.has(me, h, k2), z3.Not(sp.has(me, o, k2))),
			sp.cnt(me, h, k) < sp.cnt(me, h, k2)),
			patterns=[z3.MultiPattern(sp.ent(me, h, k), sp.ent(me, h,
			k2))])),
		('other dictionaries are unchanged', z3.And(h['ddom'][KW]
			== o['ddom'][KW], h['dmap'][KW] == o['dmap'][KW], h['dsize'][KW]
			== o['dsize'][KW], h['dver'][KW] == o['dver'][KW])),
		('agenda has the same mapping', sp.map(me, h) == sp.map(me, o))]


def c_update():
	def setup(eng, st):
		sp, me = start(eng, st)
		st.assume(0 < KW, KW < st.heap.alloc, X.clsof(KW) == sp.dict,
				KW != sp.map(me.e, st.heap))
		return [me, pairs(st)], {'**': SRef(KW, 'dict')}

	def post(P):
		return updated(P, NPAIRS, P.old['dsize'][KW])
	return method('update', setup, post)


# --- heapq --------------------------------------------------------------------
def heaparg(eng, st, args, name, ordered=True):
	l = args[0]
	if not (isinstance(l, SRef) and l.cls == 'list'):
		raise vc.Unsupported('%s of %s' % (name, X.kindof(l)))
	sp = Spec(eng)
	for nm, f in sp.wfheap(st.heap, l.e, ordered):
		eng.oblige(st, 'call of %s: %s' % (name, nm), f)
	return sp, l.e


def newheap(sp, st, l, n, bag):
	"""Any heap with n elements; bag(e, old): whether it contains entry e."""
	old = st.heap.copy()
	h = st.heap
	arr = fresh(z3.ArraySort(Int, V), 'heap')
	h['lget'] = z3.Store(h['lget'], l, arr)
	h['llen'] = z3.Store(h['llen'], l, n)
	h['hpos'] = fresh(X.fieldsort('hpos'), 'hpos')
	for _, f in sp.wfheap(h, l):
		st.assume(f)
	e = z3.Int('e')
	st.assume(X.forall([e], sp.inheap(h, l, e) == bag(e, old),
			patterns=[h['hpos'][e]]))
	st.assume(X.forall([e], z3.Implies(bag(e, old), sp.inheap(h, l, e)),
			patterns=[old['hpos'][e]]))
	return old


def heappush(eng, st, args, kwargs):
	sp, l = heaparg(eng, st, args, 'heappush')
	x = toV(args[1])
	r = V.ref(x)
	eng.oblige(st, 'call of heappush: the element is an entry',
			sp.isentry(st.heap, x))
	eng.oblige(st, 'call of heappush: the element is new', z3.Not(sp.inheap(
			st.heap, l, r)))
	newheap(sp, st, l, st.heap['llen'][l] + 1, lambda e, o: z3.Or(e == r,
			sp.inheap(o, l, e)))
	yield st, SNone()


def heappop(eng, st, args, kwargs):
	sp, l = heaparg(eng, st, args, 'heappop')
	n = st.heap['llen'][l]
	for s, b in eng.split(st, n > 0):
		if not b:
			yield s, X.Exc('IndexError', 'heappop from empty heap')
			continue
		x = eng.loaded(s.heap['lget'][l][0], s)
		r = V.ref(x.e)
		newheap(sp, s, l, n - 1, lambda e, o: z3.And(e != r, sp.inheap(o, l,
				e)))
		yield s, x


def heapify(eng, st, args, kwargs):
	sp, l = heaparg(eng, st, args, 'heapify', ordered=False)
	newheap(sp, st, l, st.heap['llen'][l], lambda e, o: sp.inheap(o, l, e))
	yield st, SNone()


def listappend(eng, st, recv, args, kwargs):
	"""Ghost code: records the position of an appended entry."""
	from pv import pylib
	x = toV(args[0])
	st.heap['hpos'] = z3.Store(st.heap['hpos'], V.ref(x),
			st.heap['llen'][recv.e])
	return pylib.METHODS['list', 'append'](eng, st, recv, args, kwargs)


# --- loops --------------------------------------------------------------------
def popstate(S, entry=None):
	"""During popping of invalid entries; entry is not in the heap."""
	sp = Spec(S.eng)
	me = S.args[0].e
	h, o = S.h, S.old
	l = sp.heap(me, h)
	e, i = z3.Ints('e i')
	k = z3.Const('k', V)
	res = sp.wfheap(h, l)
	x = h['lget'][l][i]
	res.append(('an element was an element', X.forall([i], z3.Implies(z3.And(
			0 <= i, i < h['llen'][l]), sp.inheap(o, l, V.ref(x))),
			patterns=[x])))
	keep = lambda k: (z3.BoolVal(True) if entry is None
			else V.vref(entry) != o['dmap'][sp.map(me, o)][k])
	res.append(('valid entries remain', X.forall([k], z3.Implies(z3.And(
			sp.has(me, o, k), keep(k)), sp.inheap(h, l, sp.ent(me, o, k))),
			patterns=[o['dmap'][sp.map(me, o)][k]])))
	return res


def peekloop(S):
	return popstate(S)


def poploop(S):
	sp = Spec(S.eng)
	me = S.args[0].e
	e = S.ref('entry')
	o, h = S.old, S.h
	l = sp.heap(me, h)
	i = z3.Int('i')
	x = h['lget'][l][i]
	return popstate(S, e) + [
		('entry was an element', z3.And(V.is_vref(S.v('entry')), sp.inheap(o,
			l, e))),
		('entry is no longer an element', z3.Not(sp.inheap(h, l, e))),
		('entry is an entry', sp.isentry(h, S.v('entry'))),
		('entry is minimal', X.forall([i], z3.Implies(z3.And(0 <= i,
			i < h['llen'][l]), z3.Not(sp.lt(h, V.ref(x), e))),
			patterns=[x]))]


ALLF = ['lget', 'llen', 'hpos', 'ddom', 'dmap', 'dsize', 'valid', 'key',
	'value', 'count', 'counter']
LOOPS = {
	('PyAgenda.__init__', 0): LoopSpec(initloop, modifies=ALLF, allocs=True,
		kinds=dict(entry='undef', oldentry='undef', k='undef', v='undef')),
	('PyAgenda.update', 1): LoopSpec(lambda S: updated(S, S.i),
		modifies=ALLF + ['length'], allocs=True,
		kinds=dict(k='undef', v='undef')),
	('PyAgenda.update', 2): LoopSpec(lambda S: updated(S, NPAIRS, S.i),
		modifies=ALLF + ['length'], allocs=True,
		kinds=dict(k='undef', v='undef')),
	('PyAgenda.peekitem', 0): LoopSpec(peekloop, modifies=[
		('lget', lambda S: [Spec(S.eng).heap(S.args[0].e, S.h)]),
		('llen', lambda S: [Spec(S.eng).heap(S.args[0].e, S.h)]), 'hpos']),
	('PyAgenda.popitem', 0): LoopSpec(poploop, modifies=[
		('lget', lambda S: [Spec(S.eng).heap(S.args[0].e, S.h)]),
		('llen', lambda S: [Spec(S.eng).heap(S.args[0].e, S.h)]), 'hpos'],
		kinds=dict(entry='dyn')),
}


def mk(name):
	callees = {'heappush': heappush, 'heappop': heappop, 'heapify': heapify,
			'list.append': listappend}
	if name.endswith('.pop'):
		callees['PyAgenda.popitem'] = use_popitem
	return Engine(classes=CLASSES, attrs=ATTRS, dynclasses=('Entry', ),
			loops=LOOPS, refeq='identity', abstractorder=lessval,
			callees=callees)


CONTRACTS = [c_lt, c_entry, c_setitem, c_delitem, c_getitem, c_contains, c_pop,
	c_popitem, c_peekitem, c_clear, c_len, c_bool, c_keys, c_iter, c_values,
	c_items, c_init, c_update]
