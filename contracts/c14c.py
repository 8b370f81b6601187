"""Contracts of applying head rules and marking modifiers (C14)."""
import z3
from pv import vc, pyexec as X, pylib
from pv.pyexec import (V, Int, Bool, SInt, SDyn, SRef, SNone, STup, SStr, SBool,
		SSeq, SFunc, Case, Contract, LoopSpec, Engine, fresh, toV)

HEADS = 'discodop/heads.py'
TREE = 'discodop/tree.py'
lit = X.strlit
MARK = V.vint(0)
RULES = z3.Const('headrules', V)
NSUBS = z3.Int('nsubtrees')
SUBS = z3.Const('subtrees', z3.ArraySort(Int, V))
SUBIDX = z3.Function('subtreeindex', Int, Int)
PARENT = z3.Function('parentof', Int, Int)
POS = z3.Function('positionof', Int, Int)


class Kids(object):
	"""Children of a node in a given heap."""
	def __init__(self, eng, h, ref):
		self.eng, self.h, self.ref = eng, h, ref
		self.tid, self.lid = eng.classid('Tree'), eng.classid('list')
		self.l = V.ref(h['children'][ref])
		self.len = h['llen'][self.l]

	def kid(self, i):
		return self.h['lget'][self.l][i]

	def inr(self, i):
		return z3.And(0 <= i, i < self.len)

	def isobj(self, v, cls):
		r = V.ref(v)
		return z3.And(V.is_vref(v), 0 < r, r < self.h.alloc, X.clsof(r)
				== cls)

	def isphrase(self):
		return z3.And(self.len > 0, self.isobj(self.kid(0), self.tid))

	def base(self):
		"""A node has a list of children: a word, or other nodes, which have
		no other parent and occur once."""
		i = z3.Int('i')
		k = self.kid(i)
		return [self.isobj(V.vref(self.ref), self.tid), self.isobj(self.h[
			'children'][self.ref], self.lid), self.len >= 0, z3.Or(self.len
			== 0, V.is_vint(self.kid(0)), X.forall([i], z3.Implies(self.inr(
			i), z3.And(self.isobj(k, self.tid), PARENT(V.ref(k)) == self.ref,
			POS(V.ref(k)) == i, V.is_vstr(self.h['label'][V.ref(k)]))),
			patterns=[k]))]


def marked(h, v):
	return h['type'][V.ref(v)] == MARK


def use_headfinder(eng, st, args, kwargs):
	"""Contract of headfinder, see c14.py."""
	node = args[0]
	n = Kids(eng, st.heap.copy(), node.e)
	eng.obligeall(st, [('phrase', n.isphrase()), ('rules', toV(args[1])
			== RULES)])
	if len(args) > 2 or kwargs:
		raise vc.Unsupported('other head labels')
	w, i = fresh(Int, 'headindex'), z3.Int('i')
	kid = n.kid(w)
	st.assume(n.inr(w))
	# a child which is marked already, if any
	st.assume(z3.Or(marked(n.h, kid), X.forall([i], z3.Implies(n.inr(i),
			z3.Not(marked(n.h, n.kid(i)))), patterns=[n.kid(i)])))
	st.ghost['headindex'] = w
	yield st, SRef(V.ref(kid), 'Tree')


def use_subtrees(eng, st, args, kwargs):
	"""Contract of Tree.subtrees (C03): all nodes, each once."""
	q = SSeq(NSUBS, lambda i: SRef(V.ref(SUBS[i]), 'Tree'))
	q.arr = SUBS
	args = args[1:] + list(kwargs.values())
	if not args or isinstance(args[0], SNone):
		yield st, q
		return
	for s, r in pylib.filtered(eng, st, q, args[0]):
		if not isinstance(r, X.Exc):
			a = r.arr
			r = SSeq(r.n, lambda i: SRef(V.ref(a[i]), 'Tree'))
			r.arr = a
		yield s, r


def use_markmodifiers(eng, st, args, kwargs):
	"""Contract of markmodifiers, see below."""
	n = Kids(eng, st.heap.copy(), args[0].e)
	new = fresh(z3.ArraySort(Int, V), 'type')
	eng.oblige(st, 'phrase', n.isphrase())
	st.heap['type'] = new
	st.assume(*[g for _, g in modifierpost(n, new)])
	yield st, SNone()


def modifierpost(n, new):
	r = z3.Int('r')
	old = n.h['type']
	iskid = z3.And(PARENT(r) == n.ref, n.inr(POS(r)), n.kid(POS(r))
			== V.vref(r))
	return [('head and other nodes are unchanged', X.forall([r], z3.Implies(
		z3.Or(old[r] == MARK, z3.Not(iskid)), new[r] == old[r]), patterns=[
		new[r]])),
		('no head is added', X.forall([r], z3.Implies(new[r] == MARK, old[r]
		== MARK), patterns=[new[r]])),
		('complement or modifier', X.forall([r], z3.Implies(z3.And(iskid,
		old[r] != MARK), z3.Or(new[r] == V.vint(1), new[r] == V.vint(2))),
		patterns=[new[r]]))]


def nodes(eng, h):
	s = z3.Int('s')
	n = Kids(eng, h, V.ref(SUBS[s]))
	return [NSUBS >= 0, X.forall([s], z3.Implies(z3.And(0 <= s, s < NSUBS),
			z3.And(V.is_vref(SUBS[s]), SUBIDX(V.ref(SUBS[s])) == s,
			*n.base())), patterns=[SUBS[s]])]


def c_applyheadrules():
	def setup(modifiers):
		def fn(eng, st):
			ref = z3.Int('tree')
			h = st.heap.copy()
			st.assume(0 < ref, ref < h.alloc, X.clsof(ref)
					== eng.classid('Tree'), *nodes(eng, h))
			args = [SRef(ref, 'Tree'), SDyn(RULES)]
			if modifiers:
				st.assume(z3.Not(V.is_none(z3.Const('modifierrules', V))))
				args.append(SDyn(z3.Const('modifierrules', V)))
			return args, {}
		return fn

	def post(P):
		s, j = z3.Ints('s j')
		n = Kids(P.eng, P.old, V.ref(SUBS[s]))
		chosen = P.st.ghost['chosen']
		c = n.kid(chosen[V.ref(SUBS[s])])
		h = P.st.heap
		r = z3.Int('r')
		res = [('one child of each phrase is chosen as head', X.forall([s],
			z3.Implies(z3.And(0 <= s, s < NSUBS, n.isphrase()), z3.And(
			n.inr(chosen[V.ref(SUBS[s])]), marked(h, c))), patterns=[
			SUBS[s]])),
			('a head that is already marked is chosen', X.forall([s, j],
			z3.Implies(z3.And(0 <= s, s < NSUBS, n.isphrase(), n.inr(j),
			marked(P.old, n.kid(j))), marked(P.old, c)), patterns=[
			z3.MultiPattern(SUBS[s], n.kid(j))])),
			('no other child becomes a head', X.forall([s, j], z3.Implies(
			z3.And(0 <= s, s < NSUBS, n.isphrase(), n.inr(j), n.kid(j) != c),
			marked(h, n.kid(j)) == marked(P.old, n.kid(j))), patterns=[
			z3.MultiPattern(SUBS[s], n.kid(j))]))]
		if P.case == '':
			res.append(('other types are unchanged', X.forall([r], z3.Or(h[
				'type'][r] == P.old['type'][r], h['type'][r] == MARK),
				patterns=[h['type'][r]])))
		return res + unchanged(P)
	return Contract('%s:applyheadrules' % HEADS, [Case('', setup(False), post),
		Case('modifiers', setup(True), post)])


def unchanged(P):
	r = z3.Int('r')
	return [('structure is unchanged', z3.And(*([P.h['children'] == P.old[
		'children'], P.h['label'] == P.old['label']] + [X.forall([r],
		z3.Implies(z3.And(0 < r, r < P.old.alloc), P.h[f][r] == P.old[f][r]),
		patterns=[P.h[f][r]]) for f in ('lget', 'llen')])))]


def inv_apply(S):
	k, r, j = z3.Ints('k r j')
	if getattr(S.it, 'arr', None) is None:
		raise vc.Unsupported('nodes')
	it = S.it.arr
	h, old = S.h, S.old
	chosen = S.st.ghost['chosen']
	n = Kids(S.eng, old, V.ref(it[k]))
	ck = n.kid(chosen[V.ref(it[k])])
	p = Kids(S.eng, old, PARENT(r))
	iskid = lambda: z3.And(p.inr(POS(r)), p.kid(POS(r)) == V.vref(r))
	done = lambda: z3.Exists([k], z3.And(0 <= k, k < S.i, it[k]
			== V.vref(PARENT(r))))
	return [('heads of nodes so far', X.forall([k], z3.Implies(z3.And(0 <= k,
		k < S.i), z3.And(n.inr(chosen[V.ref(it[k])]), marked(h, ck), z3.Or(
		marked(old, ck), X.forall([j], z3.Implies(n.inr(j), z3.Not(marked(old,
		n.kid(j)))), patterns=[n.kid(j)])))), patterns=[it[k]])),
		('heads remain marked', X.forall([r], z3.Implies(old['type'][r] == MARK, h[
		'type'][r] == MARK), patterns=[h['type'][r]])),
		('only children of nodes so far become heads', X.forall([r],
		z3.Implies(z3.And(h['type'][r] == MARK, old['type'][r] != MARK),
		z3.And(DONE(S, PARENT(r)), p.kid(chosen[PARENT(r)]) == V.vref(r))),
		patterns=[h['type'][r]]))] + plain(S) + unchanged(S)


def DONE(S, m):
	"""Node m occurs among the nodes so far."""
	where = S.st.ghost['where']
	return z3.And(0 <= where[m], where[m] < S.i, S.it.arr[where[m]]
			== V.vref(m))


def plain(S):
	r = z3.Int('r')
	if not isinstance(S['modifierrules'], SNone):
		return []
	return [('other types are unchanged', X.forall([r], z3.Or(S.h['type'][r]
			== S.old['type'][r], S.h['type'][r] == MARK), patterns=[S.h[
			'type'][r]]))]


def cur(S):
	return V.ref(S.it.arr[S.i - 1])


def inv_modifiers(S):
	n = Kids(S.eng, S.old, S.args[0].e)
	old, new, r = S.old['type'], S.h['type'], z3.Int('r')
	iskid = z3.And(PARENT(r) == n.ref, n.inr(POS(r)), n.kid(POS(r))
			== V.vref(r), POS(r) < S.i)
	return [('head and other nodes are unchanged', X.forall([r], z3.Implies(
		z3.Or(old[r] == MARK, z3.Not(iskid)), new[r] == old[r]), patterns=[
		new[r]])),
		('complement or modifier', X.forall([r], z3.Implies(z3.And(iskid,
		old[r] != MARK), z3.Or(new[r] == V.vint(1), new[r] == V.vint(2))),
		patterns=[new[r]]))] + unchanged(S)


def inv_rules(S):
	n = S.args[0].e
	c = toV(S['child'])
	r = z3.Int('r')
	old, new = S.pre['type'], S.h['type']
	return [('only this child', X.forall([r], z3.Implies(r != V.ref(c), new[r]
		== old[r]), patterns=[new[r]])), ('complement', z3.Or(new[V.ref(c)]
		== V.vint(1), new[V.ref(c)] == V.vint(2)))] + unchanged(S)


def c_markmodifiers():
	def setup(eng, st):
		ref = z3.Int('tree')
		n = Kids(eng, st.heap.copy(), ref)
		i = z3.Int('i')
		t = n.h['type'][V.ref(n.kid(i))]
		st.assume(n.isphrase(), V.is_vstr(n.h['label'][ref]), *n.base())
		st.assume(X.forall([i], z3.Implies(n.inr(i), z3.Or(V.is_none(t),
			V.is_vint(t))), patterns=[n.kid(i)]))
		return [SRef(ref, 'Tree'), SDyn(z3.Const('modifierrules', V))], {}

	def post(P):
		n = Kids(P.eng, P.old, P.args[0].e)
		return modifierpost(n, P.st.heap['type']) + unchanged(P)
	return Contract('%s:markmodifiers' % HEADS, [Case('', setup, post)])


def use_get(eng, st, recv, args, kwargs):
	"""Rules for a label: a list of strings."""
	n = fresh(Int, 'nrules')
	arr = fresh(z3.ArraySort(Int, V), 'rules')
	st.assume(n >= 0)
	yield st, SSeq(n, lambda j: SStr(V.s(arr[j])))


def use_split(eng, st, recv, args, kwargs):
	n = fresh(Int, 'nparts')
	st.assume(1 <= n, n <= 2)
	st.assume(z3.Implies(HASDASH(lit('-'), recv.e), n == 2))
	parts = fresh(z3.ArraySort(Int, V), 'parts')
	yield st, SSeq(n, lambda j: SStr(V.s(parts[j])))


HASDASH = z3.Function('str_in', X.Str, X.Str, Bool)


def use_upper(eng, st, recv, args, kwargs):
	yield st, SStr(fresh(X.Str, 'upper'))


def use_function(eng, st, args, kwargs):
	yield st, SStr(fresh(X.Str, 'function'))


LOOPS = {
	('applyheadrules', 0): LoopSpec(inv_apply, modifies=['type'],
		allocs=False, kinds=dict(head='undef', node='undef'),
		ghosts={'chosen': (lambda S: fresh(z3.ArraySort(Int, Int), 'chosen'),
		lambda S: z3.Store(S.st.ghost['chosen'], cur(S), S.st.ghost[
		'headindex'])), 'where': (lambda S: fresh(z3.ArraySort(Int, Int),
		'where'), lambda S: z3.Store(S.st.ghost['where'], cur(S), S.i - 1))}),
	('markmodifiers', 0): LoopSpec(inv_modifiers, modifies=['type', 'llen',
		'lget'], allocs=True, kinds=dict(child='undef', prev='dyn',
		applicablerules='undef', mod='undef')),
	('markmodifiers', 1): LoopSpec(inv_rules, modifies=['type'], kinds=dict(
		mod='undef')),
	}
CLASSES = {'Tree': [(TREE, 'Tree')]}
ATTRS = {('Tree', 'label'): 'str', ('Tree', 'children'): 'list',
	('Tree', 'source'): 'dyn', ('Tree', 'type'): 'dyn'}


def mk(name):
	callees = {'headfinder': use_headfinder, 'Tree.subtrees': use_subtrees,
			'markmodifiers': use_markmodifiers, 'SStr.split': use_split,
			'SStr.upper': use_upper, 'function': use_function}
	return Engine(classes=CLASSES, attrs=ATTRS, loops=LOOPS, refeq='identity',
			callees=callees, dynclasses=('Tree', ), pure={'get': use_get})


CONTRACTS = [c_applyheadrules, c_markmodifiers]
