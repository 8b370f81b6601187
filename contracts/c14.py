"""Contracts of head finding and dependencies (C14)."""
import z3
from pv import vc, pyexec as X, pylib
from pv.pyexec import (V, Int, Bool, SInt, SDyn, SRef, SNone, STup, SStr, SBool,
		SReal, SCallback, SSeq, Case, Contract, LoopSpec, Engine, fresh, toV)
from pv.vc import Obligation

HEADS = 'discodop/heads.py'
TREE = 'discodop/tree.py'
Str = X.Str
SPLIT0 = z3.Function('beforebracket', Str, Str)  # label.split('[')[0]
UPPER = z3.Function('upper', Str, Str)
STARTS = z3.Function('startswith', Str, Str, Bool)
ISPUNCT = z3.Function('ispunct', V, Int, Bool)
SPLITDASH = z3.Function('splitdash', Str, V)  # label.split('-')
DISJOINT = z3.Function('isdisjoint', V, V, Bool)
HEADLABELS = z3.Const('headlabels', V)
lit = X.strlit
HEADMARK = V.vint(0)


class Phrase(object):
	"""A node and its children."""
	def __init__(self, eng, st, tree):
		h = self.h = st.heap.copy()
		self.tree, self.tid = tree, eng.classid('Tree')
		self.l = V.ref(h['children'][tree])
		self.n = h['llen'][self.l]
		self.eng = eng

	def kid(self, i):
		return self.h['lget'][self.l][i]

	def label(self, i):
		return V.s(self.h['label'][V.ref(self.kid(i))])

	def isnode(self, v):
		return z3.And(V.is_vref(v), 0 < V.ref(v), V.ref(v) < self.h.alloc,
				X.clsof(V.ref(v)) == self.tid)

	def wf(self):
		h, eng = self.h, self.eng
		i, j = z3.Ints('i j')
		inr = z3.And(0 <= i, i < self.n)
		return [0 < self.tree, self.tree < h.alloc, X.clsof(self.tree)
			== self.tid, V.is_vref(h['children'][self.tree]), 0 < self.l,
			self.l < h.alloc, X.clsof(self.l) == eng.classid('list'),
			self.n >= 1, X.forall([i], z3.Implies(inr, z3.And(self.isnode(
				self.kid(i)), V.is_vstr(h['label'][V.ref(self.kid(i))]))),
				patterns=[self.kid(i)]),
			X.forall([i, j], z3.Implies(z3.And(0 <= i, i < j, j < self.n),
				self.kid(i) != self.kid(j)), patterns=[z3.MultiPattern(
				self.kid(i), self.kid(j))]), V.is_vstr(h['label'][self.tree])]

	def sources(self):
		"""Sources are fields of a line in a treebank, or None; types are
		None or a number."""
		i, f = z3.Ints('i f')
		inr = z3.And(0 <= i, i < self.n)
		src = self.h['source'][V.ref(self.kid(i))]
		r = V.ref(src)
		typ = self.h['type'][V.ref(self.kid(i))]
		return [X.forall([i], z3.Implies(inr, z3.And(z3.Or(V.is_none(src),
			z3.And(V.is_vref(src), 0 < r, r < self.h.alloc, X.clsof(r)
			== self.eng.classid('list'), z3.Or(self.h['llen'][r] == 0,
			self.h['llen'][r] >= 5), V.is_vstr(self.h['lget'][r][4]))), z3.Or(
			V.is_none(typ), V.is_vint(typ)))), patterns=[self.kid(i)])]

	def name(self, i):
		"""The label by which rules refer to a child."""
		return UPPER(SPLIT0(self.label(i)))


def name(h, v):
	return UPPER(SPLIT0(V.s(h['label'][V.ref(v)])))


# --- models of strings etc. --------------------------------------------------------
def use_split(eng, st, recv, args, kwargs):
	if len(args) == 1 and isinstance(args[0], SStr) and args[0].e.eq(lit('[')):
		n = fresh(Int, 'nparts')
		st.assume(n >= 1)
		rest = fresh(z3.ArraySort(Int, V), 'parts')
		yield st, SSeq(n, lambda j: SStr(z3.If(j == 0, SPLIT0(recv.e), V.s(
				rest[j]))))
		return
	if len(args) == 1 and isinstance(args[0], SStr) and args[0].e.eq(lit('-')):
		yield st, SDyn(SPLITDASH(recv.e))
		return
	raise vc.Unsupported('split')


def use_upper(eng, st, recv, args, kwargs):
	if not isinstance(recv, SStr):
		eng.oblige(st, 'upper() of a string', V.is_vstr(recv.e))
		yield st, SStr(UPPER(V.s(recv.e)))
		return
	yield st, SStr(UPPER(recv.e))


def use_startswith(eng, st, recv, args, kwargs):
	yield st, SBool(STARTS(recv.e, args[0].e))


# --- find, invfind -------------------------------------------------------------------
class Match(object):
	"""Heads (strings) and children (values)."""
	def __init__(self, eng, h, heads, nheads, kids, nkids):
		self.h, self.heads, self.nheads = h, heads, nheads
		self.kids, self.nkids = kids, nkids
		self.tid = eng.classid('Tree')

	def hit(self, k, j):
		return z3.And(0 <= k, k < self.nheads, 0 <= j, j < self.nkids,
				name(self.h, self.kids[j]) == V.s(self.heads[k]))

	def found(self, k, j, dis):
		"""The first match: heads have priority, or with dis, children."""
		k1, j1 = z3.Ints('k1 j1')
		pat = [z3.MultiPattern(self.heads[k1], self.kids[j1])]
		before = (z3.Or(j1 < j, z3.And(j1 == j, k1 < k)) if dis
				else z3.Or(k1 < k, z3.And(k1 == k, j1 < j)))
		return [('match', self.hit(k, j)), ('no match before', X.forall([k1,
				j1], z3.Implies(before, z3.Not(self.hit(k1, j1))),
				patterns=pat))]

	def nothing(self):
		k1, j1 = z3.Ints('k1 j1')
		return X.forall([k1, j1], z3.Not(self.hit(k1, j1)), patterns=[
				z3.MultiPattern(self.heads[k1], self.kids[j1])])

	def wf(self):
		k, j = z3.Ints('k j')
		v = self.kids[j]
		return [self.nheads >= 0, self.nkids >= 0, X.forall([k], z3.Implies(
			z3.And(0 <= k, k < self.nheads), V.is_vstr(self.heads[k])),
			patterns=[self.heads[k]]), X.forall([j], z3.Implies(z3.And(0 <= j,
			j < self.nkids), z3.And(V.is_vref(v), 0 < V.ref(v), V.ref(v)
			< self.h.alloc, X.clsof(V.ref(v)) == self.tid, V.is_vstr(self.h[
			'label'][V.ref(v)]))), patterns=[v])]


def findinv(outer, dis):
	def inv(S):
		m = S.st.ghost['match']
		if outer:
			S.st.ghost['outer'] = S.i
		k, j = ((S.st.ghost['outer'], S.i) if not outer else
				(S.i, z3.IntVal(0)))
		k1, j1 = z3.Ints('k1 j1')
		# the outer loop is over heads, or with dis, over children
		before = z3.Or(k1 < k, z3.And(k1 == k, j1 < j)) if not dis else z3.Or(
				j1 < k, z3.And(j1 == k, k1 < j))
		return [('no match so far', X.forall([k1, j1], z3.Implies(before,
				z3.Not(m.hit(k1, j1))), patterns=[z3.MultiPattern(m.heads[k1],
				m.kids[j1])]))]
	return inv


def c_find(fname, dis):
	def make():
		def setup(eng, st):
			heads, kids = [z3.Const(x, z3.ArraySort(Int, V))
					for x in ('heads', 'kids')]
			nh, nk = z3.Ints('nheads nkids')
			m = st.ghost['match'] = Match(eng, st.heap.copy(), heads, nh, kids,
					nk)
			st.assume(*m.wf())
			return [SSeq(nh, lambda k: SStr(V.s(heads[k]))), SSeq(nk,
					lambda j: SDyn(kids[j]))], {}

		def post(P):
			m = P.st.ghost['match']
			k, j = z3.Ints('k j')
			if isinstance(P.result, SNone):
				return [('no child matches', m.nothing())]
			return [('result is the first match', z3.Exists([k, j], z3.And(
					toV(P.result) == m.kids[j], *[g for _, g in m.found(k, j,
					dis)])))]
		return Contract('%s:headfinder.%s' % (HEADS, fname), [Case('', setup,
				post)])
	return make


# --- headfinder ------------------------------------------------------------------
class Rules(object):
	"""The rules for the label of a node: directions and possible heads."""
	n = z3.Int('nrules')
	direction = staticmethod(z3.Function('direction', Int, Str))
	nheads = staticmethod(z3.Function('nheadsof', Int, Int))
	heads = staticmethod(z3.Function('headsof', Int, z3.ArraySort(Int, V)))

	@classmethod
	def dis(cls, r):
		d = cls.direction(r)
		return z3.Or(d == lit('LEFTDIS'), d == lit('RIGHTDIS'))

	@classmethod
	def left(cls, r):
		return STARTS(cls.direction(r), lit('LEFT'))

	@classmethod
	def wf(cls):
		r, k = z3.Ints('r k')
		inr = z3.And(0 <= r, r < cls.n)
		return [cls.n >= 0, X.forall([r], z3.Implies(inr, z3.And(cls.nheads(r)
			>= 0, cls.left(r) != STARTS(cls.direction(r), lit('RIGHT')))),
			patterns=[cls.direction(r)]), X.forall([r, k], z3.Implies(z3.And(
			inr, 0 <= k, k < cls.nheads(r)), V.is_vstr(cls.heads(r)[k])),
			patterns=[cls.heads(r)[k]])]

	@classmethod
	def matches(cls, p, r):
		"""Matches of rule r; children are numbered in its direction."""
		return RuleMatch(p, r)


class RuleMatch(Match):
	def __init__(self, p, r):
		self.h, self.heads, self.nheads = p.h, Rules.heads(r), Rules.nheads(r)
		self.nkids, self.p, self.r = p.n, p, r
		self.kids = Directed(p, Rules.left(r))


class Directed(object):
	"""Children from left to right, or from right to left."""
	def __init__(self, p, left):
		self.p, self.left = p, left

	def __getitem__(self, j):
		return self.p.kid(self.index(j))

	def index(self, j):
		return z3.If(self.left, j, self.p.n - 1 - j)


def matched(p, r, k, i):
	"""Child i is a possible head by rule r, as the k-th of its heads."""
	return z3.And(0 <= r, r < Rules.n, 0 <= k, k < Rules.nheads(r), 0 <= i,
			i < p.n, p.name(i) == V.s(Rules.heads(r)[k]))


def nomatch(p, upto):
	"""No rule before upto has a match."""
	r, k, i = z3.Ints('r k i')
	return X.forall([r, k, i], z3.Implies(r < upto, z3.Not(matched(p, r, k,
			i))), patterns=[z3.MultiPattern(Rules.heads(r)[k], p.kid(i))])


def ordered(left, i1, i2):
	return z3.If(left, i1 < i2, i2 < i1)


def chosen(p, r, k, i):
	"""Rule r gives child i (and none of the rules before it any)."""
	k1, i1 = z3.Ints('k1 i1')
	first = lambda i1, i: ordered(Rules.left(r), i1, i)
	before = z3.If(Rules.dis(r), z3.Or(first(i1, i), z3.And(i1 == i,
			k1 < k)), z3.Or(k1 < k, z3.And(k1 == k, first(i1, i))))
	return z3.And(nomatch(p, r), matched(p, r, k, i), X.forall([k1, i1],
			z3.Implies(before, z3.Not(matched(p, r, k1, i1))), patterns=[
			z3.MultiPattern(Rules.heads(r)[k1], p.kid(i1))]))


def use_find(dis):
	def fn(eng, st, args, kwargs):
		"""Contract of find / invfind."""
		p = st.ghost['phrase']
		hseq, kids = args
		harr = getattr(hseq, 'arr', None)
		if harr is None:
			raise vc.Unsupported('heads of a rule')
		for s, it in eng.iterable(kids, st):
			if isinstance(it, X.Exc):
				yield s, it
				continue
			n, get, arr = pylib.elementarray(eng, it, s)
			m = Match(eng, s.heap.copy(), harr, hseq.n, arr, n)
			eng.obligeall(s, [('precondition of %s %d' % ('invfind' if dis
					else 'find', x), g) for x, g in enumerate(m.wf())])
			a = s.fork()
			a.assume(m.nothing())
			yield a, SNone()
			k, j = fresh(Int, 'k'), fresh(Int, 'j')
			s.assume(*[g for _, g in m.found(k, j, dis)])
			v = fresh(V, 'found')
			s.assume(v == arr[j])
			s.ghost['found'] = k, j
			yield s, SRef(V.ref(v), 'Tree')
	return fn


def use_get(eng, st, recv, args, kwargs):
	"""headrules.get(label, []): the rules for this label."""
	p = st.ghost['phrase']
	eng.oblige(st, 'rules of this node', toV(args[0]) == p.h['label'][p.tree])

	def rule(r):
		q = SSeq(Rules.nheads(r), lambda k: SStr(V.s(Rules.heads(r)[k])))
		q.arr = Rules.heads(r)
		return STup([SStr(Rules.direction(r)), q])
	yield st, SSeq(Rules.n, rule)


def use_ispunct(eng, st, args, kwargs):
	if not isinstance(args[1], (SRef, SDyn)):
		raise vc.Unsupported('ispunct')
	ref = args[1].e if isinstance(args[1], SRef) else V.ref(args[1].e)
	yield st, SBool(ISPUNCT(toV(args[0]), ref))


def use_isdisjoint(eng, st, recv, args, kwargs):
	yield st, SBool(DISJOINT(recv.e, toV(args[0])))


def firstkid(p, cond, i):
	"""Child i is the first with a property."""
	j = z3.Int('j')
	return z3.And(0 <= i, i < p.n, cond(i), X.forall([j], z3.Implies(z3.And(
			0 <= j, j < i), z3.Not(cond(j))), patterns=[p.kid(j)]))


def nokid(p, cond, upto=None):
	j = z3.Int('j')
	return X.forall([j], z3.Implies(z3.And(0 <= j, j < (p.n if upto is None
			else upto)), z3.Not(cond(j))), patterns=[p.kid(j)])


def marked(p):
	return lambda i: p.h['type'][V.ref(p.kid(i))] == HEADMARK


def funchead(p):
	"""The function (field 4 of its source) marks a child as head."""
	def fn(i):
		src = p.h['source'][V.ref(p.kid(i))]
		func = p.h['lget'][V.ref(src)][4]
		return z3.And(V.is_vref(src), p.h['llen'][V.ref(src)] > 0, z3.Not(
				DISJOINT(HEADLABELS, SPLITDASH(UPPER(V.s(func))))))
	return fn


def inphrase(f):
	return lambda S: f(S, S.st.ghost['phrase'])


def samekids(S, p):
	return [('tree is unchanged', z3.And(S.h['children'] == p.h['children'],
			S.h['label'] == p.h['label'], S.h['type'] == p.h['type'],
			S.h['llen'][p.l] == p.h['llen'][p.l],
			S.h['lget'][p.l] == p.h['lget'][p.l]))]


@inphrase
def inv_marked(S, p):
	return [('no head mark so far', nokid(p, marked(p), S.i))]


@inphrase
def inv_func(S, p):
	return [('no head function so far', nokid(p, funchead(p), S.i))]


@inphrase
def inv_rules(S, p):
	j = z3.Int('j')
	h = S.h
	c = toV(S['children'])
	r = V.ref(c)
	left = z3.Or(S.i == 0, Rules.left(S.i - 1))
	return [('no match by a rule so far', nomatch(p, S.i)),
		('no head so far', V.is_none(toV(S['head']))),
		('children in the direction of the last rule', z3.And(V.is_vref(c),
			z3.If(left, z3.Or(r == p.tree, r == p.l), z3.And(r >= p.h.alloc, r < h.alloc,
			X.clsof(r) == S.eng.classid('list'), h['llen'][r] == p.n,
			X.forall([j], z3.Implies(z3.And(0 <= j, j < p.n), h['lget'][r][j]
			== p.kid(p.n - 1 - j)), patterns=[h['lget'][r][j]]))))),
		] + samekids(S, p)


@inphrase
def inv_default(S, p):
	return [('only punctuation so far', nodefault(p, S.i))]


def lastleft():
	return z3.Or(Rules.n == 0, Rules.left(Rules.n - 1))


def nodefault(p, upto):
	"""The first children in the direction of the last rule are punctuation."""
	i = z3.Int('i')
	return X.forall([i], z3.Implies(z3.And(0 <= i, i < p.n, z3.If(lastleft(),
			i, p.n - 1 - i) < upto), ISPUNCT(V.none, V.ref(p.kid(i)))),
			patterns=[p.kid(i)])


def punct(p, i):
	return ISPUNCT(p.h['label'][V.ref(p.kid(i))], V.ref(p.kid(i)))


@inphrase
def inv_conj(S, p):
	i0 = S.int('i')
	j = z3.Int('j')
	return [('only punctuation so far', X.forall([j], z3.Implies(z3.And(
			i0 - 2 - S.i < j, j <= i0 - 2), punct(p, j)), patterns=[p.kid(j)]))]


def c_headfinder():
	def setup(eng, st):
		tree = z3.Int('tree')
		p = st.ghost['phrase'] = Phrase(eng, st, tree)
		st.assume(*(p.wf() + p.sources() + Rules.wf()))
		return [SRef(tree, 'Tree'), SDyn(z3.Const('headrules', V)), SDyn(
				HEADLABELS)], {}

	def post(P):
		p = P.st.ghost['phrase']
		r, k, i, j = z3.Ints('r k i j')
		res = toV(P.result)
		is_ = lambda i: res == p.kid(i)
		cc = lambda i: z3.And(i >= 2, z3.Or(*[p.label(i - 1) == lit(x)
				for x in ('CC', 'CONJP')]))
		# the child before a conjunction and a head
		althead = lambda i: z3.Exists([j], z3.And(0 <= j, j <= i - 2,
				z3.Not(punct(p, j)), res == p.kid(j), z3.ForAll([k],
				z3.Implies(z3.And(j < k, k <= i - 2), punct(p, k)))))
		noalt = lambda i: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j <= i
				- 2), punct(p, j)))
		byrule = z3.Exists([r, k, i], z3.And(chosen(p, r, k, i), z3.If(cc(i),
				z3.Or(althead(i), z3.And(is_(i), noalt(i))), is_(i))))
		npunct = lambda i: z3.Not(ISPUNCT(V.none, V.ref(p.kid(i))))
		default = z3.Or(z3.Exists([i], z3.And(0 <= i, i < p.n, is_(i),
				npunct(i), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < p.n,
				ordered(lastleft(), j, i)), z3.Not(npunct(j)))))),
				z3.And(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < p.n),
				z3.Not(npunct(i)))), is_(z3.If(lastleft(), 0, p.n - 1))))
		havemark = z3.Not(nokid(p, marked(p)))
		havefunc = z3.Not(nokid(p, funchead(p)))
		return [('result is one of the children', z3.Exists([i], z3.And(
				0 <= i, i < p.n, is_(i)))),
			('a child that is already marked', z3.Implies(havemark, z3.Exists(
				[i], z3.And(is_(i), firstkid(p, marked(p), i))))),
			('a child with the function of a head', z3.Implies(z3.And(z3.Not(
				havemark), havefunc), z3.Exists([i], z3.And(is_(i), firstkid(
				p, funchead(p), i))))),
			('the first match of the first rule with a match, or the default',
				z3.Implies(z3.And(z3.Not(havemark), z3.Not(havefunc)), z3.If(
				nomatch(p, Rules.n), default, byrule)))] + samekids(P, p)
	return Contract('%s:headfinder' % HEADS, [Case('', setup, post)])


KINDS = dict(head='undef', child='undef')
LISTS = ['lget', 'llen']
LOOPS = {
	('headfinder', 0): LoopSpec(inv_marked, kinds=KINDS),
	('headfinder', 1): LoopSpec(inv_func, kinds=KINDS),
	('headfinder', 2): LoopSpec(inv_rules, modifies=LISTS, allocs=True,
		kinds=dict(direction='undef', heads='undef', children='dyn',
		head='dyn')),
	('headfinder', 3): LoopSpec(inv_default, kinds=KINDS),
	('headfinder', 4): LoopSpec(inv_conj, kinds=dict(althead='undef')),
	('headfinder.find', 0): LoopSpec(findinv(True, False), kinds=KINDS),
	('headfinder.find', 1): LoopSpec(findinv(False, False), kinds=KINDS),
	('headfinder.invfind', 0): LoopSpec(findinv(True, True), kinds=KINDS),
	('headfinder.invfind', 1): LoopSpec(findinv(False, True), kinds=KINDS),
	}
CLASSES = {'Tree': [(TREE, 'Tree')]}
ATTRS = {('Tree', 'label'): 'str', ('Tree', 'children'): 'list',
	('Tree', 'source'): 'dyn', ('Tree', 'type'): 'dyn'}


def mk(name):
	callees = {'SStr.split': use_split, 'SStr.upper': use_upper,
			'SStr.startswith': use_startswith, 'ispunct': use_ispunct,
			'headfinder.find': use_find(False),
			'headfinder.invfind': use_find(True)}
	return Engine(classes=CLASSES, attrs=ATTRS, loops=LOOPS, refeq='identity',
			callees=callees, dynclasses=('Tree', 'list'), pure={'get': use_get,
			'isdisjoint': use_isdisjoint, 'upper': use_upper})


CONTRACTS = [c_headfinder, c_find('find', False), c_find('invfind', True)]
