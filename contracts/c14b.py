"""Contracts of head positions and dependencies (C14).

The tree is not modified by these functions; functions of its nodes:

- FM(n): the index of the first child marked as head, or -1;
- LEX(n): the lexical head of n, found by following marked heads; words are
  numbered from 1;
- WORDIN(n, w): word w is below n; WK(n, w) is the child it is below;
- DEPTH(n), and TOP(w): the depth of the highest node of which w is the
  lexical head;
- LINK(d, l, g): some node with lexical head g has a child with lexical head d
  and function l, and the child is not the head of that node.

Their definitions are assumed at the node which a function is called for; that
different children contain different words is a precondition.
"""
import z3
from pv import vc, pyexec as X, pylib
from pv.pyexec import (V, Int, Bool, SInt, SDyn, SRef, SNone, STup, SStr, SBool,
		SSeq, Case, Contract, LoopSpec, Engine, fresh, toV)

HEADS = 'discodop/heads.py'
TREEBANK = 'discodop/treebank.py'
TREE = 'discodop/tree.py'
lit = X.strlit
FM = z3.Function('firstmarked', Int, Int)
LEX = z3.Function('lexicalhead', Int, Int)
WORDIN = z3.Function('wordin', Int, Int, Bool)
WK = z3.Function('wordchild', Int, Int, Int)
DEPTH = z3.Function('depth', Int, Int)
TOP = z3.Function('topdepth', Int, Int)
LINK = z3.Function('link', Int, V, Int, Bool)
GOOD = z3.Function('goodtree', Int, Bool)
HEADPOS = z3.Function('headpos', Int, V)
MARK = V.vint(0)


class Node(object):
	def __init__(self, eng, h, n):
		self.eng, self.h, self.ref = eng, h, n
		self.tid, self.lid = eng.classid('Tree'), eng.classid('list')
		self.l = V.ref(h['children'][n])
		self.len = h['llen'][self.l]

	def kid(self, i):
		return self.h['lget'][self.l][i]

	def isobj(self, v, cls):
		r = V.ref(v)
		return z3.And(V.is_vref(v), 0 < r, r < self.h.alloc, X.clsof(r)
				== cls)

	def marked(self, i):
		return self.h['type'][V.ref(self.kid(i))] == MARK

	def preterminal(self):
		return V.is_vint(self.kid(0))

	def inr(self, i):
		return z3.And(0 <= i, i < self.len)

	def base(self):
		"""A node has a list of children: a word, or other nodes."""
		i, j = z3.Ints('i j')
		return [self.isobj(V.vref(self.ref), self.tid), self.isobj(self.h[
			'children'][self.ref], self.lid), self.len >= 0, z3.Or(
			self.len == 0, self.preterminal(), X.forall([i], z3.Implies(
			self.inr(i), z3.And(self.isobj(self.kid(i), self.tid), z3.Or(
			V.is_none(self.typ(i)), V.is_vint(self.typ(i))))),
			patterns=[self.kid(i)])),
			X.forall([i, j], z3.Implies(z3.And(0 <= i, i < j, j < self.len),
				self.kid(i) != self.kid(j)), patterns=[z3.MultiPattern(
				self.kid(i), self.kid(j))])]

	def typ(self, i):
		return self.h['type'][V.ref(self.kid(i))]

	def defmark(self):
		"""Definition of FM."""
		i, m = z3.Int('i'), FM(self.ref)
		return [-1 <= m, m < self.len, z3.Implies(m >= 0, self.marked(m)),
			X.forall([i], z3.Implies(z3.And(0 <= i, i < z3.If(m < 0, self.len,
				m)), z3.Not(self.marked(i))), patterns=[self.kid(i)])]

	def func(self, i):
		"""The function of a child according to its source."""
		h = self.h
		src = h['source'][V.ref(self.kid(i))]
		f = h['lget'][V.ref(src)][4]
		no = z3.Or(V.is_none(src), h['llen'][V.ref(src)] == 0,
				V.s(f) == lit('--'), V.s(f) == lit(''))
		return z3.If(no, V.vstr(lit('-')), f)

	def sources(self, other):
		i = z3.Int('i')
		h = self.h
		src = h['source'][V.ref(self.kid(i))]
		return X.forall([i], z3.Implies(self.inr(i), z3.Or(V.is_none(src),
			z3.And(self.isobj(src, self.lid), V.ref(src) != other, z3.Or(h[
			'llen'][V.ref(src)] == 0, z3.And(h['llen'][V.ref(src)] >= 5,
			V.is_vstr(h['lget'][V.ref(src)][4])))))), patterns=[self.kid(i)])

	def words(self, root=False):
		"""Words below this node; links."""
		i, w = z3.Ints('i w')
		n, kr = self.ref, V.ref(self.kid(i))
		m = FM(n)
		hk = V.ref(self.kid(m))
		phrase = [X.forall([w], z3.Implies(WORDIN(n, w), z3.And(self.inr(WK(n,
				w)), WORDIN(V.ref(self.kid(WK(n, w))), w))), patterns=[WORDIN(
				n, w)]),
			X.forall([i, w], z3.Implies(z3.And(self.inr(i), WORDIN(kr, w)),
				z3.And(WORDIN(n, w), WK(n, w) == i)), patterns=[WORDIN(kr,
				w)]),
			# the lexical head of a child is highest there, unless it is the head
			X.forall([i], z3.Implies(z3.And(self.inr(i), z3.BoolVal(True)
				if root else i != m), TOP(LEX(kr)) == DEPTH(kr)),
				patterns=[self.kid(i)]),
			X.forall([i], z3.Implies(self.inr(i), z3.And(GOOD(kr), DEPTH(kr)
				== DEPTH(n) + 1)), patterns=[self.kid(i)])]
		if root:
			return phrase
		phrase += [m >= 0, LEX(n) == LEX(hk), X.forall([i], z3.Implies(z3.And(
			self.inr(i), i != m), LINK(LEX(kr), self.func(i), LEX(n))),
			patterns=[self.kid(i)])]
		word = V.i(self.kid(0)) + 1
		pre = [LEX(n) == word, X.forall([w], WORDIN(n,
			w) == (w == word), patterns=[WORDIN(n, w)])]
		return [self.len >= 1, X.forall([w], z3.Implies(WORDIN(n, w), w >= 1),
			patterns=[WORDIN(n, w)]), z3.If(self.preterminal(), z3.And(pre),
			z3.And(phrase))]


class Deps(object):
	"""A list of dependencies."""
	def __init__(self, h, d):
		self.h, self.d = h, d
		self.n = h['llen'][d]

	def at(self, j):
		return self.h['lget'][self.d][j]

	def dep(self, j):
		return V.i(V.hd(self.at(j)))

	def label(self, j):
		return V.hd(V.tl(self.at(j)))

	def gov(self, j):
		return V.i(V.hd(V.tl(V.tl(self.at(j)))))

	def triple(self, j):
		e = self.at(j)
		t = V.tl(e)
		return z3.And(V.is_vcons(e), V.is_vint(V.hd(e)), V.is_vcons(t),
			V.is_vstr(V.hd(t)), V.is_vcons(V.tl(t)), V.is_vint(V.hd(V.tl(t))),
			V.is_vnil(V.tl(V.tl(t))))


def entries(old, new, iswordof, covered, roots=None, index=None):
	"""Dependencies added to a list: one for each covered word.

	:param iswordof: function w -> formula: words below the node.
	:param covered: function w -> formula: words that have a governor.
	:param index: ghost array with the entry of each word (default: some)."""
	j, k, w = z3.Ints('j k w')
	inr = lambda j: z3.And(old.n <= j, j < new.n)
	link = lambda j: z3.And(iswordof(new.gov(j)), LINK(new.dep(j), new.label(
			j), new.gov(j)), TOP(new.gov(j)) < TOP(new.dep(j)))
	what = (link(j) if roots is None else z3.If(roots(new.dep(j)), z3.And(
			new.label(j) == V.vstr(lit('root')), new.gov(j) == 0), link(j)))
	witness = lambda w: (z3.Exists([j], z3.And(inr(j), new.dep(j) == w))
			if index is None else z3.And(inr(index[w]), new.dep(index[w])
			== w))
	res = [('list grows', new.n >= old.n),
		('entries are triples', X.forall([j], z3.Implies(inr(j), new.triple(
			j)), patterns=[new.at(j)])),
		('dependents are words of this node', X.forall([j], z3.Implies(inr(j),
			covered(new.dep(j))), patterns=[new.at(j)])),
		('governors follow marked heads, and are higher', X.forall([j],
			z3.Implies(inr(j), what), patterns=[new.at(j)])),
		('one governor', X.forall([j, k], z3.Implies(z3.And(inr(j), inr(k),
			j < k), new.dep(j) != new.dep(k)), patterns=[z3.MultiPattern(
			new.at(j), new.at(k))])),
		('every word has a governor', X.forall([w], z3.Implies(covered(w),
			witness(w)), patterns=[
			iswordof(w)] if z3.is_app(iswordof(w)) and iswordof(w).decl().kind(
			) == z3.Z3_OP_UNINTERPRETED else []))]
	if old.n is not I0:
		res.append(('earlier entries remain', X.forall([j], z3.Implies(z3.And(
			0 <= j, j < old.n), new.at(j) == old.at(j)), patterns=[new.at(
			j)])))
	return res


I0 = z3.IntVal(0)


def onlylist(eng, old, new, d, alloc=True):
	"""No other list is changed."""
	r = z3.Int('r')
	return [('other objects are unchanged', z3.And(*[old[f].eq(new[f]) or
		old[f] == new[f] for f in ('children', 'type', 'source', 'label')]
		+ [X.forall([r], z3.Implies(z3.And(r != d, r < old.alloc), z3.And(
		new['llen'][r] == old['llen'][r], new['lget'][r] == old['lget'][r])),
		patterns=[new['lget'][r]])]))]


def makedeppre(eng, h, n, d):
	return [('well-formed', GOOD(n)), ('highest', TOP(LEX(n)) <= DEPTH(n))]


def use_makedep(eng, st, args, kwargs):
	n = st.ghost['node']
	node, deps = args
	ref = node.e if isinstance(node, SRef) else V.ref(node.e)
	if isinstance(node, SDyn):
		eng.oblige(st, 'node', n.isobj(node.e, n.tid))
	d = deps.e
	eng.obligeall(st, makedeppre(eng, st.heap, ref, d))
	old = st.heap.copy()
	st.heap['llen'] = z3.Store(st.heap['llen'], d, fresh(Int, 'len'))
	st.heap['lget'] = z3.Store(st.heap['lget'], d, fresh(z3.ArraySort(Int, V),
			'deps'))
	index = st.ghost['index'] = fresh(z3.ArraySort(Int, Int), 'index')
	st.assume(*[g for _, g in makedeppost(Deps(old, d), Deps(st.heap.copy(),
			d), ref, index)])
	yield st, SInt(LEX(ref))


def makedeppost(old, new, n, index=None):
	return entries(old, new, lambda w: WORDIN(n, w), lambda w: z3.And(WORDIN(n,
			w), w != LEX(n)), index=index) + [('lexical head', WORDIN(n,
			LEX(n)))]


def c_makedep():
	def setup(eng, st):
		ref, d = z3.Ints('node deps')
		n = st.ghost['node'] = Node(eng, st.heap.copy(), ref)
		r = z3.Int('r')
		h = st.heap
		st.assume(*(n.base() + n.defmark() + n.words() + [n.sources(d)]))
		st.assume(0 < d, d < h.alloc, X.clsof(d) == n.lid, h['llen'][d] >= 0)
		# the list of dependencies is no part of the tree
		st.assume(n.l != d)
		st.assume(*[g for _, g in makedeppre(eng, h, ref, d)])
		return [SRef(ref, 'Tree'), SRef(d, 'list')], {}

	def post(P):
		n = P.st.ghost['node']
		d = P.args[1].e
		new = Deps(P.st.heap.copy(), d)
		return [('the lexical head', toV(P.result) == V.vint(LEX(n.ref)))
			] + makedeppost(Deps(P.old, d), new, n.ref) + onlylist(P.eng,
			P.old, P.st.heap, d)
	return Contract('%s:_makedep' % TREEBANK, [Case('', setup, post)])


def inv_makedep(S):
	n = S.st.ghost['node']
	m = FM(n.ref)
	d = V.ref(toV(S['deps']))
	first = Deps(n.h, d)
	new = Deps(S.st.heap.copy(), d)
	return entries(first, new, lambda w: WORDIN(n.ref, w), lambda w: z3.And(
			WORDIN(n.ref, w), w != LEX(n.ref), z3.Or(WK(n.ref, w) < S.i, WK(
			n.ref, w) == m)), index=S.st.ghost['entry']) + [('lexical head', z3.And(
			toV(S['lexhead']) == V.vint(LEX(n.ref)), WORDIN(n.ref, LEX(
			n.ref)))), ('list', z3.And(V.is_vref(toV(S['deps'])), toV(S['deps'])
			== toV(S.st.ghost['args'][1]) if 'args' in S.st.ghost else True))
			] + onlylist(S.eng, n.h, S.st.heap, d)


def newindex(S):
	"""Entries of words: those of this child are new."""
	n, w = S.st.ghost['node'], z3.Int('w')
	old, kid = S.st.ghost['entry'], V.ref(n.kid(S.i - 1))
	res = fresh(z3.ArraySort(Int, Int), 'entry')
	last = S.h['llen'][V.ref(toV(S['deps']))] - 1
	S.st.assume(X.forall([w], res[w] == z3.If(z3.And(WORDIN(kid, w), S.i - 1
			!= FM(n.ref)), z3.If(w
			== LEX(kid), last, S.st.ghost['index'][w]), old[w]),
			patterns=[res[w]]))
	return res


# --- dependencies --------------------------------------------------------------------
def isroot(n):
	"""Word w is the lexical head of a child of the root."""
	return lambda w: z3.And(WORDIN(n.ref, w), w == LEX(V.ref(n.kid(WK(n.ref,
			w)))))


def c_dependencies():
	def setup(eng, st):
		ref = z3.Int('root')
		n = st.ghost['node'] = Node(eng, st.heap.copy(), ref)
		st.assume(*(n.base() + n.words(root=True)))
		w = z3.Int('w')
		st.assume(z3.Not(n.preterminal()), X.forall([w], z3.Implies(WORDIN(ref,
				w), w >= 1), patterns=[WORDIN(ref, w)]))
		return [SRef(ref, 'Tree')], {}

	def post(P):
		n = P.st.ghost['node']
		i, j = z3.Ints('i j')
		if not (isinstance(P.result, SRef) and P.result.cls == 'list'):
			raise vc.Unsupported('result of dependencies')
		new = Deps(P.st.heap.copy(), P.result.e)
		res = alldeps(n, new, n.len, index=P.st.ghost.get('byword'))
		return res + [('in the order of words', X.forall([i, j], z3.Implies(
			z3.And(0 <= i, i < j, j < new.n), new.dep(i) < new.dep(j)),
			patterns=[z3.MultiPattern(new.at(i), new.at(j))]))] + onlylist(
			P.eng, P.old, P.st.heap, P.result.e)
	return Contract('%s:dependencies' % TREEBANK, [Case('', setup, post)])


class Nothing(object):
	n = I0


def alldeps(n, new, i, index=None):
	"""Entries for words below the first i children of the root."""
	return entries(Nothing, new, lambda w: WORDIN(n.ref, w), lambda w: z3.And(
			WORDIN(n.ref, w), WK(n.ref, w) < i), isroot(n), index)


def inv_dependencies(S):
	n = S.st.ghost['node']
	if not (isinstance(S['deps'], SRef) and S['deps'].cls == 'list'):
		raise vc.Unsupported('list of dependencies')
	d = S['deps'].e
	return alldeps(n, Deps(S.st.heap.copy(), d), S.i, S.st.ghost['entry']
			) + onlylist(S.eng, n.h, S.st.heap, d) + [('list', z3.And(
			d >= n.h.alloc, d < S.st.heap.alloc, X.clsof(d) == n.lid))]


def rootindex(S):
	n, w = S.st.ghost['node'], z3.Int('w')
	old, kid = S.st.ghost['entry'], V.ref(n.kid(S.i - 1))
	res = fresh(z3.ArraySort(Int, Int), 'entry')
	S.st.assume(X.forall([w], res[w] == z3.If(WORDIN(kid, w), z3.If(w
			== LEX(kid), S.h['llen'][S['deps'].e] - 1, S.st.ghost['index'][
			w]), old[w]), patterns=[res[w]]))
	return res


def use_sorted(eng, st, args, kwargs):
	"""sorted() for tuples which start with different integers."""
	if kwargs or len(args) != 1 or not (isinstance(args[0], SRef)
			and args[0].cls == 'list'):
		raise vc.Unsupported('sorted')
	h = st.heap
	old = Deps(h.copy(), args[0].e)
	i, j, w = z3.Ints('i j w')
	inr = lambda j: z3.And(0 <= j, j < old.n)
	eng.obligeall(st, [('sorted: tuples that start with integers', X.forall([
		j], z3.Implies(inr(j), z3.And(V.is_vcons(old.at(j)), V.is_vint(V.hd(
		old.at(j))))), patterns=[old.at(j)])), ('sorted: different integers',
		X.forall([i, j], z3.Implies(z3.And(inr(i), inr(j), i < j), old.dep(i)
		!= old.dep(j)), patterns=[z3.MultiPattern(old.at(i), old.at(j))]))])
	arr = fresh(z3.ArraySort(Int, V), 'sorted')
	c = next(X._cnt)
	src = z3.Function('from!%d' % c, Int, Int)
	dst = z3.Function('to!%d' % c, Int, Int)
	st.assume(X.forall([i], z3.Implies(inr(i), z3.And(inr(src(i)), dst(src(
		i)) == i, arr[i] == old.at(src(i)))), patterns=[arr[i]]), X.forall([
		j], z3.Implies(inr(j), z3.And(inr(dst(j)), src(dst(j)) == j,
		arr[dst(j)] == old.at(j))), patterns=[old.at(j), dst(j)]), X.forall([
		i, j], z3.Implies(z3.And(inr(i), inr(j), i < j), V.i(V.hd(arr[i]))
		< V.i(V.hd(arr[j]))), patterns=[z3.MultiPattern(arr[i], arr[j])]))
	entry = st.ghost.get('entry')
	if entry is not None:
		new = st.ghost['byword'] = fresh(z3.ArraySort(Int, Int), 'byword')
		st.assume(X.forall([w], new[w] == dst(entry[w]), patterns=[new[w]]))
	yield st, eng.newlist(st, n=old.n, arr=arr)


# --- getheadpos -----------------------------------------------------------------------
ISNODE = z3.Function('isnode', Int, Bool)


def c_getheadpos():
	def setup(eng, st):
		ref = z3.Int('node')
		h = st.heap.copy()
		st.ghost['h'] = h
		m, i = z3.Ints('m i')
		n = Node(eng, h, m)
		kid = lambda i: V.ref(n.kid(i))
		hm = HEADPOS(m)
		f = FM(m)
		# definition of the head position of a node
		st.assume(X.forall([m], z3.Implies(ISNODE(m), z3.And(*(n.base()
			+ n.defmark() + [X.forall([i], z3.Implies(z3.And(n.inr(i),
			z3.Not(n.preterminal())), ISNODE(kid(i))), patterns=[n.kid(i)]),
			z3.If(n.len == 0, V.is_none(hm), z3.If(n.preterminal(), hm
			== V.vref(m), z3.If(f < 0, V.is_none(hm), hm == HEADPOS(kid(
			f)))))]))), patterns=[ISNODE(m)]))
		st.assume(ISNODE(ref))
		return [SRef(ref, 'Tree')], {}

	def post(P):
		return [('follows marked heads', toV(P.result) == HEADPOS(P.args[
			0].e))] + onlylist(P.eng, P.old, P.st.heap, I0)
	return Contract('%s:getheadpos' % HEADS, [Case('', setup, post)])


def inv_getheadpos(S):
	c = toV(S['child'])
	return [('same head', z3.And(V.is_vref(c), ISNODE(V.ref(c)), X.clsof(V.ref(
			c)) == S.eng.classid('Tree'), HEADPOS(V.ref(c)) == HEADPOS(S.args[
			0].e)))] + onlylist(S.eng, S.old, S.st.heap, I0)


LOOPS = {
	('_makedep', 0): LoopSpec(inv_makedep, modifies=[('llen', lambda S: [
		V.ref(toV(S['deps']))]), ('lget', lambda S: [V.ref(toV(S['deps']))])],
		kinds=dict(child='undef', lexheadofchild='undef', func='undef'),
		ghosts={'entry': (lambda S: S.st.ghost['index'], newindex)}),
	('dependencies', 0): LoopSpec(inv_dependencies, modifies=[('llen',
		lambda S: [S['deps'].e]), ('lget', lambda S: [S['deps'].e])],
		kinds=dict(child='undef'), ghosts={'entry': (lambda S: fresh(
		z3.ArraySort(Int, Int), 'entry'), rootindex)}),
	('getheadpos', 0): LoopSpec(inv_getheadpos, kinds=dict(child='dyn')),
	}
CLASSES = {'Tree': [(TREE, 'Tree')]}
ATTRS = {('Tree', 'label'): 'str', ('Tree', 'children'): 'list',
	('Tree', 'source'): 'dyn', ('Tree', 'type'): 'dyn'}


def mk(name):
	callees = {'_makedep': use_makedep, 'sorted': use_sorted}
	return Engine(classes=CLASSES, attrs=ATTRS, loops=LOOPS, refeq='identity',
			callees=callees, dynclasses=('Tree', 'list'))


CONTRACTS = [c_makedep, c_dependencies, c_getheadpos]
