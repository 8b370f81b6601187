"""C04: binarization is lossless."""
import itertools
from types import SimpleNamespace
from hlib import section, require, equal, fail, main, Skip
import treegen as G
from discodop.tree import Tree, ParentedTree, ImmutableTree, HEAD
from discodop.grammar import UniqueIDs
import discodop.treetransforms as T

LABELS = ['S', 'NP', 'VP', 'PP', 'NP-SBJ', 'S|x', 'A^b', 'X_2', 'VP*', 'C<d>',
		'$', ',', 'A/B', 'SBAR', '(', '?', 'Ü']
TAGS = ['N', 'V', 'D', '$,', '.', ',', '-LRB-', 'N|V', 'X^y', 'P_3']
CLASSES = {'T': Tree, 'P': ParentedTree}


def undo(t, unary=True, child='|', parent='^', join='+'):
	"""Independent inverse of binarization, on literals."""
	def rec(x):
		if not isinstance(x, tuple):
			return [x]
		kids = [y for c in x[1] for y in rec(c)]
		lab = x[0]
		if child + '<' in lab:
			return kids
		lab = lab.split(parent + '<', 1)[0]
		if unary and join in lab:
			parts = lab.split(join)
			for p in reversed(parts[1:]):
				kids = [(p, kids)]
			lab = parts[0]
		return [(lab, kids)]
	res = rec(t)
	require(len(res) == 1, 'root-lost', t)
	return res[0]


def sethead(tree, heads):
	"""Mark child (pos mod number of children) of the n-th node as head."""
	nodes = [n for n in tree.subtrees() if isinstance(n[0], Tree)]
	for node, h in zip(nodes, heads):
		if h is not None:
			node[h % len(node)].type = HEAD


def maxkids(t):
	return max(len(n[1]) for n in G.nodes(t))


def same(got, want, key, msg=''):
	"""Equal up to order of children."""
	equal(G.sortcanon(got), G.sortcanon(want), key, msg)


def checkbin(lit, tree, before, opts, unbin, child='|', parent='^', join='+'):
	got = G.lit(tree)
	require(maxkids(got) <= 2, 'arity', lambda: (got, opts))
	equal(sorted(G.leaves(got)), sorted(G.leaves(lit)), 'words', got)
	if isinstance(tree, ParentedTree):
		require(G.consistent(tree), 'parent-links', got)
	same(undo(got, True, child, parent, join), before, 'structure', got)
	res = unbin(tree)
	final = G.lit(res)
	same(final, before, 'unbinarize', got)
	if isinstance(res, ParentedTree):
		require(G.consistent(res), 'parent-links-undone', got)


def options(rng):
	o = {}
	def maybe(p, **kw):
		if rng.random() < p:
			o.update(kw)
	maybe(.5, factor=rng.choice(['left', 'right']))
	maybe(.6, horzmarkov=rng.choice([0, 1, 2, 3, 999]))
	maybe(.5, vertmarkov=rng.choice([0, 1, 2, 3, 5]))
	maybe(.3, revhorzmarkov=rng.choice([0, 1, 2]))
	maybe(.3, markhead=True)
	maybe(.4, headoutward=True)
	maybe(.2, tailmarker='$')
	maybe(.3, leftmostunary=True)
	maybe(.3, rightmostunary=True)
	maybe(.3, threshold=rng.choice([1, 2]))
	maybe(.3, artpa=False)
	maybe(.15, ids=True)
	maybe(.2, filterlabels=('NP', 'N', 'A'))
	maybe(.15, labelfun=True)
	maybe(.2, dot=True)
	maybe(.2, direction=True)
	if rng.random() < .1:
		o['childchar'] = '@'
	if rng.random() < .1:
		o['parentchar'] = '!'
	return o


def bingen(rng, tier):
	# every shape with up to 4 leaves, every single option
	singles = [{}] + [dict(factor=f, headoutward=h, leftmostunary=l,
			rightmostunary=r, direction=d, threshold=th)
			for f in ('left', 'right') for h in (False, True)
			for l in (False, True) for r in (False, True)
			for d in (False, True) for th in (1, 2)]
	n = 0
	for size in (2, 3, 4):
		for shape in G.shapes(size):
			for o in singles:
				lit = labelled(shape, n)
				n += 1
				k = n % 5
				yield (lit, [k] * 6 if k else [], 'P' if n & 1 else 'T', o, n % 3)
	while True:
		n = rng.choice([1, 2, 3, 4, 5, 7, 10, 14])
		lit = G.randtree(rng, n, disc=rng.choice([0, .3]), unary=.12,
				labels=LABELS, tags=TAGS, maxkids=rng.choice([3, 5, 8, 12]),
				canonical=rng.random() < .7)
		heads = [rng.choice([None, 0, 1, 2, 3, 5]) for _ in range(12)]
		yield (lit, heads, rng.choice('TP'), options(rng), rng.randrange(3))


def labelled(shape, n):
	c = itertools.count(n)
	def rec(s):
		if isinstance(s, list):
			return (G.LABELS[next(c) % len(G.LABELS)], [rec(x) for x in s])
		return (G.TAGS[next(c) % len(G.TAGS)], [s])
	return rec(shape)


@section('binarize', bingen, 'every shape of at most 4 leaves with every '
		'combination of factor/head/unary/direction/threshold, then random '
		'trees with random options; after collapsing unaries in some cases',
		share=3, functions=['discodop/treetransforms.py:binarize',
			'discodop/treetransforms.py:unbinarize',
			'discodop/treetransforms.py:collapseunary'])
def runbin(case):
	lit, heads, cls, opts, collapse = case
	cls = CLASSES[cls]
	before = lit
	tree = G.build(lit, cls)
	sethead(tree, heads)
	if collapse == 2:
		T.collapseunary(tree, collapsepos=True, collapseroot=True)
	elif collapse == 1:
		T.collapseunary(tree)
	kw = dict(opts)
	if kw.get('ids'):
		kw['ids'] = UniqueIDs()
	if kw.get('labelfun'):
		kw['labelfun'] = lambda n: n.label.split('-')[0]
	ch, pa = kw.get('childchar', '|'), kw.get('parentchar', '^')
	if any(ch + '<' in n[0] or pa + '<' in n[0] for n in G.nodes(lit)):
		raise Skip
	types = sorted((n.label, tuple(sorted(n.leaves())), n.type or '')
			for n in tree.subtrees()) if not collapse else None
	inner = {id(n): n for n in tree.subtrees()}
	res = T.binarize(tree, **kw)
	require(res is tree, 'in-place')
	checkbin(lit, res, before, opts, lambda x: T.unbinarize(x,
			childchar=ch, parentchar=pa), ch, pa)
	if types is not None:
		equal(sorted((n.label, tuple(sorted(n.leaves())), n.type or '')
				for n in tree.subtrees()), types, 'head-marks')


def listgen(rng, tier):
	while True:
		lits = [G.randtree(rng, rng.choice([2, 3, 5, 8]), disc=.2, maxkids=6,
				labels=['S', 'NP', 'VP'], tags=['N', 'V'])
				for _ in range(rng.choice([1, 2, 4]))]
		yield (lits, rng.choice([1, 2, 3, 999]), rng.choice([1, 2, 3]),
				rng.choice([1, 2, 3, 10]), rng.choice([0, 1, 2]),
				rng.choice([0, 1, 2]))


@section('markovthreshold', listgen, 'random small treebanks, random orders '
		'and thresholds', share=.5,
		functions=['discodop/treetransforms.py:markovthreshold'])
def runthreshold(case):
	lits, h, v, n, h2, v2 = case
	trees = [T.binarize(G.build(l), horzmarkov=h, vertmarkov=v) for l in lits]
	T.markovthreshold(trees, n, h2, v2)
	for l, t in zip(lits, trees):
		checkbin(l, t, l, case[1:], T.unbinarize)


def optgen(rng, tier):
	n = 0
	for size in (2, 3, 4):
		for perm in itertools.permutations(range(size)):
			for shape in G.shapes(size):
				n += 1
				if size == 4 and n % 5:
					continue
				lit = relabel(labelled(shape, n), perm)
				yield (lit, 'P', n % 4)
	while True:
		n = rng.choice([2, 3, 4, 5, 6, 8, 9])
		lit = G.randtree(rng, n, disc=rng.choice([0, .4, .8]), unary=.1,
				labels=LABELS, tags=TAGS, maxkids=rng.choice([3, 4, 5]))
		if max(len(x[1]) for x in G.nodes(lit)) > 5:
			continue
		yield (lit, rng.choice('PT'), rng.randrange(8))


def relabel(t, perm):
	if isinstance(t, tuple):
		return (t[0], [relabel(c, perm) for c in t[1]])
	return perm[t]


@section('optimal', optgen, 'discontinuous trees with up to 5 children per '
		'node: optimal and head-driven optimal binarization', share=2,
		limit=60, functions=['discodop/treetransforms.py:optimalbinarize',
			'discodop/treetransforms.py:minimalbinarization',
			'discodop/treetransforms.py:factorconstituent'])
def runopt(case):
	lit, cls, variant = case
	tree = G.build(lit, CLASSES[cls])
	kw = [dict(), dict(headdriven=True), dict(headdriven=True, h=1),
			dict(headdriven=True, h=2, v=2), dict(v=2),
			dict(fun=T.fanoutcomplexity), dict(v=3, fun=T.fanoutcomplexity),
			dict(headdriven=True, h=2)][variant]
	if 'h' in kw:
		# the head is taken to be the last child
		T.canonicalize(tree)
	frozen = T.optimalbinarize(tree, **kw)
	equal(G.sortcanon(G.lit(tree)), G.sortcanon(lit), 'argument-modified')
	res = Tree.convert(frozen)
	for n in frozen.subtrees():
		equal(n.bitset, sum(1 << i for i in n.leaves()), 'bitset', n)
	checkbin(lit, res, lit, kw, T.unbinarize)


def factgen(rng, tier):
	while True:
		k = rng.choice([1, 2, 3, 4, 6])
		n = rng.choice([k, k + 1, k + 4])
		pos = list(range(n))
		rng.shuffle(pos)
		parts = [pos[i::k] for i in range(k)]
		lit = ('X', [(rng.choice('ABC'), sorted(p)) for p in parts])
		yield (lit, rng.choice(['left', 'right']), rng.choice([0, 1, 2, 999]),
				rng.random() < .5, rng.random() < .5, rng.random() < .3,
				rng.choice([1, 2]))


@section('factorconstituent', factgen, 'single nodes with up to 6 '
		'(discontinuous) children', share=.5,
		functions=['discodop/treetransforms.py:factorconstituent'])
def runfact(case):
	lit, factor, h, mf, my, ids, threshold = case
	node = T.addbitsets(G.build(lit))
	kw = {}
	if ids:
		kw['ids'] = UniqueIDs()
	res = T.factorconstituent(node, h=h, factor=factor, markfanout=mf,
			markyf=my, threshold=threshold, **kw)
	got = G.lit(res)
	require(all(len(n[1]) <= 2 or n in lit[1] for n in G.nodes(got)),
			'arity', got)
	require(res.bitset == node.bitset, 'bitset', got)
	for n in res.subtrees():
		equal(n.bitset, sum(1 << i for i in n.leaves()), 'bitset', n)
	same(undo(got), lit, 'structure', got)
	# order of children is kept
	equal(undo(got), lit, 'order', got)


def ungen(rng, tier):
	while True:
		lit = G.randtree(rng, rng.choice([1, 2, 4, 7]), disc=.2, unary=.45,
				labels=LABELS, tags=TAGS)
		yield (lit, rng.choice('TP'), rng.random() < .5, rng.random() < .5,
				rng.choice(['+', '+', '@']))


@section('unary', ungen, 'trees with unary chains: collapse and expand',
		functions=['discodop/treetransforms.py:collapseunary',
			'discodop/treetransforms.py:unbinarize'])
def rununary(case):
	lit, cls, pos, root, join = case
	tree = G.build(lit, CLASSES[cls])
	res = T.collapseunary(tree, collapsepos=pos, collapseroot=root,
			joinchar=join)
	got = G.lit(res)
	equal(sorted(G.leaves(got)), sorted(G.leaves(lit)), 'words', got)
	for n in G.nodes(got):
		if len(n[1]) == 1 and isinstance(n[1][0], tuple):
			kid = n[1][0]
			ok = (not root and n is got) or (not pos
					and not isinstance(kid[1][0], tuple))
			require(ok, 'not-collapsed', got)
	equal(undo(got, join=join), lit, 'structure', got)
	if isinstance(res, ParentedTree):
		require(G.consistent(res), 'parent-links', got)
	final = T.unbinarize(res, unarychar=join)
	equal(G.lit(final), lit, 'expand', got)
	if isinstance(final, ParentedTree):
		require(G.consistent(final), 'parent-links-undone', got)


def pregen(rng, tier):
	while True:
		n = rng.choice([1, 2, 3, 5, 8])
		lit = G.randtree(rng, n, disc=.2, preterm=False, unary=.2)
		yield (lit, G.randsent(rng, n) if rng.random() < .7 else [None] * n,
				rng.random() < .3, rng.choice('TP'))


@section('preterminals', pregen, 'trees with bare terminals',
		functions=['discodop/treetransforms.py:introducepreterminals',
			'discodop/treetransforms.py:handledisc'])
def runpre(case):
	lit, sent, ids, cls = case
	tree = G.build(lit, CLASSES[cls])
	res = T.introducepreterminals(tree, sent, **(
			dict(ids=map(str, itertools.count())) if ids else {}))
	got = G.lit(res)
	names = []

	def check(a, b):
		"""a: result, b: original."""
		require(len(a[1]) == len(b[1]), 'children', got)
		for x, y in zip(a[1], b[1]):
			if isinstance(y, tuple):
				require(isinstance(x, tuple) and x[0] == y[0], 'label', got)
				check(x, y)
			elif len(b[1]) == 1:
				equal(x, y, 'single-terminal', got)
			else:
				require(isinstance(x, tuple) and x[1] == [y],
						'preterminal', got)
				if not ids:
					equal(x[0], '%s/%s' % (b[0], sent[y] or ''), 'tag', got)
				else:
					require(x[0].startswith(b[0] + '/'), 'tag', got)
					names.append(x[0][len(b[0]) + 1:])
	equal(got[0], lit[0], 'label')
	check(got, lit)
	equal(len(set(names)), len(names), 'ids', got)
	if isinstance(res, ParentedTree):
		require(G.consistent(res), 'parent-links', got)


@section('handledisc', lambda rng, tier: iter(lambda: (G.randtree(rng,
		rng.choice([2, 3, 5, 8]), disc=.3, preterm=False, unary=.1), ), None),
		'trees with several bare terminals below a node', share=.3,
		functions=['discodop/treetransforms.py:handledisc'])
def runhandle(case):
	lit = case[0]
	def homog(n):
		return len({isinstance(c, tuple) for c in n[1]}) == 1
	if not all(homog(n) for n in G.nodes(lit)):
		lit = G.randlit if False else homogenize(lit)
	tree = G.build(lit, Tree)
	res = T.handledisc(tree)
	got = G.lit(res)
	same(undo(got), lit, 'structure', got)
	for n in G.nodes(got):
		require(sum(not isinstance(c, tuple) for c in n[1]) <= 1,
				'one-terminal', got)
	same(G.lit(T.unbinarize(res)), lit, 'unbinarize', got)


def homogenize(t):
	if not isinstance(t, tuple):
		return t
	kids = [homogenize(c) for c in t[1]]
	if any(isinstance(c, tuple) for c in kids):
		kids = [c if isinstance(c, tuple) else ('T', [c]) for c in kids]
	return (t[0], kids)


def wrapgen(rng, tier):
	while True:
		lit = G.randtree(rng, rng.choice([2, 3, 5, 7]), disc=.3, maxkids=4)
		if max(len(x[1]) for x in G.nodes(lit)) > 4:
			continue
		yield (lit, rng.choice(['default', 'optimal', 'optimalhead', None]),
				options(rng), [rng.choice([None, 0, 1, 2]) for _ in range(9)])


@section('binarizetree', wrapgen, 'the wrapper used by experiments', share=.7,
		functions=['discodop/treetransforms.py:binarizetree'])
def runwrap(case):
	lit, method, o, heads = case
	tree = G.build(lit)
	sethead(tree, heads)
	if method in ('optimal', 'optimalhead'):
		T.canonicalize(tree)
	cfg = SimpleNamespace(method=method, factor=o.get('factor', 'right'),
			tailmarker=o.get('tailmarker', ''), h=o.get('horzmarkov', 999) or 1,
			v=o.get('vertmarkov', 1) or 1, revh=o.get('revhorzmarkov', 0),
			leftmostunary=o.get('leftmostunary', False),
			rightmostunary=o.get('rightmostunary', False),
			markhead=o.get('markhead', False),
			headrules={} if o.get('headoutward') else None,
			direction=o.get('direction', False), dot=o.get('dot', False),
			filterlabels=o.get('filterlabels', ()), labelfun=None)
	res = T.binarizetree(tree, cfg, {})
	if method is None:
		equal(G.lit(res), lit, 'no-method')
		return
	checkbin(lit, res, lit, o, T.unbinarize)


if __name__ == '__main__':
	main()
