"""C05: splitting discontinuous nodes is reversible and spans are exact."""
import itertools
from hlib import section, require, equal, fail, main, Skip
import treegen as G
from discodop.tree import Tree, ParentedTree, ImmutableTree, HEAD
import discodop.tree as tree_
import discodop.treetransforms as T
import discodop.grammar as grammar
from discodop.bit import fanout as extfanout

CLASSES = {'T': Tree, 'P': ParentedTree}


def blocks(span):
	"""Maximal blocks of a set of positions."""
	res = []
	for i in sorted(span):
		if res and res[-1][-1] + 1 == i:
			res[-1].append(i)
		else:
			res.append([i])
	return res


def distinguishable(lit):
	"""No two discontinuous siblings with the same label."""
	for n in G.nodes(lit):
		d = [c[0] for c in n[1] if isinstance(c, tuple)
				and G.fan(set(G.leaves(c))) > 1]
		if len(set(d)) != len(d):
			return False
	return True


def permutedtrees(rng, tier):
	"""Every shape x permutation of at most 4 leaves; then random trees."""
	k = 0
	for size in (1, 2, 3, 4):
		for shape in G.shapes(size):
			for perm in itertools.permutations(range(size)):
				k += 1
				yield relabel(shape, perm, k)
	while True:
		n = rng.choice([2, 3, 4, 5, 6, 8, 12, 20, 40, 70])
		lit = G.randtree(rng, n, disc=rng.choice([.2, .5, .9]), unary=.15,
				labels=LABELS, tags=['N', 'V', 'D'],
				maxkids=rng.choice([3, 5]), canonical=rng.random() < .6)
		yield lit


LABELS = ['S', 'NP', 'VP', 'PP', 'X', 'A', 'B', 'NP-SBJ', 'S|<a,b>', 'VP^<S>',
		'C1', '$', 'Z!']


def relabel(shape, perm, k):
	c = itertools.count(k)
	def rec(s):
		if isinstance(s, list):
			return ('%s%d' % (G.LABELS[next(c) % 3], next(c) % 7),
					[rec(x) for x in s])
		return (G.TAGS[next(c) % len(G.TAGS)], [perm[s]])
	res = rec(shape)
	return res if isinstance(shape, list) else ('S', [res])


def splitgen(rng, tier):
	for n, lit in enumerate(permutedtrees(rng, tier)):
		yield (lit, 'TP'[n & 1], n % 3 != 0, [rng.randrange(5)
				for _ in range(12)] if n % 2 else None)


def info(tree):
	return sorted((n.label, tuple(sorted(n.leaves())), str(n.type),
			repr(n.source)) for n in tree.subtrees())


@section('split', splitgen, 'every shape and permutation of at most 4 leaves, '
		'random discontinuous trees of up to 70 leaves; with and without '
		'origin marks', share=2,
		functions=['discodop/treetransforms.py:splitdiscnodes',
			'discodop/treetransforms.py:mergediscnodes',
			'discodop/treetransforms.py:contsets',
			'discodop/tree.py:isdisc'])
def runsplit(case):
	lit, cls, mark, heads = case
	if not distinguishable(lit):
		raise Skip
	tree = G.build(lit, CLASSES[cls])
	if heads:
		# one head child for every phrasal node
		nodes = [n for n in tree.subtrees() if isinstance(n[0], Tree)]
		for k, node in enumerate(nodes):
			node[heads[k % len(heads)] % len(node)].type = HEAD
			node.source = ['w', 'l', node.label, 'm', 'f%d' % k, '0']
	before = info(tree)
	res = T.splitdiscnodes(tree, markorigin=mark)
	got = G.lit(res)
	require(not G.isdisc(got), 'still-discontinuous', got)
	# the parts of every node are exactly its maximal blocks
	want = []
	def expected(t, top):
		span = set(G.leaves(t))
		bl = blocks(span)
		if len(bl) == 1 or top:
			want.append((t[0], tuple(sorted(span))))
		else:
			for k, b in enumerate(bl):
				want.append((t[0] + '*' + (str(k) if mark else ''), tuple(b)))
		for c in t[1]:
			if isinstance(c, tuple):
				expected(c, False)
	expected(lit, True)
	if len(blocks(G.leaves(lit))) == 1:
		equal(G.labspans(got), sorted(want), 'parts', got)
	equal(G.leaves(got), sorted(G.leaves(lit)), 'words', got)
	if cls == 'P':
		require(G.consistent(res), 'parent-links', got)
	back = T.mergediscnodes(res)
	final = G.lit(back)
	equal(G.sortcanon(final), G.sortcanon(lit), 'merge', got)
	if cls == 'P':
		require(G.consistent(back), 'parent-links-merged', got)
	if heads:
		equal(info(back), before, 'head-marks', got)


def raisegen(rng, tier):
	for lit in permutedtrees(rng, tier):
		yield (lit, rng.choice('TP'), [rng.randrange(5) for _ in range(12)])


@section('raise', raisegen, 'the same trees with head marks; discontinuous '
		'nodes are raised', share=.5,
		functions=['discodop/treetransforms.py:raisediscnodes'])
def runraise(case):
	lit, cls, heads = case
	tree = G.build(lit, CLASSES[cls])
	for k, node in enumerate([n for n in tree.subtrees()
			if isinstance(n[0], Tree)]):
		node[heads[k % len(heads)] % len(node)].type = HEAD
	res = G.lit(T.raisediscnodes(tree))
	require(not G.isdisc(res), 'still-discontinuous', res)
	equal(sorted(n for n in G.labspans(res) if len(n[1]) == 1 and n[0] in
			G.TAGS), sorted(n for n in G.labspans(lit) if len(n[1]) == 1
			and n[0] in G.TAGS), 'preterminals', res)
	if cls == 'P':
		require(G.consistent(tree), 'parent-links', res)


def spangen(rng, tier):
	for n, lit in enumerate(permutedtrees(rng, tier)):
		yield (lit, 'TP'[n & 1])


@section('spans', spangen, 'every node of the same trees', share=2,
		functions=['discodop/treetransforms.py:addbitsets',
			'discodop/treetransforms.py:fanout',
			'discodop/treetransforms.py:complexity',
			'discodop/treetransforms.py:complexityfanout',
			'discodop/treetransforms.py:fanoutcomplexity',
			'discodop/treetransforms.py:contsets',
			'discodop/treetransforms.py:getbits',
			'discodop/treetransforms.py:addfanoutmarkers',
			'discodop/treetransforms.py:removefanoutmarkers',
			'discodop/treetransforms.py:treebankfanout',
			'discodop/tree.py:isdisc', 'discodop/tree.py:bitfanout',
			'discodop/tree.py:ranges', 'discodop/grammar.py:ranges',
			'discodop/grammar.py:rangeheads'])
def runspan(case):
	lit, cls = case
	tree = G.build(lit, CLASSES[cls])
	frozen = T.addbitsets(tree)
	equal(G.lit(tree), lit, 'argument-modified')
	equal(G.lit(frozen), lit, 'frozen')
	require(isinstance(frozen, ImmutableTree), 'frozen-class')
	best = 1
	for node, fnode, l in zip(tree.subtrees(), frozen.subtrees(),
			G.nodes(lit)):
		span = set(G.leaves(l))
		bl = blocks(span)
		f = len(bl)
		bits = sum(1 << i for i in span)
		equal(fnode.bitset, bits, 'bitset', l)
		equal(T.fanout(fnode), f, 'fanout', l)
		equal(extfanout(bits), f, 'bit-fanout', l)
		equal(tree_.bitfanout(bits), f, 'bitfanout', l)
		equal(bool(tree_.isdisc(node)), f > 1, 'isdisc', l)
		equal(bool(tree_.isdisc(fnode)), f > 1, 'isdisc-frozen', l)
		equal(list(T.getbits(bits)), sorted(span), 'getbits', l)
		seq = sorted(span)
		equal([list(a) for a in tree_.ranges(seq)], bl, 'ranges', l)
		equal([list(a) for a in grammar.ranges(seq)], bl, 'grammar-ranges', l)
		equal(list(grammar.rangeheads(seq)), [b[0] for b in bl],
				'rangeheads', l)
		kids = [len(blocks(G.leaves(c))) if isinstance(c, tuple) else 1
				for c in l[1]]
		comp = f + sum(kids)
		equal(T.complexity(fnode), comp, 'complexity', l)
		equal(T.complexityfanout(fnode), (comp, f), 'complexityfanout', l)
		equal(T.fanoutcomplexity(fnode), (f, comp), 'fanoutcomplexity', l)
		if len(l[1]) > 1:
			best = max(best, f)
		if all(isinstance(c, tuple) for c in l[1]):
			# partition of the children into continuous subsets; each child
			# is listed with the block of its first word
			sets = [[G.lit(c) for c in s] for s in T.contsets(list(node))]
			want = []
			for b in bl:
				want.append([c for c in sorted(l[1], key=lambda x: min(
						G.leaves(x))) if min(G.leaves(c)) in b])
			if all(len(blocks(G.leaves(c))) == 1 for c in l[1]):
				equal(sets, want, 'contsets', l)
	equal(T.treebankfanout([tree]), (best, 0)
			if any(len(l[1]) > 1 for l in G.nodes(lit)) else (1, 0),
			'treebankfanout')
	equal(tree_.isdisc(5), False, 'isdisc-leaf')
	equal(T.fanout(5), 1, 'fanout-leaf')
	# markers
	want = [(l[0] + ('_%d' % len(blocks(G.leaves(l)))
			if len(blocks(G.leaves(l))) > 1 else ''),
			tuple(G.leaves(l))) for l in G.nodes(lit)]
	if any('_' in l[0] for l in G.nodes(lit)):
		return
	marked = T.addfanoutmarkers(tree)
	equal([(n.label, tuple(n.leaves())) for n in marked.subtrees()], want,
			'markers')
	again = T.addfanoutmarkers(marked)
	equal([(n.label, tuple(n.leaves())) for n in again.subtrees()], want,
			'markers-idempotent')
	equal(G.lit(T.removefanoutmarkers(again)), lit, 'unmark')


def bankgen(rng, tier):
	while True:
		yield ([G.randtree(rng, rng.choice([2, 3, 5, 8]), disc=.5)
				for _ in range(rng.choice([1, 2, 4]))], )


@section('treebankfanout', bankgen, 'treebanks of up to 4 trees', share=.3,
		functions=['discodop/treetransforms.py:treebankfanout'])
def runbank(case):
	lits = case[0]
	want = max((len(blocks(G.leaves(n))), k) for k, l in enumerate(lits)
			for n in G.nodes(l) if len(n[1]) > 1)
	equal(T.treebankfanout([G.build(l) for l in lits]), want, 'value')


def seqgen(rng, tier):
	for n in range(1 << 8):
		yield (sorted(i for i in range(8) if n >> i & 1), )
	while True:
		p = rng.random()
		off = rng.choice([0, 0, 1, 31, 60, 64, 120, 1000])
		yield ([off + i for i in range(rng.choice([5, 20, 70, 140]))
				if rng.random() < p], )


@section('sequences', seqgen, 'all subsets of 8 positions; random sets around '
		'word boundaries', share=.5,
		functions=['discodop/tree.py:ranges', 'discodop/grammar.py:ranges',
			'discodop/grammar.py:rangeheads', 'discodop/tree.py:bitfanout',
			'discodop/treetransforms.py:getbits'])
def runseq(case):
	seq = case[0]
	bl = blocks(seq)
	bits = sum(1 << i for i in seq)
	equal([list(a) for a in tree_.ranges(list(seq))], bl, 'ranges')
	equal([list(a) for a in tree_.ranges(iter(seq))], bl, 'ranges-iter')
	equal([list(a) for a in grammar.ranges(list(seq))], bl, 'grammar-ranges')
	equal(list(grammar.rangeheads(list(seq))), [b[0] for b in bl],
			'rangeheads')
	equal(list(grammar.rangeheads(tuple(seq))), [b[0] for b in bl],
			'rangeheads')
	equal(list(T.getbits(bits)), seq, 'getbits')
	equal(tree_.bitfanout(bits), len(bl), 'bitfanout')
	equal(extfanout(bits), len(bl), 'bit-fanout')


if __name__ == '__main__':
	main()
