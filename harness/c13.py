"""C13: tree edit distance."""
import itertools
from collections import Counter
from functools import lru_cache
from hlib import section, require, equal, fail, main, Skip, TIER
import treegen as G
from discodop.tree import Tree, ParentedTree, ImmutableTree
import discodop.treedist as M

LABELS = ['a', 'b', 'c']


def plain(t):
	"""Literal with canonical order and terminals merged in preterminals."""
	if not isinstance(t[1][0], tuple):
		return ('%s-%d' % (t[0], t[1][0]), ())
	kids = sorted(t[1], key=lambda c: min(G.leaves(c)))
	return (t[0], tuple(plain(c) for c in kids))


@lru_cache(maxsize=None)
def forestdist(f, g):
	"""Minimum number of operations between ordered forests, leftmost-first
	(the code under test works from the right)."""
	if not f:
		return sum(size(t) for t in g)
	if not g:
		return sum(size(t) for t in f)
	a, b = f[0], g[0]
	return min(1 + forestdist(a[1] + f[1:], g),
			1 + forestdist(f, b[1] + g[1:]),
			(a[0] != b[0]) + forestdist(a[1], b[1])
			+ forestdist(f[1:], g[1:]))


def size(t):
	return 1 + sum(size(c) for c in t[1])


def flat(t):
	"""[(label, first, last)] in preorder, intervals for ancestry."""
	res = []

	def rec(x):
		n = len(res)
		res.append(None)
		for c in x[1]:
			rec(c)
		res[n] = (x[0], n, len(res))
	rec(t)
	return res


def mappingdist(t, u):
	"""Minimum over all Tai mappings, by enumeration."""
	a, b = flat(t), flat(u)
	best = [len(a) + len(b)]

	def rel(x, i, j):
		if x[i][1] <= j < x[i][2]:
			return 'anc'
		if x[j][1] <= i < x[j][2]:
			return 'desc'
		return 'left' if i < j else 'right'

	def rec(i, pairs, cost):
		if i == len(a):
			total = cost + len(a) + len(b) - 2 * len(pairs)
			best[0] = min(best[0], total)
			return
		rec(i + 1, pairs, cost)
		used = {q for _, q in pairs}
		for j in range(len(b)):
			if j in used:
				continue
			if all(rel(a, i, p) == rel(b, j, q) for p, q in pairs):
				rec(i + 1, pairs + [(i, j)], cost + (a[i][0] != b[j][0]))
	rec(0, [], 0)
	return best[0]


def small(n):
	for shape in G.shapes(n):
		yield shape


def gentrees(rng, tier):
	def tree(n):
		return G.randtree(rng, n, disc=rng.choice([0, 0, .5]),
				unary=rng.choice([0, .3]), labels=LABELS, tags=LABELS[:2],
				canonical=rng.random() < .8, maxkids=3)
	yield ('a', [('b', [0])]), ('a', [('b', [0])])
	yield ('a', [('b', [0])]), ('b', [('a', [0])])
	while True:
		n = rng.choice([1, 2, 3, 3, 4, 4, 5, 6])
		t = tree(n)
		c = rng.randrange(4)
		if c == 0:
			u = tree(n)
		elif c == 1:
			u = tree(rng.randint(1, 6))
		elif c == 2:
			u = perturb(rng, perturb(rng, t))
		else:
			u = perturb(rng, t)
		yield t, u


def perturb(rng, t):
	"""Relabel, remove or insert a node."""
	if not isinstance(t, tuple):
		return t
	ns = [x for x in G.nodes(t)]
	target = rng.randrange(len(ns))
	op = rng.choice('RDI')
	count = [-1]

	def rec(x):
		count[0] += 1
		me = count[0] == target
		kids = []
		for c in x[1]:
			if isinstance(c, tuple):
				kids.extend(rec(c))
			else:
				kids.append(c)
		if not me:
			return [(x[0], kids)]
		if op == 'R':
			return [(rng.choice(LABELS), kids)]
		if op == 'D' and target and isinstance(x[1][0], tuple):
			return kids
		if op == 'I' and isinstance(x[1][0], tuple):
			k = rng.randrange(len(kids))
			m = rng.randint(k + 1, len(kids))
			return [(x[0], kids[:k] + [(rng.choice(LABELS), kids[k:m])]
					+ kids[m:])]
		return [(x[0], kids)]
	res = rec(t)
	return res[0]


@section('treedist', gentrees, 'the distance is the minimum number of '
		'operations, in both implementations', share=2, functions=('treedist',
		'newtreedist', 'geteditstats', 'AnnotatedTree', 'prepare', 'strdist'))
def treedist(case):
	t, u = case
	a, b = plain(t), plain(u)
	want = forestdist((a, ), (b, ))
	if size(a) <= 5 and size(b) <= 5:
		equal(want, mappingdist(a, b), 'oracles-disagree')
	x, y = G.build(t, ParentedTree), G.build(u, ParentedTree)
	equal(int(M.treedist(x, y)), want, 'treedist', case)
	equal(int(M.treedist(y, x)), want, 'symmetry', case)
	equal((G.lit(x), G.lit(y)), case, 'input-changed')
	require((want == 0) == (a == b), 'zero-iff-equal', case)
	if size(a) + size(b) <= 18:
		equal(int(M.newtreedist(x, y)), want, 'newtreedist', case)
		equal(int(M.newtreedist(y, x)), want, 'newtreedist-symmetry', case)
		equal((G.lit(x), G.lit(y)), case, 'input-changed')
		script(x, y, a, b, want)
	return want > 0


def labels(t):
	return Counter(l for l, _, _ in flat(t))


def script(x, y, a, b, want):
	"""The edit script accounts for every node."""
	x, y = M.prepare(x).freeze(), M.prepare(y).freeze()
	M.geteditstats.mem.clear()
	res = M.geteditstats((x, ), (y, ))
	M.geteditstats.mem.clear()
	equal(res.distance, want, 'script-distance')
	equal(len(res.editscript), want, 'script-length')
	left, right = labels(a), labels(b)
	for op, n1, n2 in res.editscript:
		require(op in 'DIS', 'operation', op)
		require((n1 is None) == (op == 'I') and (n2 is None) == (op == 'D'),
				'operation-arguments', (op, n1, n2))
		if n1 is not None:
			left[n1.label] -= 1
			require(left[n1.label] >= 0, 'script-node', n1.label)
		if n2 is not None:
			right[n2.label] -= 1
			require(right[n2.label] >= 0, 'script-node', n2.label)
		if op == 'S':
			require(n1.label != n2.label, 'void-substitution')
	equal(+left, +right, 'script-remainder', (a, b))
	equal(res.matched, sum(left.values()), 'script-matched', (a, b))


def gentriples(rng, tier):
	trees = gentrees(rng, tier)
	while True:
		t, u = next(trees)
		yield t, u, perturb(rng, u) if rng.random() < .5 else next(trees)[0]


@section('triangle', gentriples, 'triangle inequality', share=.5,
		functions=('treedist', ))
def triangle(case):
	t, u, v = [G.build(x, ParentedTree) for x in case]
	ab, bc, ac = M.treedist(t, u), M.treedist(u, v), M.treedist(t, v)
	require(ac <= ab + bc, 'triangle', case)


@section('prepare', gentrees, 'preparing a tree keeps its nodes', share=.3,
		functions=('prepare', 'Terminal'))
def prepare(case):
	for t in case:
		tree = G.build(t, ParentedTree)
		p = M.prepare(tree)
		equal(totuple(p), plain(t), 'prepare', t)
		q = M.prepare(tree, includeterms=True)
		equal(terms(q), terms(G.build(G.sortcanon(t), Tree)), 'terminals', t)
		equal(G.lit(tree), t, 'input-changed')


def totuple(t):
	return (t.label, tuple(totuple(c) for c in t.children))


def terms(t):
	if isinstance(t, Tree):
		return (t.label, tuple(terms(c) for c in t.children))
	return t.label if isinstance(t, M.Terminal) else t


if __name__ == '__main__':
	main()
