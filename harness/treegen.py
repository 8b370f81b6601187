"""Generators of trees as literals: (label, [child...]); leaves are ints."""
import sys
from discodop.tree import Tree, ParentedTree, ImmutableTree, DiscTree

LABELS = ['S', 'NP', 'VP', 'PP', 'X', 'A', 'B']
TAGS = ['N', 'V', 'D', 'P', 'Z']


def build(lit, cls=ParentedTree):
	if isinstance(lit, tuple):
		return cls(lit[0], [build(c, cls) for c in lit[1]])
	return lit


def lit(tree):
	"""The literal of a Tree object."""
	if isinstance(tree, Tree):
		return (tree.label, [lit(c) for c in tree.children])
	return tree


def leaves(t):
	if not isinstance(t, tuple):
		return [t]
	return [x for c in t[1] for x in leaves(c)]


def nodes(t):
	"""All internal nodes, pre-order."""
	if isinstance(t, tuple):
		yield t
		for c in t[1]:
			for x in nodes(c):
				yield x


def postnodes(t):
	if isinstance(t, tuple):
		for c in t[1]:
			for x in postnodes(c):
				yield x
		yield t


def spanset(t):
	return frozenset(leaves(t))


def sortcanon(t):
	"""Canonical order: children by their least leaf, recursively."""
	if not isinstance(t, tuple):
		return t
	return (t[0], sorted([sortcanon(c) for c in t[1]],
			key=lambda c: min(leaves(c), default=-1)))


def fan(s):
	return sum(1 for i in s if i + 1 not in s)


def labspans(t):
	"""Multiset of (label, span) as a sorted list."""
	return sorted((n[0], tuple(sorted(leaves(n)))) for n in nodes(t))


def isdisc(t):
	return any(fan(set(leaves(n))) > 1 for n in nodes(t))


def shapes(n):
	"""All shapes of ordered trees over leaves 0..n-1 with every leaf under a
	preterminal and no unary chains."""
	def rec(lo, hi):
		if hi - lo == 1:
			yield lo
			return
		for parts in splits(lo, hi):
			for kids in prod(parts):
				yield kids

	def splits(lo, hi):
		# all ways of cutting [lo, hi) in two or more parts
		size = hi - lo
		for mask in range(1, 1 << (size - 1)):
			cuts = [lo] + [lo + i + 1 for i in range(size - 1)
					if mask >> i & 1] + [hi]
			yield list(zip(cuts, cuts[1:]))

	def prod(parts):
		if not parts:
			yield []
			return
		for a in rec(*parts[0]):
			for rest in prod(parts[1:]):
				yield [a] + rest
	return rec(0, n)


def randtree(rng, n, disc=0.0, unary=0.1, labels=LABELS, tags=TAGS,
		maxkids=4, preterm=True, canonical=True, root=None):
	"""Random tree over leaves 0..n-1; disc: probability of scrambling."""
	items = []
	for i in range(n):
		items.append((rng.choice(tags), [i]) if preterm or rng.random() < .5
				else i)
	if len(items) == 1:
		t = (root or rng.choice(labels), items)
		return t
	while len(items) > 1:
		k = min(len(items), rng.choice([2, 2, 2, 3, 3, maxkids]))
		if len(items) <= 3 and rng.random() < .5:
			k = len(items)
		if rng.random() < disc:
			idx = sorted(rng.sample(range(len(items)), k))
		else:
			a = rng.randrange(len(items) - k + 1)
			idx = list(range(a, a + k))
		new = (rng.choice(labels), [items[i] for i in idx])
		while rng.random() < unary:
			new = (rng.choice(labels), [new])
		first = idx[0]
		items = [new if i == first else x for i, x in enumerate(items)
				if i == first or i not in idx]
	t = items[0]
	if not isinstance(t, tuple):
		t = (rng.choice(labels), [t])
	if root:
		t = (root, t[1])
	return sortcanon(t) if canonical else t


def permuted(rng, t):
	"""Shuffle the order of children everywhere."""
	if not isinstance(t, tuple):
		return t
	kids = [permuted(rng, c) for c in t[1]]
	rng.shuffle(kids)
	return (t[0], kids)


WORDS = ['the', 'a', 'cat', 'dog', 'sleeps', 'saw', 'Haus', 'x', 'y\xe9s']


def randsent(rng, n, words=WORDS):
	return [rng.choice(words) for _ in range(n)]


def consistent(tree):
	"""Parent links of a ParentedTree are consistent (C02)."""
	stack = [tree]
	seen = set()
	while stack:
		node = stack.pop()
		if id(node) in seen:
			return False
		seen.add(id(node))
		for c in node.children:
			if isinstance(c, Tree):
				if c.parent is not node:
					return False
				stack.append(c)
	return True
