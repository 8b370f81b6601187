"""C03: all views of one tree agree; copies are faithful."""
import copy
import pickle
from hlib import section, require, equal, fail, main
from treegen import (build, lit, leaves, nodes, postnodes, randtree, permuted,
		consistent)
from discodop.tree import (Tree, ParentedTree, ImmutableTree,
		ImmutableParentedTree, DiscTree)


def small(depth, width, labs):
	"""All trees up to a depth and width, leaves numbered afterwards."""
	if depth == 0:
		return [0]
	sub = [0] + [x for d in range(1, depth) for x in small(d, width, labs)
			if True]
	uniq = []
	for x in sub:
		if x not in uniq:
			uniq.append(x)
	res = []
	for w in range(width + 1):
		def rec(k):
			if k == 0:
				yield []
				return
			for x in uniq:
				for rest in rec(k - 1):
					yield [x] + rest
		for kids in rec(w):
			for l in labs:
				res.append((l, kids))
	return res


def number(t, c):
	if isinstance(t, tuple):
		return (t[0], [number(x, c) for x in t[1]])
	c[0] += 1
	return c[0] - 1


def gen_trees(rng, tier):
	for t in small(2, 3, ['A']):
		yield number(t, [0])
	for t in small(3, 2, ['A']):
		yield number(t, [0])
	while True:
		n = rng.choice([1, 2, 3, 4, 6, 8, 12])
		t = randtree(rng, n, disc=rng.choice([0, .5]), unary=.3,
				preterm=rng.random() < .6)
		if rng.random() < .3:
			t = permuted(rng, t)
		if rng.random() < .2:  # an empty node somewhere
			t = (t[0], t[1] + [('E', [])])
		if rng.random() < .2:
			t = (t[0], [('E', [])] + t[1])
		yield t


def height(t):
	if not isinstance(t, tuple):
		return 1
	return 1 + max([height(c) for c in t[1]], default=0)


def positions(t, order):
	if not isinstance(t, tuple):
		return [()]
	kids = [(i, ) + p for i, c in enumerate(t[1]) for p in positions(c, order)]
	return ([()] if order in ('preorder', 'bothorder') else []) + kids + (
			[()] if order in ('postorder', 'bothorder') else [])


def get(t, pos):
	for i in pos:
		t = t[1][i]
	return t


def chk_views(t, cls):
	tree = build(t, cls)
	equal(lit(tree), t, 'construct')
	equal(tree.leaves(), leaves(t), 'leaves', t)
	equal([lit(x) for x in tree.subtrees()], list(nodes(t)), 'subtrees', t)
	equal([lit(x) for x in tree.postorder()], list(postnodes(t)),
			'postorder', t)
	cond = lambda x: x.label in ('NP', 'A', 'E')
	equal([lit(x) for x in tree.subtrees(cond)], [x for x in nodes(t)
			if x[0] in ('NP', 'A', 'E')], 'subtrees-condition', t)
	equal([lit(x) for x in tree.postorder(cond)], [x for x in postnodes(t)
			if x[0] in ('NP', 'A', 'E')], 'postorder-condition', t)
	ids = [id(x) for x in tree.subtrees()]
	equal(len(ids), len(set(ids)), 'once', t)
	equal(sorted(ids), sorted(id(x) for x in tree.postorder()), 'once', t)
	equal(tree.height(), height(t), 'height', t)
	want = [(c, n[0]) for n in nodes(t) for c in n[1]
			if not isinstance(c, tuple)]
	equal(tree.pos(), want, 'pos', t)
	wantnodes = [n for n in nodes(t) if any(not isinstance(c, tuple)
			for c in n[1])]
	got = tree.pos(nodes=True)
	equal([lit(x) for x in got], wantnodes, 'pos-nodes', t)
	require(all(any(x is y for y in tree.subtrees()) for x in got),
			'pos-nodes-identity', t)
	f = tree.find(lambda x: isinstance(x, Tree) and cond(x))
	wf = [x for x in t[1] if isinstance(x, tuple) and x[0] in
			('NP', 'A', 'E')]
	equal(None if f is None else lit(f), wf[0] if wf else None, 'find', t)
	for order in ('preorder', 'postorder', 'bothorder', 'leaves'):
		got = tree.treepositions(order)
		equal(got, positions(t, order), 'treepositions-' + order, t)
		for p in got:
			equal(lit(tree[p]), get(t, p), 'getitem', (t, p))
			equal(lit(tree[list(p)] if p else tree[p]), get(t, p),
					'getitem', (t, p))
	lv = leaves(t)
	lpos = positions(t, 'leaves')
	# leaf positions only (empty nodes contribute nothing)
	lpos = [p for p in lpos if not isinstance(get(t, p), tuple)]
	for i in range(len(lv)):
		equal(tree.leaf_treeposition(i), lpos[i], 'leaf_treeposition', (t, i))
		for j in range(i + 1, len(lv) + 1):
			a, b = lpos[i], lpos[j - 1]
			k = 0
			while k < min(len(a), len(b)) and a[k] == b[k]:
				k += 1
			got = tree.treeposition_spanning_leaves(i, j)
			equal(got, a[:k], 'treeposition_spanning_leaves', (t, i, j))
	for bad, exc in ((len(lv), IndexError), (-1, IndexError),
			(len(lv) + 3, IndexError)):
		try:
			tree.leaf_treeposition(bad)
		except exc:
			pass
		else:
			fail('leaf_treeposition-range', (t, bad))
	for i, j in ((0, 0), (2, 1)):
		try:
			tree.treeposition_spanning_leaves(i, j)
		except ValueError:
			pass
		else:
			fail('spanning-range', (t, i, j))
	equal((len(tree), bool(tree), [lit(x) for x in tree]), (len(t[1]),
			bool(t[1]), t[1]), 'sequence', t)
	for a in (None, 0, 1, -1, 2):
		for b in (None, 0, 1, -1, 5):
			equal([lit(x) for x in tree[a:b]], t[1][a:b], 'slice', t)
	equal(lit(tree), t, 'unchanged', t)


def mutable_ids(tree):
	"""Identities of everything mutable: nodes, children lists, sources."""
	res = set()
	for n in Tree.subtrees(tree):
		res.add(id(n))
		res.add(id(n.children))
		if n.source is not None:
			res.add(id(n.source))
	return res


def decorate(tree):
	for k, n in enumerate(tree.subtrees()):
		n.type = k % 3
		n.source = ['w%d' % k, 'l', n.label, '-', 'HD', '0']


def chk_copies(t):
	for cls in (Tree, ParentedTree, ImmutableTree, ImmutableParentedTree):
		tree = build(t, cls)
		decorate(tree)
		src = [(n.label, n.type, list(n.source)) for n in tree.subtrees()]
		copies = [('copy', tree.copy(deep=True), cls)]
		for c2 in (Tree, ParentedTree, ImmutableTree, ImmutableParentedTree):
			copies.append(('convert', c2.convert(tree), c2))
		if cls in (Tree, ParentedTree):
			copies.append(('freeze', tree.freeze(), ImmutableTree
					if cls is Tree else ImmutableParentedTree))
			copies.append(('freeze-leaf', tree.freeze(lambda x: x),
					ImmutableTree if cls is Tree else ImmutableParentedTree))
		copies.append(('deepcopy', copy.deepcopy(tree), cls)
				if cls in (Tree, ParentedTree) else copies[0])
		mine = mutable_ids(tree)
		for name, new, c2 in copies:
			require(all(type(n) is c2 for n in Tree.subtrees(new)),
					name + '-class', t)
			require(new == tree and not new != tree, name + '-equal', t)
			equal([(n.label, n.type, list(n.source)) for n in
					Tree.subtrees(new)], src, name + '-attributes', t)
			equal(lit(new), t, name + '-structure', t)
			require(not (mutable_ids(new) & mine), name + '-shared', t)
			if issubclass(c2, ParentedTree):
				require(consistent(new) and new.parent is None,
						name + '-parents', t)
			if issubclass(c2, ImmutableTree):
				equal(new.leaves(), leaves(t), name + '-leaves', t)
				for n in new.subtrees():
					equal(n.bitset, sum(1 << i for i in leaves(lit(n))),
							name + '-bitset', t)
		equal(lit(tree), t, 'source-changed', t)
		if issubclass(cls, ParentedTree):
			require(consistent(tree), 'source-parents', t)
	# mutating a copy leaves the source as it was and vice versa
	tree = build(t, ParentedTree)
	new = tree.copy(deep=True)
	for n in list(new.subtrees()):
		n.label += 'x'
		n.append(99)
	equal(lit(tree), t, 'copy-independent', t)


@section('views', gen_trees, 'all trees of depth 2 with up to 3 children and '
		'of depth 3 with up to 2, then random trees (also discontinuous, '
		'permuted, with empty nodes); all positions and leaf ranges', 2,
		functions=('Tree.subtrees', 'Tree.postorder', 'Tree.leaves',
		'Tree.pos', 'Tree.height', 'Tree.treepositions',
		'Tree.leaf_treeposition', 'Tree.treeposition_spanning_leaves',
		'Tree.__getitem__', 'Tree.find'))
def views(t):
	for cls in (Tree, ParentedTree, ImmutableTree, ImmutableParentedTree):
		chk_views(t, cls)
	return len(t[1]) > 0


def gen_copies(rng, tier):
	k = 0
	for t in gen_trees(rng, tier):
		k += 1
		if k < 400 or k % 3 == 0:
			yield t


@section('copies', gen_copies, 'same trees; all conversions between the '
		'tree classes', 1, functions=('Tree.copy', 'Tree.convert',
		'Tree.freeze', 'ImmutableTree.__init__'))
def copies(t):
	chk_copies(t)
	return True


def gen_eq(rng, tier):
	words = ['a', 'b']
	base = [t for t in small(2, 2, ['A', 'B']) if leaves(t)]
	for t in base:
		for u in base:
			if t[0] == 'A' and (len(leaves(t)) + len(leaves(u))) < 7:
				n1 = number(t, [0])
				n2 = number(u, [0])
				s1 = [words[i % 2] for i in range(len(leaves(t)))]
				s2 = [words[0 if i == 1 else i % 2] for i in range(
						len(leaves(u)))]
				yield (n1, s1, n2, s2)
	while True:
		n = rng.choice([1, 2, 3, 4, 5])
		t = randtree(rng, n, disc=.4, unary=.2, labels=['A', 'B'],
				tags=['C', 'D'], preterm=rng.random() < .5)
		s = [rng.choice(words) for _ in range(n)]
		u, s2 = t, list(s)
		k = rng.randrange(5)
		if k == 0:
			s2[rng.randrange(n)] = rng.choice(words)
		elif k == 1:
			u = randtree(rng, n, disc=.4, labels=['A', 'B'],
					tags=['C', 'D'], preterm=rng.random() < .5)
		elif k == 2:
			s2 = [rng.choice(words) for _ in range(n + 1)]
			shift = rng.randrange(2)
			u = shiftleaves(t, shift)
		elif k == 3:
			u = relabel(rng, t)
		yield (t, s, u, s2)


def shiftleaves(t, k):
	return (t[0], [shiftleaves(c, k) for c in t[1]]) if isinstance(
			t, tuple) else t + k


def relabel(rng, t):
	if not isinstance(t, tuple):
		return t
	return (rng.choice('AB') if rng.random() < .2 else t[0],
			[relabel(rng, c) for c in t[1]])


def withwords(t, s):
	return (t[0], [withwords(c, s) for c in t[1]]) if isinstance(
			t, tuple) else s[t]


@section('equality', gen_eq, 'pairs of small trees with equal or different '
		'shapes, labels, words and indices', 1, functions=('Tree.__eq__',
		'ImmutableTree.__hash__', 'DiscTree.__eq__', 'DiscTree.__hash__'))
def eq(case):
	t, s, u, s2 = case
	for cls in (Tree, ParentedTree, ImmutableTree):
		a, b = build(t, cls), build(u, cls)
		equal(a == b, t == u, cls.__name__ + '-eq', case)
		equal(a != b, t != u, cls.__name__ + '-ne', case)
	a, b = build(t, ImmutableTree), build(u, ImmutableTree)
	if a == b:
		equal(hash(a), hash(b), 'hash', case)
	d, e = DiscTree(build(t, Tree), s), DiscTree(build(u, Tree), s2)
	same = withwords(t, s) == withwords(u, s2)
	equal(d == e, same, 'DiscTree-eq', case)
	equal(e == d, same, 'DiscTree-eq', case)
	equal(d != e, not same, 'DiscTree-ne', case)
	if same:
		equal(hash(d), hash(e), 'DiscTree-hash', case)
	require(d == DiscTree(build(t, ParentedTree), s) and hash(d) == hash(
			DiscTree(build(t, ParentedTree), s)), 'DiscTree-self', case)
	return t != u or s != s2


def gen_frozen(rng, tier):
	for k in range(14):
		yield (('S', [('A', [0]), 1, ('B', [('C', [2])])]), k)
	for _ in range(60):
		t = randtree(rng, rng.choice([2, 3, 5]), disc=.3)
		for k in range(14):
			yield (t, k)


@section('frozen', gen_frozen, 'every mutating operation on immutable trees',
		.3, functions=('ImmutableTree.*', ))
def frozen(case):
	t, k = case
	for cls in (ImmutableTree, ImmutableParentedTree):
		tree = build(t, cls)
		h, lv = hash(tree), tree.leaves()
		x = build(('Z', [9]), cls)

		def imul():
			y = tree
			y *= 2

		def iadd():
			y = tree
			y += [x]
		ops = [lambda: tree.append(x), lambda: tree.extend([x]),
				lambda: tree.insert(0, x), lambda: tree.insert(-1, x),
				lambda: tree.pop(), lambda: tree.pop(0),
				lambda: tree.remove(tree[0]),
				lambda: tree.__setitem__(0, x),
				lambda: tree.__setitem__((0, ), x),
				lambda: tree.__setitem__(slice(0, 1), [x]),
				lambda: tree.__delitem__(0),
				lambda: tree.__delitem__(slice(0, 1)), imul, iadd]
		try:
			ops[k]()
		except (ValueError, TypeError):
			pass
		else:
			fail('accepted-%d' % k, case)
		equal(lit(tree), t, 'changed', case)
		equal((hash(tree), tree.leaves()), (h, lv), 'changed', case)
	return True


def gen_str(rng, tier):
	for t in gen_trees(rng, tier):
		if all(n[1] for n in nodes(t)):
			yield t


@section('parse', gen_str, 'random trees through str() and pprint()', .5,
		functions=('Tree.parse', 'Tree.__str__', 'Tree.pprint'))
def parse(t):
	for cls in (Tree, ParentedTree):
		tree = build(t, cls)
		new = cls.parse(str(tree))
		require(type(new) is cls, 'class', t)
		equal(lit(new), t, 'str', t)
		for margin in (1, 10, 70):
			equal(lit(cls.parse(tree.pprint(margin=margin))), t, 'pprint', t)
		equal(lit(cls(str(tree))), t, 'constructor', t)
		equal(lit(eval(repr(tree))), t, 'repr', t)
	return True


if __name__ == '__main__':
	main()
