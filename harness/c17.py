"""C17: tree drawings."""
import re
import html
from collections import Counter
from hlib import section, require, equal, fail, main, Skip
import treegen as G
from discodop.tree import Tree, ParentedTree, DrawTree

WORDS = ['the', 'a', 'cat', 'x', 'y\xe9s', 'walks', '1', 'of', 'to', 'is', 'b',
		'c', 'd', 'e', 'f', 'g', 'h']


def gentrees(rng, tier):
	for n in range(1, 5):
		for s in G.shapes(n):
			yield named(s), list(WORDS[:n])
	while True:
		n = rng.randint(1, rng.choice([4, 8, 14]))
		t = G.randtree(rng, n, disc=rng.choice([0, .2, .5]),
				unary=rng.choice([0, .15, .3]), preterm=rng.random() < .8,
				canonical=rng.random() < .7, maxkids=5)
		# some words may not be part of the tree
		extra = rng.choice([0, 0, 0, 2])
		if extra:
			pos = sorted(rng.sample(range(n + extra), n))
			t = remap(t, pos)
		yield t, [rng.choice(WORDS) for _ in range(n + extra)]


def remap(t, pos):
	if isinstance(t, tuple):
		return (t[0], [remap(c, pos) for c in t[1]])
	return pos[t]


def named(s):
	if isinstance(s, list):
		return ('S', [named(c) for c in s])
	return ('N', [s])


@section('layout', gentrees, 'distinct cells, words in order, parents above '
		'children, exactly the edges of the tree, no overlaps', share=2,
		functions=('DrawTree.nodecoords', ))
def layout(case):
	t, sent = case
	tree = G.build(t, ParentedTree)
	d = DrawTree(tree, sent)
	equal(G.lit(tree), t, 'tree-changed')
	ids = sorted(d.nodes)
	internal = {i: d.nodes[i] for i in ids if isinstance(d.nodes[i], Tree)}
	equal(sorted(d.coords), ids, 'every-node-has-a-cell', case)
	equal(len(set(d.coords.values())), len(ids), 'distinct-cells', case)
	allnodes = list(G.nodes(t))
	equal(Counter((x.label, tuple(sorted(x.leaves())))
			for x in internal.values()),
			Counter((x[0], tuple(sorted(G.leaves(x)))) for x in allnodes),
			'nodes', case)
	lv = G.leaves(t)
	equal(Counter(d.nodes[i] for i in ids if i not in internal),
			Counter(sent[i] for i in lv), 'words', case)
	# edges: each node but one has a parent, which has it as child
	roots = [i for i in ids if i not in d.edges]
	equal(len(roots), 1, 'one-root', case)
	require(set(d.edges) <= set(ids) and set(d.edges.values())
			<= set(internal), 'edge-ends', case)
	kids = {}
	for c, p in d.edges.items():
		kids.setdefault(p, []).append(c)
	require(G.sortcanon(struct(roots[0], kids, d, internal)[0])
			== canonwords(t, sent), 'edges', lambda: (
			struct(roots[0], kids, d, internal)[0], case))
	for c, p in d.edges.items():
		require(d.coords[p][0] < d.coords[c][0], 'parent-above-child',
				lambda: (d.coords[p], d.coords[c], case))
	# words from left to right
	cols = sorted((d.coords[i][1], i) for i in ids if i not in internal)
	equal([d.nodes[i] for _, i in cols], [sent[i] for i in sorted(lv)],
			'word-order', case)
	require(len({c for c, _ in cols}) == len(cols), 'word-columns', case)
	equal(len({d.coords[i][0] for _, i in cols}), 1, 'word-row', case)
	equal(d.coords[roots[0]][0], 0, 'root-row', case)
	if G.isdisc(t):  # crossing edges are drawn over others
		return len(ids) > 3
	# continuous trees: lines do not overlap or run through nodes
	cell = {v: k for k, v in d.coords.items()}
	bars = {}
	for p, cs in kids.items():
		row, col = d.coords[p]
		xs = [d.coords[c][1] for c in cs] + [col]
		for x in range(min(xs), max(xs) + 1):
			require(cell.get((row, x), p) == p, 'line-through-node',
					lambda: (p, x, case))
			require((row, x) not in bars, 'overlapping-lines', lambda: case)
			bars[row, x] = p
		for c in cs:
			crow, x = d.coords[c]
			for r in range(row + 1, crow):
				require((r, x) not in cell, 'edge-through-node',
						lambda: (c, (r, x), case))
	for i in ids:
		equal(d.labels[i], internal[i].label if i in internal
				else d.nodes[i], 'labels', case)
	return len(ids) > 3


def struct(i, kids, d, internal):
	"""Tree according to the edges; words are ordered by column."""
	order = {}
	for n, (_, j) in enumerate(sorted((d.coords[j][1], j) for j in d.nodes
			if j not in internal)):
		order[j] = n

	def rec(j):
		if j not in internal:
			return order[j]
		return (internal[j].label, [rec(c) for c in kids.get(j, ())])
	return rec(i), order


def canonwords(t, sent):
	pos = {i: n for n, i in enumerate(sorted(G.leaves(t)))}
	return G.sortcanon(remap(t, pos))


@section('text', gentrees, 'every word and label occurs in the drawing, words '
		'in order', functions=('DrawTree.text', 'DrawTree.svg',
		'DrawTree.__init__'))
def text(case):
	t, sent = case
	d = DrawTree(G.build(t, ParentedTree), sent)
	labels = Counter(x[0] for x in G.nodes(t))
	words = [sent[i] for i in sorted(G.leaves(t))]
	want = labels + Counter(words)
	for unicode_ in (False, True):
		res = d.text(unicodelines=unicode_)
		tokens = Counter(re.findall(r'[^\s_|\u2500-\u257f]+', res))
		equal(tokens, want, 'text', res)
		last = [x for x in res.splitlines() if x.strip()][-1]
		equal(last.split(), words, 'last-line', res)
	ansi = re.sub('\x1b\\[[0-9;]*m', '', d.text(ansi=True))
	tokens = Counter(re.findall(r'[^\s_|]+', ansi))
	equal(tokens, want, 'ansi', ansi)
	res = html.unescape(re.sub('<[^>]*>', ' ', d.text(html=True)))
	equal(Counter(re.findall(r'[^\s_|]+', res)), want, 'html', res)
	svg = html.unescape(re.sub('<[^>]*>', ' ', d.svg()))
	equal(Counter(svg.split()), want, 'svg', svg)
	require(len(re.findall('<text ', d.svg())) == sum(want.values()),
			'svg-nodes')


def genstrings(rng, tier):
	for t, sent in gentrees(rng, tier):
		if not G.isdisc(t):
			yield G.sortcanon(t), sent


@section('from-string', genstrings, 'drawing a tree given as string is '
		'drawing the tree', share=.4, functions=('DrawTree.__init__', ))
def fromstring(case):
	t, sent = case
	lv = sorted(G.leaves(t))
	sent = [sent[i] for i in lv]
	t = canonwords(t, None)

	def show(x, f):
		if isinstance(x, tuple):
			return '(%s %s)' % (x[0], ' '.join(show(c, f) for c in x[1]))
		return f(x)
	want = DrawTree(G.build(t, ParentedTree), sent)
	a = DrawTree(show(t, lambda i: '%d' % i), sent)
	b = DrawTree(show(t, lambda i: '%d=%s' % (i, sent[i])))
	equal(a.text(), want.text(), 'indices', case)
	equal(b.text(), want.text(), 'discbracket', case)
	if all(not w.isdigit() for w in sent):
		c = DrawTree(show(t, lambda i: sent[i]))
		equal(c.text(), want.text(), 'bracket', case)


if __name__ == '__main__':
	main()
