"""C14: heads and dependencies."""
import os
import tempfile
from collections import Counter
from hlib import section, require, equal, fail, main, Skip
import treegen as G
from discodop.tree import Tree, ParentedTree, HEAD, COMPLEMENT, MODIFIER
from discodop.punctuation import PUNCTTAGS
import discodop.heads as M
import discodop.treebank as TB

LABELS = ['S', 'NP', 'VP', 'CC', 'CONJP', 'np', 'NP[x]', 'NN', 'VB', 'X',
		'NP-SBJ']
TAGS = ['NN', 'VB', 'DT', 'CC', '$,', '.', ',', 'nn', 'NN[pl]', 'CONJP']
HEADS = ['NP', 'VP', 'NN', 'VB', 'S', 'CC', 'X', 'DT', 'NP-SBJ', '.']
DIRS = ['LEFT-TO-RIGHT', 'RIGHT-TO-LEFT', 'LEFT', 'RIGHT', 'LEFTDIS',
		'RIGHTDIS']


def isp(label):
	# words are not consulted: only labels of siblings
	return label in PUNCTTAGS


def expected(label, kids, types, funcs, rules, wordpunct):
	"""Index of the head child according to the documentation."""
	for n, t in enumerate(types):
		if t == HEAD:
			return n
	for n, f in enumerate(funcs):
		if f is not None and 'HD' in f.upper().split('-'):
			return n
	match = [k.split('[')[0].upper() for k in kids]
	order = list(range(len(kids)))
	found = None
	for direction, heads in rules.get(label, ()):
		order = list(range(len(kids)))
		if direction.startswith('RIGHT'):
			order.reverse()
		if direction.endswith('DIS'):
			cands = [n for n in order if match[n] in heads]
		else:
			cands = [n for h in heads for n in order if match[n] == h]
		if cands:
			found = cands[0]
			break
	if found is None:
		for n in order:
			if not isp(kids[n]):
				return n
		return order[0]
	if found >= 2 and kids[found - 1] in ('CC', 'CONJP'):
		for n in range(found - 2, -1, -1):
			if not isp(kids[n]) and not wordpunct(kids[n]):
				return n
	return found


def randrules(rng):
	return [(rng.choice(DIRS), rng.sample(HEADS, rng.randint(1, 3)))
			for _ in range(rng.randint(0, 3))]


def gennode(rng, tier):
	"""(label, children labels, types, functions, rules)"""
	while True:
		n = rng.randint(1, 6)
		kids = [rng.choice(LABELS + TAGS) for _ in range(n)]
		types, funcs = [None] * n, [None] * n
		c = rng.random()
		if c < .15:
			types[rng.randrange(n)] = HEAD
		if .1 < c < .3:
			types[rng.randrange(n)] = types[rng.randrange(n)] or MODIFIER
		if c > .8:
			for _ in range(rng.randint(1, 3)):
				funcs[rng.randrange(n)] = rng.choice(['HD', 'SB', 'hd', '--',
						'OC-HD', 'HDX', 'MNR-hd-X', ''])
		label = rng.choice(['S', 'NP', 'VP'])
		rules = {a: randrules(rng) for a in ['S', 'NP', 'VP']
				if rng.random() < .85}
		yield label, kids, types, funcs, rules


@section('headfinder', gennode, 'the head is the child the rules select',
		share=2, functions=('headfinder', ))
def headfinder(case):
	label, kids, types, funcs, rules = case
	nodes = []
	for n, k in enumerate(kids):
		c = ParentedTree(k, [ParentedTree('T', [n])] if n % 2 else [n])
		c.type = types[n]
		if funcs[n] is not None:
			c.source = ['w', 'l', k, '--', funcs[n], '0']
		nodes.append(c)
	node = ParentedTree(label, nodes)
	head = M.headfinder(node, {a: [(d, list(h)) for d, h in b]
			for a, b in rules.items()})
	idx = [n for n, c in enumerate(nodes) if c is head]
	require(len(idx) == 1, 'not-a-child', lambda: (case, head))
	from discodop.punctuation import PUNCTUATION
	want = expected(label, kids, types, funcs, rules,
			lambda lab: lab in PUNCTUATION)
	equal(idx[0], want, 'wrong-child', case)
	equal([c.type for c in nodes], types, 'changed-types')
	equal(G.lit(node), (label, [(k, [('T', [n])] if n % 2 else [n])
			for n, k in enumerate(kids)]), 'changed-tree')
	return len(kids) > 1


def gentrees(rng, tier):
	while True:
		n = rng.randint(1, 8)
		t = G.randtree(rng, n, disc=rng.choice([0, 0, .4]),
				unary=rng.choice([0, .2]), labels=LABELS, tags=TAGS,
				canonical=rng.random() < .7)
		rules = {a: randrules(rng) for a in LABELS if rng.random() < .7}
		yield t, rules


def deproots(node):
	pass


@section('applyheadrules', gentrees, 'one head for every phrase; every word '
		'gets one governor, without cycles', share=2, functions=(
		'applyheadrules', 'getheadpos', 'dependencies', '_makedep',
		'writedependencies'))
def applyheadrules(case):
	t, rules = case
	tree = G.build(t, ParentedTree)
	M.applyheadrules(tree, rules)
	equal(G.lit(tree), t, 'changed-tree')
	equal(tree.type, None, 'root-marked')
	from discodop.punctuation import PUNCTUATION
	for node in list(tree.subtrees()):
		if not isinstance(node[0], Tree):
			equal(M.getheadpos(node), node, 'headpos-preterminal')
			continue
		marks = [c for c in node if c.type == HEAD]
		equal(len(marks), 1, 'number-of-heads', (G.lit(node), case))
		want = expected(node.label, [c.label for c in node],
				[None] * len(node), [None] * len(node), rules,
				lambda lab: lab in PUNCTUATION)
		require(marks[0] is node[want], 'wrong-head', case)
	# head words
	for node in list(tree.subtrees()):
		x = node
		while isinstance(x[0], Tree):
			x = [c for c in x if c.type == HEAD][0]
		require(M.getheadpos(node) is x, 'headpos', case)
	n = len(G.leaves(t))
	if not isinstance(t[1][0], tuple):
		return False
	deps = TB.dependencies(tree)
	equal([a for a, _, _ in deps], list(range(1, n + 1)), 'governors', case)
	gov = {a: b for a, _, b in deps}
	for a in gov:
		seen = set()
		while a:
			require(a not in seen, 'cycle', lambda: (deps, case))
			seen.add(a)
			require(a in gov, 'unknown-governor', lambda: (deps, case))
			a = gov[a]
	headof = {}
	for node in tree.subtrees():
		headof[id(node)] = M.getheadpos(node)[0] + 1
	# one root for each child of the root node: its head word
	equal(sorted(a for a in gov if gov[a] == 0),
			sorted(headof[id(c)] for c in tree), 'roots', case)
	for a, lab, b in deps:
		equal(lab == 'root', b == 0, 'root-label', deps)
	want = set()
	for node in tree.subtrees():
		if node is tree or not isinstance(node[0], Tree):
			continue
		for c in node:
			if headof[id(c)] != headof[id(node)]:
				want.add((headof[id(c)], headof[id(node)]))
	equal({(a, b) for a, b in gov.items() if b}, want, 'dependencies', case)
	sent = ['w%d' % i for i in range(n)]
	tags = dict((i, c) for i, c in tree.pos())
	lines = TB.writedependencies(tree, sent, 'conll')
	require(lines.endswith('\n\n'), 'conll-end')
	rows = [x.split('\t') for x in lines.splitlines() if x]
	equal([(int(r[0]), r[1], r[3], int(r[6])) for r in rows],
			[(i + 1, sent[i], tags[i], gov[i + 1]) for i in range(n)],
			'conll', case)
	rows = [x.split('\t') for x in TB.writedependencies(
			tree, sent, 'mst').splitlines() if x]
	equal([rows[0], rows[1], [int(x) for x in rows[3]]],
			[sent, [tags[i] for i in range(n)], [gov[i + 1]
			for i in range(n)]], 'mst', case)
	total, num = TB.deplen(deps)
	equal(total, sum(abs(a - b) for a, b in gov.items() if b), 'deplen', deps)


def genfiles(rng, tier):
	def case(s):
		return ''.join(rng.choice([c.upper(), c.lower()]) for c in s) \
				if rng.random() < .3 else s
	while True:
		lines, seen = [], []
		for _ in range(rng.randint(1, 6)):
			c = rng.random()
			if c < .1:
				lines.append(rng.choice(['', '% comment', '   ',
						'%NP LEFT X Y']))
				continue
			label = rng.choice(['S', 'NP', 'VP', '$X'])
			if seen and c < .3:
				lines.append((label, 'LIKE', [rng.choice(seen)]))
			else:
				lines.append((label, rng.choice(DIRS),
						rng.sample(HEADS, rng.randint(1, 3))))
			seen.append(label)
		text = []
		for x in lines:
			if isinstance(x, str):
				text.append(x)
			else:
				sep = rng.choice([' ', '\t', '  '])
				text.append(case(sep.join([x[0], x[1]] + x[2])))
		yield lines, text


@section('readheadrules', genfiles, 'rules are read in order, LIKE copies the '
		'rules so far', share=.3, functions=('readheadrules', ))
def readheadrules(case):
	lines, text = case
	want = {}
	for x in lines:
		if isinstance(x, str):
			continue
		rules = want.setdefault(x[0], [])
		if x[1] == 'LIKE':
			rules.extend(list(want[x[2][0]]))
		else:
			rules.append((x[1], list(x[2])))
	with tempfile.TemporaryDirectory() as tmp:
		name = os.path.join(tmp, 'rules')
		with open(name, 'w', encoding='utf8') as out:
			out.write('\n'.join(text) + '\n')
		got = M.readheadrules(name)
	equal({a: [tuple(x) for x in b] for a, b in got.items()}, want, 'rules',
			text)


@section('headstats', gentrees, 'counts of head positions', share=.3,
		functions=('headstats', ))
def headstats(case):
	t, rules = case
	tree = G.build(t, ParentedTree)
	M.applyheadrules(tree, rules)
	other = G.build(t, ParentedTree)
	heads, unknown, pos1, pos2 = M.headstats([tree, other])
	wh, wu, w1, w2 = Counter(), Counter(), Counter(), Counter()
	for node in tree.subtrees():
		if len(node) > 1:
			for n, c in enumerate(node):
				wu[node.label, c.label] += 1
				if c.type == HEAD:
					wh[node.label, c.label] += 1
					w1[node.label, n] += 1
	flat = lambda d: Counter({(a, b): n for a, x in d.items()
			for b, n in x.items()})
	equal(flat(heads), wh, 'heads', case)
	equal(flat(pos1), w1, 'positions', case)
	equal(flat(unknown), wu, 'unknown', case)
	equal(sum(flat(pos2).values()), sum(w1.values()), 'positions-right', case)


if __name__ == '__main__':
	main()
