"""C10: extracted grammars are well formed and derive their treebank."""
import io
import itertools
from collections import Counter
from hlib import section, require, equal, fail, main, Skip
import treegen as G
from discodop.tree import (Tree, ParentedTree, ImmutableTree, escape,
		unescape, writediscbrackettree)
from discodop.treetransforms import addfanoutmarkers, binarize, addbitsets
import discodop.treetransforms as T
import discodop.grammar as M
import discodop.gen as gen

LABELS = ['S', 'NP', 'VP', 'PP', 'X', 'A', 'NP-SBJ', 'S|<a,b>', 'VP^<S>',
		'C1', '$', 'VP_2']
TAGS = ['N', 'V', 'D', '$,', '.', 'NN-HD']
WORDS = ['the', 'a', 'cat', 'Haus', 'x', '(', ')', ',', '0=1', '1', 'Epsilon',
		'\xe9', '-', '#', '2']


def blocks(span):
	res = []
	for i in sorted(span):
		if res and res[-1][-1] + 1 == i:
			res[-1].append(i)
		else:
			res.append([i])
	return res


def yieldfunction(spans):
	"""The yield function of a node given the spans of its children."""
	owner = {i: n for n, s in enumerate(spans) for i in s}
	res = []
	for b in blocks(owner):
		comp = []
		for i in b:
			if not comp or comp[-1] != owner[i]:
				comp.append(owner[i])
		res.append(tuple(comp))
	return tuple(res)


def apply(yf, childblocks):
	"""Apply a yield function to lists of blocks."""
	queues = [list(b) for b in childblocks]
	res = []
	for comp in yf:
		out = []
		for n in comp:
			if not queues[n]:
				fail('not-linear', (yf, childblocks))
			out.extend(queues[n].pop(0))
		res.append(out)
	require(not any(queues), 'erasing', (yf, childblocks))
	return res


def wellformed(rule):
	nts, yf = rule
	if len(nts) == 2 and nts[1] == 'Epsilon':
		require(len(yf) == 1 and isinstance(yf[0], str), 'lexical', rule)
		return
	require(yf and all(comp for comp in yf), 'empty-component', rule)
	args = [n for comp in yf for n in comp]
	equal(set(args), set(range(len(nts) - 1)), 'variables', rule)
	for comp in yf:
		require(all(a != b for a, b in zip(comp, comp[1:])),
				'adjacent-variables', rule)


def randlit(rng, tier):
	n = rng.choice([1, 2, 3, 4, 5, 6, 8, 12, 20, 40, 70])
	return G.randtree(rng, n, disc=rng.choice([0, .3, .6, .9]), unary=.15,
			labels=LABELS, tags=TAGS, maxkids=rng.choice([2, 3, 6]),
			canonical=rng.random() < .7)


def relabel(shape, perm, k):
	c = itertools.count(k)
	def rec(s):
		if isinstance(s, list):
			return ('%s%d' % (G.LABELS[next(c) % 3], next(c) % 3),
					[rec(x) for x in s])
		return (G.TAGS[next(c) % 2], [perm[s]])
	res = rec(shape)
	return res if isinstance(shape, list) else ('S', [res])


def prodgen(rng, tier):
	k = 0
	for size in (1, 2, 3, 4):
		for shape in G.shapes(size):
			for perm in itertools.permutations(range(size)):
				k += 1
				yield (relabel(shape, perm, k), ['w%d' % (n % 2)
						for n in range(size)], k % 2 == 0, 'TPI'[k % 3])
	while True:
		lit = randlit(rng, tier)
		n = len(G.leaves(lit))
		sent = [rng.choice(WORDS) for _ in range(n)]
		if rng.random() < .3:
			lit, sent = withfrontiers(rng, lit, sent)
		if rng.random() < .2:
			sent = sent + ['unused']
		yield (lit, sent, rng.random() < .5, rng.choice('TPI'))


def withfrontiers(rng, lit, sent):
	"""Replace some subtrees with frontier nodes."""
	sent = list(sent)
	def rec(t, top):
		if not isinstance(t, tuple):
			return t
		if not top and rng.random() < .15:
			idx = sorted(G.leaves(t))
			for i in idx:
				sent[i] = None
			return (t[0], idx)
		return (t[0], [rec(c, False) for c in t[1]])
	return rec(lit, True), sent


CLS = dict(T=Tree, P=ParentedTree, I=ImmutableTree)


@section('productions', prodgen, 'every shape and permutation of at most 4 '
		'leaves; random discontinuous trees of at most 70 leaves, some with '
		'frontier nodes: the rule of every node, applied bottom-up',
		share=2, functions=['discodop/grammar.py:lcfrsproductions'])
def runprod(case):
	lit, sent, frontiers, cls = case
	tree = G.build(lit, CLS[cls])
	rules = M.lcfrsproductions(tree, sent, frontiers=frontiers)
	equal(G.lit(tree), lit, 'tree-changed')
	want = []
	for node in G.nodes(lit):
		if isinstance(node[1][0], int):
			if len(node[1]) == 1 and sent[node[1][0]] is not None:
				want.append(((node[0], 'Epsilon'), (escape(sent[node[1][0]]), )))
			elif frontiers:
				want.append(((node[0], ), ()))
		else:
			want.append(((node[0], ) + tuple(c[0] for c in node[1]),
					yieldfunction([G.leaves(c) for c in node[1]])))
	equal(rules, want, 'rules')
	it = iter(rules)
	for node in G.nodes(lit):
		if isinstance(node[1][0], int):
			if frontiers or (len(node[1]) == 1
					and sent[node[1][0]] is not None):
				next(it)
			continue
		rule = next(it)
		wellformed(rule)
		equal(apply(rule[1], [blocks(G.leaves(c)) for c in node[1]]),
				blocks(G.leaves(node)), 'span', rule)


def badgen(rng, tier):
	yield (('S', [('A', [0]), ('B', [0])]), ['a', 'b'])
	yield (('S', [('A', [0]), ('B', [2])]), ['a', 'b'])
	yield (('S', [('A', [0]), ('B', [-1])]), ['a', 'b'])
	yield (('S', [('A', [0]), ('B', ['x'])]), ['a', 'b'])
	yield (('S', [('A', [0]), ('B', [])]), ['a', 'b'])
	yield (('S', [('A', [0]), 1]), ['a', 'b'])
	yield (('S', [('A', [0]), ('B', [1])]), [])


@section('rejected', badgen, 'malformed trees are rejected', share=.1,
		functions=['discodop/grammar.py:lcfrsproductions'])
def runbad(case):
	lit, sent = case
	try:
		M.lcfrsproductions(G.build(lit, Tree), sent)
	except ValueError:
		return
	fail('accepted', case)


def tbgen(rng, tier):
	while True:
		trees = []
		for _ in range(rng.choice([1, 2, 3, 6])):
			lit = randlit(rng, tier)
			trees.append((lit, [rng.choice(WORDS)
					for _ in G.leaves(lit)]))
		if rng.random() < .3:
			trees.extend(rng.choice(trees) for _ in range(3))
		yield (trees, [(rng.choice(LABELS), rng.choice(WORDS),
				rng.choice([1, 5])) for _ in range(rng.choice([0, 0, 2]))],
				rng.choice([None, (0, 1), (2, 1)]))


def clusters(grammar):
	"""Phrasal rules, non-initial binarized rules, lexical rules by word."""
	key = [(yf[0] if len(r) > 1 and r[1] == 'Epsilon' else '',
			'}<' in r[0], r[0]) for (r, yf), _ in grammar]
	equal(key, sorted(key), 'order')


@section('treebankgrammar', tbgen, 'random treebanks of at most 9 trees',
		functions=['discodop/grammar.py:treebankgrammar',
			'discodop/grammar.py:sortgrammar',
			'discodop/grammar.py:writegrammar',
			'discodop/gen.py:read_lcfrs_grammar',
			'discodop/gen.py:read_bitpar_grammar'])
def runtb(case):
	items, extra, binar = case
	trees, sents = [], []
	for lit, sent in items:
		tree = G.build(lit, ParentedTree)
		if binar:
			binarize(tree, horzmarkov=binar[0], vertmarkov=binar[1])
		addfanoutmarkers(tree)
		trees.append(tree)
		sents.append(sent)
	extrarules = {((lhs, 'Epsilon'), (escape(w), )): n for lhs, w, n in extra}
	want = Counter()
	for tree, sent in zip(trees, sents):
		for node in G.nodes(G.lit(tree)):
			if isinstance(node[1][0], int):
				want[(node[0], 'Epsilon'), (escape(sent[node[1][0]]), )] += 1
			else:
				want[(node[0], ) + tuple(c[0] for c in node[1]),
						yieldfunction([G.leaves(c) for c in node[1]])] += 1
	for rule, n in extrarules.items():
		want[rule] += n
	grammar = M.treebankgrammar(trees, sents, extrarules or None)
	equal(dict(grammar), dict(want), 'frequencies')
	equal(len(grammar), len(want), 'duplicates')
	clusters(grammar)
	for rule, _ in grammar:
		wellformed(rule)
	# every nonterminal has one fan-out (labels carry fan-out markers)
	fan = {}
	for (r, yf), _ in grammar:
		if fan.setdefault(r[0], len(yf)) != len(yf) and '_' not in r[0]:
			fail('fan-out', r[0])
	# write and read
	rules, lexicon = M.writegrammar(grammar)
	if len(max((r for (r, _), _ in grammar), key=len)) <= 11:
		res = gen.read_lcfrs_grammar(io.StringIO(rules), io.StringIO(lexicon))
		norm = lambda g: {((r, tuple(unescape(a) for a in yf)
				if len(r) == 2 and r[1] == 'Epsilon' else yf)): w
				for (r, yf), w in g}
		equal(norm(res), norm(grammar), 'write-read')
		equal(len(res), len(grammar), 'write-read-length')
	lines = [a.split('\t') for a in rules.splitlines()]
	equal([tuple(a[:-2]) for a in lines], [r for (r, _), _ in grammar
			if r[1] != 'Epsilon'], 'rule-order')
	if not any(G.isdisc(G.lit(tree)) for tree in trees) and all(
			len(r) <= 3 for (r, _), _ in grammar) and all(
			yf in (((0, 1), ), ((0, ), ))
			for (r, yf), _ in grammar if r[1] != 'Epsilon'):
		rules, lexicon = M.writegrammar(grammar, bitpar=True)
		res = gen.read_bitpar_grammar(io.StringIO(rules),
				io.StringIO(lexicon))
		total = Counter()
		for (r, _), n in grammar:
			total[r[0]] += n
		equal({(r, tuple(unescape(a) for a in yf)
				if r[1] == 'Epsilon' else yf): w for (r, yf), w in res},
				{(r, tuple(unescape(a) for a in yf)
				if r[1] == 'Epsilon' else yf): n / total[r[0]]
				for (r, yf), n in grammar}, 'bitpar')
		sums = Counter()
		for (r, _), w in res:
			sums[r[0]] += w
		require(all(abs(a - 1) < 1e-9 for a in sums.values()), 'sum-to-one')


# --- fragments -------------------------------------------------------------

def makefragment(rng, lit, sent):
	"""Random fragment of a tree, as a string with indices."""
	nodes = [n for n in G.nodes(lit) if isinstance(n[1][0], tuple)]
	root = rng.choice(nodes) if nodes else lit
	p = rng.choice([.2, .5, .8])
	sites = []  # (label, blocks, word)
	def cut(node, top):
		if isinstance(node[1][0], int):
			if rng.random() < .6:
				sites.append((node[0], [[i] for i in node[1]], sent[node[1][0]]))
			else:
				sites.append((node[0], [[i] for i in node[1]], None))
			return len(sites) - 1
		if not top and rng.random() < p:
			sites.append((node[0], blocks(G.leaves(node)), None))
			return len(sites) - 1
		return (node[0], [cut(c, False) for c in node[1]])
	t = cut(root, True)
	# one index for each block of a site, and one for each gap
	order = sorted((b[0], b[-1], n) for n, s in enumerate(sites) for b in s[1])
	idx, res, prev = 0, {}, None
	for a, b, n in order:
		if prev is not None and a != prev + 1:
			idx += 1
		res.setdefault(n, []).append(idx)
		idx += 1
		prev = b
	def show(t):
		if isinstance(t, int):
			label, _, word = sites[t]
			return '(%s %d=%s%s)' % (label, res[t][0], word or '',
					''.join(' %d=' % a for a in res[t][1:]))
		return '(%s %s)' % (t[0], ' '.join(show(c) for c in t[1]))
	return show(t)


def fraggen(rng, tier):
	words = ['the', 'cat', 'x', '0', ',', 'a=b', '.', '-']
	while True:
		frags = {}
		for _ in range(rng.choice([1, 2, 5, 12])):
			n = rng.choice([1, 2, 3, 4, 6, 9])
			lit = G.randtree(rng, n, disc=rng.choice([0, .5, .9]), unary=.15,
					labels=['S', 'NP', 'VP', 'X|<a,b>', 'VP_2'],
					tags=['N', 'V', '$,'], maxkids=rng.choice([2, 4]))
			sent = [rng.choice(words) for _ in range(n)]
			frag = makefragment(rng, lit, sent)
			frags[frag] = [rng.randrange(4) for _ in range(
					rng.choice([1, 2, 3]))]
		yield (sorted(frags.items()), )


def parsefrag(frag):
	"""Sites in order of their first index: (label, indices, word)."""
	sites = []
	for m in M.FRONTIERORTERM.finditer(frag):
		idx = [int(a.split('=')[0]) for a in m.group(2).split()]
		sites.append((m.group(1), idx, m.group(4) or None, m.group(0)))
	return sorted(sites, key=lambda s: s[1][0])


def compose(prods, sites):
	"""Components of the first rule, as sequences of (site, component)."""
	bylhs = {}
	for rule in prods:
		if not (len(rule[0]) == 2 and rule[0][1] == 'Epsilon'):
			require(rule[0][0] not in bylhs, 'ambiguous', prods)
			bylhs[rule[0][0]] = rule
	used = iter(range(len(sites)))

	def rec(label, first):
		if '}<' in label or first:
			nts, yf = bylhs[label]
			# left factored: sites occur from left to right
			return apply(yf, [rec(c, False) for c in nts[1:]])
		n = next(used)
		slabel, idx, word, _ = sites[n]
		equal(label, slabel if word is None else '%s@%s' % (slabel, word),
				'site-label', prods)
		return [[(n, a)] for a in range(len(idx))]
	res = rec(prods[0][0][0], True)
	equal(list(used), [], 'sites', prods)
	return res


@section('fragments', fraggen, 'random sets of at most 12 fragments of random '
		'discontinuous trees: rules and templates restore the fragment',
		share=1.5, functions=['discodop/grammar.py:flatten',
			'discodop/grammar.py:dopgrammar', 'discodop/grammar.py:compiletsg',
			'discodop/grammar.py:UniqueIDs',
			'discodop/treetransforms.py:factorconstituent'])
def runfrag(case):
	frags = dict(case[0])
	ids = M.UniqueIDs()
	expected = {}
	back = {}
	for frag in frags:
		prods, template = M.flatten(frag, ids)
		for rule in prods:
			wellformed(rule)
		sites = parsefrag(frag)
		if frag.count(' ') == 1:
			equal(len(prods), 0 if sites[0][2] is None else 1, 'lexical', frag)
			if sites[0][2] is not None:
				equal(prods[0], ((sites[0][0], 'Epsilon'),
						(escape(sites[0][2]), )), 'lexical', frag)
		else:
			equal(template.format(*[s[3] for s in sites]), frag, 'template',
					template)
			equal(prods[0][0][0], frag[1:frag.index(' ')], 'root', frag)
			owner = {i: (n, a) for n, s in enumerate(sites)
					for a, i in enumerate(s[1])}
			want = [[owner[i] for i in b] for b in blocks(owner)]
			phrasal = [p for p in prods if p[0][1] != 'Epsilon']
			equal(compose(phrasal, sites), want, 'composition', (frag, prods))
			equal(sorted(p for p in prods if p[0][1] == 'Epsilon'),
					sorted((('%s@%s' % (s[0], s[2]), 'Epsilon'),
						(escape(s[2]), )) for s in sites if s[2] is not None),
					'terminals', frag)
			require(all(len(p[0]) <= 3 for p in phrasal), 'binary', prods)
			require('}<' in phrasal[0][0][1] or '}<' in phrasal[0][0][-1],
					'first-rule-marked', prods)
	if any(f.count(' ') == 1 and parsefrag(f)[0][2] is None for f in frags):
		raise Skip
	# the grammar of a set of fragments
	trees = [Tree('%s' % label, [0]) for label in ('S', 'NP', 'VP',
			'X|<a,b>', 'VP_2', 'N', 'V', '$,')]
	grammar, backtransform, weights, fragments = M.dopgrammar(trees, frags)
	clusters(grammar)
	equal(len(grammar), len(dict(grammar)), 'duplicates')
	phr = [f for f in frags if f.count(' ') > 1]
	equal(sorted(f for f, _ in fragments), sorted(phr), 'all-fragments')
	for f, occ in fragments:
		equal(occ, frags[f], 'occurrences')
	n = 0
	initial = [(rule, w) for rule, w in grammar if '}<' not in rule[0][0]
			and rule[0][1] != 'Epsilon']
	equal(len(initial), len(fragments), 'aligned')
	equal(len(initial), len(backtransform), 'aligned')
	equal([rule for rule, _ in grammar[:len(initial)]],
			[rule for rule, _ in initial], 'initial-rules-first')
	for (rule, w), (f, occ), template in zip(initial, fragments,
			backtransform):
		equal(rule[0][0], f[1:f.index(' ')], 'aligned-root', (rule, f))
		equal(w, len(occ), 'frequency', rule)
		sites = parsefrag(f)
		equal(template.format(*[s[3] for s in sites]), f, 'backtransform')
		# the rules reachable from this one derive the fragment
		chain, todo = [rule], [c for c in rule[0][1:] if '}<' in c]
		while todo:
			lhs = todo.pop()
			cand = [r for r, _ in grammar if r[0][0] == lhs]
			if len(cand) != 1:
				break  # shared by several fragments
			chain.append(cand[0])
			todo.extend(c for c in cand[0][0][1:] if '}<' in c)
		else:
			owner = {i: (m, a) for m, s in enumerate(sites)
					for a, i in enumerate(s[1])}
			equal(compose(chain, sites), [[owner[i] for i in b]
					for b in blocks(owner)], 'grammar-composition', f)
	for (rule, w), ewe in zip(grammar, weights['ewe']):
		if rule[0][1] == 'Epsilon':
			f = [a for a in frags if a.count(' ') == 1
					and parsefrag(a)[0][0] == rule[0][0]
					and escape(parsefrag(a)[0][2]) == rule[1][0]]
			equal(w, len(frags[f[0]]) if f else 1, 'lexical-frequency', rule)
	sums = Counter()
	for (rule, _), w in zip(grammar, weights['ewe']):
		sums[rule[0][0]] += w
	require(all(abs(a - 1) < 1e-9 for a in sums.values()), 'ewe-sum', sums)
	g2, back2, _ = M.compiletsg({f: len(a) for f, a in frags.items()})
	equal(sorted(w for (r, _), w in g2 if '}<' not in r[0]
			and r[1] != 'Epsilon'), sorted(len(frags[f]) for f in phr),
			'tsg-weights')
	equal(len(back2), len(phr), 'tsg-backtransform')
	clusters(g2)


if __name__ == '__main__':
	main()
