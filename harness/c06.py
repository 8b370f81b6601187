"""C06: deleting words renumbers trees consistently."""
import itertools
from hlib import section, require, equal, fail, main, Skip
import treegen as G
from discodop.tree import Tree, ParentedTree
import discodop.treetransforms as T
import discodop.punctuation as P

PUNCT = ['.', ',', '"', "''", '``', '(', ')', '-', '...', '!', '?', '--', ':',
		'[', ']', '-LRB-', '-RRB-']
PTAGS = ['$.', '$,', '$(', '.', ',', '-LRB-', 'PUNCT', ':']
WORDS = ['the', 'cat', 'x', "'s", "'", 'Haus', '%', 'a.b', '', None]


def remove(lit, drop, top=True):
	"""Literal without the leaves in drop and without emptied nodes."""
	kids = []
	for c in lit[1]:
		if isinstance(c, tuple):
			c = remove(c, drop, False)
			if c[1]:
				kids.append(c)
		elif c not in drop:
			kids.append(c)
	return (lit[0], kids)


def renum(lit, m):
	if isinstance(lit, tuple):
		return (lit[0], [renum(c, m) for c in lit[1]])
	return m[lit]


def expected(lit, sent, drop):
	keep = [i for i in range(len(sent)) if i not in drop]
	m = {a: n for n, a in enumerate(keep)}
	return renum(remove(lit, drop), m), [sent[i] for i in keep]


def preterms(lit):
	return {n[1][0]: n for n in G.nodes(lit)
			if len(n[1]) == 1 and not isinstance(n[1][0], tuple)}


def treesent(rng, disc=None, maxn=20, bare=False):
	n = rng.choice([1, 2, 3, 4, 6, 9, maxn])
	p = rng.choice([.1, .4, .8])
	sent, tags = [], []
	for i in range(n):
		if rng.random() < p:
			sent.append(rng.choice(PUNCT))
			tags.append(rng.choice(PTAGS + ['N']))
		else:
			sent.append(rng.choice(WORDS[:-2]))
			tags.append(rng.choice(['N', 'V', 'D', 'N', 'V', '$,']))
	lit = G.randtree(rng, n, disc=rng.choice([0, .3, .6])
			if disc is None else disc, unary=rng.choice([.1, .4]),
			maxkids=rng.choice([3, 6]), canonical=rng.random() < .6)
	def tag(t, parent):
		if not isinstance(t, tuple):
			return t
		if len(t[1]) == 1 and not isinstance(t[1][0], tuple):
			return (tags[t[1][0]], t[1])
		return (t[0], [tag(c, t) for c in t[1]])
	lit = tag(lit, None)
	if len(lit[1]) == 1 and not isinstance(lit[1][0], tuple):
		lit = ('ROOT', [lit])
	elif rng.random() < .3:
		lit = ('ROOT', [lit])
	if rng.random() < .3:
		# attach some preterminals to the root, as in Negra
		pts = [i for i, w in enumerate(sent) if w in PUNCT]
		pt = preterms(lit)
		rest = remove(lit, set(pts))
		if rest[1]:
			lit = (rest[0], rest[1] + [pt[i] for i in pts])
	return lit, sent


def judge(tree, sent, lit, before, drop, cls=ParentedTree):
	want, wsent = expected(lit, before, drop)
	equal(sent, wsent, 'sentence', (lit, before))
	got = G.lit(tree)
	equal(sorted(G.leaves(got)), list(range(len(wsent))), 'numbering', got)
	require(all(n[1] for n in G.nodes(got)) or not wsent, 'empty-node', got)
	if wsent:
		equal(got, want, 'structure', (lit, before))
	require(G.consistent(tree), 'parent-links', got)


def termgen(rng, tier):
	# exhaustive: every subset of words of every shape of at most 4 leaves
	for size in (1, 2, 3, 4):
		for shape in G.shapes(size):
			for mask in range(1 << size):
				lit = label(shape)
				yield (lit, ['w%d' % i for i in range(size)],
						[i for i in range(size) if mask >> i & 1])
	while True:
		lit, sent = treesent(rng, maxn=30)
		p = rng.choice([.1, .5, .9])
		yield (lit, sent, [i for i in range(len(sent)) if rng.random() < p])


def label(s, c=None):
	c = c or itertools.count()
	if isinstance(s, list):
		return ('X%d' % next(c), [label(x, c) for x in s])
	res = ('T%d' % s, [s])
	return res if next(c) else ('R', [res])


@section('removeterminals', termgen, 'every subset of the words of every shape '
		'of at most 4 leaves; random subsets of random trees', share=2,
		functions=['discodop/treetransforms.py:removeterminals'])
def runterm(case):
	lit, sent, drop = case
	pt = preterms(lit)
	tree = G.build(lit)
	s = list(sent)
	seen = []

	def func(word, node):
		i = node[0]
		seen.append(i)
		equal(word, sent[i], 'argument')
		equal(node.label, pt[i][0], 'argument')
		return i in drop
	T.removeterminals(tree, s, func)
	equal(sorted(seen), list(range(len(sent))), 'each-word-once')
	judge(tree, s, lit, sent, set(drop))


def emptygen(rng, tier):
	while True:
		lit, sent = treesent(rng)
		n = len(sent)
		sent = [rng.choice([None, '']) if rng.random() < .25 else w
				for w in sent]
		none = [i for i in range(n) if rng.random() < .2]
		def tag(t):
			if not isinstance(t, tuple):
				return t
			if len(t[1]) == 1 and t[1][0] in none:
				return ('-NONE-', t[1])
			return (t[0], [tag(c) for c in t[1]])
		yield (tag(lit), sent)


@section('removeempty', emptygen, 'random trees with empty elements',
		functions=['discodop/treetransforms.py:removeemptynodes'])
def runempty(case):
	lit, sent = case
	pt = preterms(lit)
	drop = {i for i, w in enumerate(sent)
			if w in (None, '') or pt[i][0] == '-NONE-'}
	tree, s = G.build(lit), list(sent)
	T.removeemptynodes(tree, s)
	judge(tree, s, lit, sent, drop)


def punctgen(rng, tier):
	for how in ('remove', 'removeall', 'punctprune', 'pruneonly', 'none'):
		yield ('ROOT', []), [], how
	while True:
		lit, sent = treesent(rng)
		yield (lit, sent, rng.choice(['remove', 'removeall', 'punctremove',
				'punctprune', 'punctremoveall', 'pruneonly', 'none']))


@section('punct', punctgen, 'random trees and sentences with punctuation: '
		'removal and pruning', share=2,
		functions=['discodop/punctuation.py:punctremove',
			'discodop/punctuation.py:punctprune',
			'discodop/punctuation.py:applypunct'])
def runpunct(case):
	lit, sent, how = case
	pt = preterms(lit)
	tree, s = G.build(lit), list(sent)
	ispunct = {i for i, w in enumerate(sent)
			if pt[i][0] in P.PUNCTTAGS or w in P.PUNCTUATION}
	for i, w in enumerate(sent):
		equal(bool(P.ispunct(w, tree.__class__(pt[i][0], [i]))), i in ispunct,
				'ispunct', w)
	rootpre = {c[1][0] for c in lit[1] if isinstance(c, tuple)
			and not isinstance(c[1][0], tuple)}
	prune = set()
	for seq in (range(len(sent)), range(len(sent) - 1, -1, -1)):
		for i in seq:
			if sent[i] not in P.PRUNEPUNCT:
				break
			prune.add(i)
	if how in ('remove', 'removeall'):
		P.applypunct(how, tree, s)
		drop = ispunct if how == 'remove' else rootpre
	elif how in ('punctremove', 'punctremoveall'):
		P.punctremove(tree, s, how == 'punctremoveall')
		drop = ispunct if how == 'punctremove' else rootpre
	elif how == 'punctprune':
		P.punctprune(tree, s)
		drop = prune
	elif how == 'pruneonly':
		P.punctprune(None, s)
		equal(s, [w for i, w in enumerate(sent) if i not in prune],
				'sentence')
		return
	else:
		P.applypunct(None, tree, s)
		drop = set()
	judge(tree, s, lit, sent, drop)


@section('prune', lambda rng, tier: iter(lambda: treesent(rng), None),
		'pruning combined with moving: the words that remain', share=.7,
		functions=['discodop/punctuation.py:applypunct'])
def runprune(case):
	lit, sent = case
	tree, s = G.build(lit), list(sent)
	prune = set()
	for seq in (range(len(sent)), range(len(sent) - 1, -1, -1)):
		for i in seq:
			if sent[i] not in P.PRUNEPUNCT:
				break
			prune.add(i)
	P.applypunct('prune', tree, s)
	keep = [i for i in range(len(sent)) if i not in prune]
	equal(s, [sent[i] for i in keep], 'sentence')
	got = G.lit(tree)
	equal(sorted(G.leaves(got)), list(range(len(keep))), 'numbering', got)
	if keep:
		require(all(n[1] for n in G.nodes(got)), 'empty-node', got)
		pt = preterms(lit)
		gpt = preterms(got)
		equal([gpt[n][0] for n in range(len(keep))],
				[pt[i][0] for i in keep], 'preterminal', got)


if __name__ == '__main__':
	main()
