"""C15: evaluation scores are exact multiset measures."""
import copy
import itertools
import tempfile
import os
from collections import Counter
from decimal import Decimal
from fractions import Fraction
from hlib import section, require, equal, fail, main, Skip
import stubs
import treegen as G
from discodop.tree import Tree, ParentedTree
import discodop.eval as M

LABELS = ['S', 'NP', 'VP', 'PP', 'X', 'NX', 'A']
TAGS = ['N', 'V', 'D', '$,', 'PRT', 'ADV']
WORDS = ['the', 'a', 'cat', 'dog', ',', '.', 'x', 'X', 'colour', 'color']


def near(x, want, key, msg=''):
	if want is None:
		require(isinstance(x, Decimal) and x.is_nan(), key, (x, want, msg))
		return
	require(not Decimal(x).is_nan(), key, (x, want, msg))
	require(abs(Fraction(x) - want) < Fraction(1, 10 ** 20), key, (x, want,
			msg))


def total(c):
	n = 0
	for x in c:
		n += c[x]
	return n


def inter(a, b):
	n = 0
	for x in a:
		n += min(a[x], b.get(x, 0))
	return n


def ratio(n, d):
	return Fraction(n, d) if d else None


def fscore(ref, cand):
	m = inter(ref, cand)
	if not m or not ref or not cand:
		return None
	p, r = Fraction(m, total(cand)), Fraction(m, total(ref))
	return 2 * p * r / (p + r)


def genmultisets(rng, tier):
	items = [('S', 7), ('NP', 1), ('NP', 3), ('VP', 5)]
	small = [list(x) for n in range(4)
			for x in itertools.combinations_with_replacement(items[:3], n)]
	for a in small:
		for b in small:
			yield a, b
	while True:
		pool = [(rng.choice(LABELS), rng.randrange(1, 40))
				for _ in range(rng.choice([2, 4, 10]))]
		a = [rng.choice(pool) for _ in range(rng.randrange(12))]
		b = list(a) if rng.random() < .3 else [rng.choice(pool)
				for _ in range(rng.randrange(12))]
		rng.shuffle(b)
		yield a, b


@section('metrics', genmultisets, 'precision, recall and F are the exact '
		'ratios of the multisets', functions=('recall', 'precision',
		'f_measure', 'nozerodiv'))
def metrics(case):
	a, b = case
	ref, cand = Counter(a), Counter(b)
	before = dict(ref), dict(cand)
	m = inter(ref, cand)
	p, r = M.precision(ref, cand), M.recall(ref, cand)
	f = M.f_measure(ref, cand)
	near(p, ratio(m, len(b)), 'precision', case)
	near(r, ratio(m, len(a)), 'recall', case)
	near(f, fscore(ref, cand), 'f-measure', case)
	equal((dict(ref), dict(cand)), before, 'arguments-changed', case)
	if a and b:
		equal(f == 1, sorted(a) == sorted(b), 'perfect', case)
		require(0 <= p <= 1 and 0 <= r <= 1, 'bounds', case)
		equal((M.precision(cand, ref), M.recall(cand, ref)), (r, p), 'swap',
				case)
	x, y = Counter(a[::-1]), Counter(b[::-1])
	equal(str((M.precision(x, y), M.recall(x, y), M.f_measure(x, y))),
			str((p, r, f)), 'order', case)
	equal(M.nozerodiv(lambda: M.recall(ref, cand)).strip(),
			'%.2f' % (100 * r) if a else 'nan', 'percentage') if a else None
	return bool(a or b)


def genseqs(rng, tier):
	for n in range(4):
		for m in range(4):
			for a in itertools.product('xy', repeat=n):
				for b in itertools.product('xyz', repeat=m):
					yield list(a), list(b)
	while True:
		a = [rng.choice('abcd') for _ in range(rng.randrange(10))]
		b = [rng.choice('abcd') for _ in range(rng.randrange(10))]
		if rng.random() < .5:
			b = list(a)
			for _ in range(rng.randrange(3)):
				b.insert(rng.randint(0, len(b)), rng.choice('abcd'))
			for _ in range(rng.randrange(3)):
				if b:
					del b[rng.randrange(len(b))]
		yield a, b


def lev(a, b):
	memo = {}

	def d(i, j):
		if (i, j) not in memo:
			if i == 0 or j == 0:
				memo[i, j] = i + j
			else:
				memo[i, j] = min(d(i - 1, j) + 1, d(i, j - 1) + 1,
						d(i - 1, j - 1) + (a[i - 1] != b[j - 1]))
		return memo[i, j]
	return d(len(a), len(b))


@section('sequences', genseqs, 'edit distance, accuracy and means of '
		'sequences', share=.6, functions=('editdistance', 'pathscore',
		'accuracy', 'mean', 'harmean'))
def sequences(case):
	a, b = case
	d = lev(a, b)
	equal(M.editdistance(a, b), d, 'edit-distance', case)
	equal(M.editdistance(b, a), d, 'edit-distance-symmetric', case)
	if a == b:
		equal(M.pathscore(a, b), 1, 'path-score', case)
	near(M.pathscore(a, b), 1 - Fraction(d, max(len(a) + len(b), 1)),
			'path-score', case)
	if len(a) == len(b) and a:
		near(M.accuracy(a, b), Fraction(sum(x == y for x, y in zip(a, b)),
				len(a)), 'accuracy', case)
	nums = [Decimal('abcdxyz'.index(x)) for x in a]
	near(M.mean(nums), ratio(sum(map(int, nums)), len(nums)), 'mean', case)
	if nums:
		h = None if 0 in nums else len(nums) / sum(Fraction(1, int(x))
				for x in nums)
		if h is None:
			near(M.harmean(nums), None, 'harmean', case)
		else:
			require(abs(Fraction(M.harmean(nums)) - h) < Fraction(1, 10 ** 15),
					'harmean', case)


def genbits(rng, tier):
	for n in range(512):
		yield n
	while True:
		yield rng.getrandbits(rng.choice([12, 31, 32, 63, 64, 65, 100, 200]))


@section('intervals', genbits, 'intervals are the maximal ranges of one bits',
		share=.3, functions=('intervals', 'pyintbitcount', 'strbracketings'))
def intervals(n):
	want = []
	for i in range(n.bit_length()):
		if n >> i & 1:
			if want and want[-1][1] == i - 1:
				want[-1] = (want[-1][0], i)
			else:
				want.append((i, i))
	equal([tuple(x) for x in M.intervals(n)], want, 'intervals', n)
	equal(M.pyintbitcount(n), bin(n).count('1'), 'bit-count', n)
	if n:
		equal(M.strbracketings({('S', n)}), 'S[%s]' % ','.join(
				'%d' % a if a == b else '%d-%d' % (a, b) for a, b in want),
				'strbracketings', n)


# --- bracketings ---------------------------------------------------------------
def phrase(t):
	return bool(t[1]) and isinstance(t[1][0], tuple)


def mask(t):
	return sum(1 << i for i in set(G.leaves(t)))


def wantbrackets(t, labeled, dellabel, disconly):
	return Counter((x[0] if labeled else '', mask(x)) for x in G.nodes(t)
			if phrase(x) and x[0] not in dellabel
			and (not disconly or G.fan(set(G.leaves(x))) > 1))


def wantparented(t, labeled, dellabel, disconly):
	res = Counter()

	def rec(x, up):
		if phrase(x) and x[0] not in dellabel and (not disconly or G.fan(
				set(G.leaves(x))) > 1):
			res[(x[0] if labeled else '', mask(x)), up] += 1
		for c in x[1]:
			if isinstance(c, tuple):
				rec(c, x[0])
	rec(t, '')
	return res


def gentrees(rng, tier):
	while True:
		n = rng.choice([1, 2, 3, 4, 6, 9, 14, 40, 70])
		t = G.randtree(rng, n, disc=rng.choice([0, .3, .7]), unary=.2,
				labels=LABELS, tags=TAGS, canonical=rng.random() < .7)
		if not phrase(t):
			continue
		yield (t, rng.sample(LABELS, rng.choice([0, 0, 1, 2])))


@section('bracketings', gentrees, 'each bracketing lists the words of its '
		'node', functions=('bracketings', 'parentedbracketings',
		'bracketing', 'leafancestor', 'leafancestorpaths'))
def bracketings(case):
	t, dele = case
	tree = G.build(t, ParentedTree).freeze()
	for labeled in (True, False):
		for disconly in (False, True):
			equal(M.bracketings(tree, labeled, set(dele), disconly),
					wantbrackets(t, labeled, dele, disconly), 'bracketings',
					case)
			equal(M.parentedbracketings(tree, labeled, set(dele), disconly),
					wantparented(t, labeled, dele, disconly),
					'parented-bracketings', case)
	equal(M.leafancestor(tree, tree, set(dele)), 1, 'leaf-ancestor', case)


# --- parameters ----------------------------------------------------------------
def genparams(rng):
	def some(pool, *sizes):
		return sorted(rng.sample(pool, rng.choice(sizes)))
	eql = [(x, y) for x, y in [('X', 'NX'), ('A', 'PRT'), ('PRT', 'ADV'),
			('VP', 'PP')] if rng.random() < .3]
	eqw = [(x, y) for x, y in [('x', 'X'), ('colour', 'color'), ('a', 'the')]
			if rng.random() < .3]
	return dict(DELETE_LABEL=some(LABELS[1:] + TAGS + ['TOP'], 0, 1, 2, 3),
		DELETE_WORD=some(WORDS, 0, 0, 1, 2), EQ_LABEL=eql, EQ_WORD=eqw,
		DELETE_ROOT_PRETERMS=int(rng.random() < .2), DISC_ONLY=int(
		rng.random() < .2), LABELED=int(rng.random() < .9),
		DELETE_LABEL_FOR_LENGTH=some(TAGS, 0, 1))


def classes(pairs):
	"""Each element and the set of elements it is equivalent to."""
	group = {}
	for a, b in pairs:
		new = group.get(a, {a}) | group.get(b, {b})
		for x in new:
			group[x] = new
	return group


def load(param):
	"""Read parameters from a file."""
	lines = []
	for k in sorted(param):
		if isinstance(param[k], int):
			lines.append('%s %d' % (k, param[k]))
		else:
			lines.extend('%s %s' % (k, ' '.join(v) if isinstance(v, tuple)
					else v) for v in param[k])
	tmp = tempfile.NamedTemporaryFile('w', suffix='.prm', delete=False,
			encoding='utf8')
	try:
		with tmp:
			tmp.write('# comment\n\n' + '\n'.join(lines) + '\n')
		return M.readparam(tmp.name)
	finally:
		os.unlink(tmp.name)


def checkeq(mapping, pairs, key):
	group = classes(pairs)
	equal(sorted(mapping), sorted(group), key + '-domain')
	for x in group:
		require(mapping[x] in group[x], key, (x, mapping))
		for y in group[x]:
			equal(mapping[x], mapping[y], key, (x, y))


def genpairs(rng, tier):
	yield []
	while True:
		pool = 'abcdefgh'[:rng.randint(2, 8)]
		yield [(rng.choice(pool), rng.choice(pool)) for _ in range(
				rng.randrange(8))]


@section('closure', genpairs, 'the transitive closure gives the equivalence '
		'classes', share=.3, functions=('transitiveclosure', 'readparam'))
def closure(pairs):
	res = M.transitiveclosure(set(pairs))
	group = classes(pairs)
	seen = Counter(x for c in res.values() for x in c)
	equal(seen, Counter(list(group)), 'partition', pairs)
	for k, c in res.items():
		require(k in c, 'representative', (pairs, res))
		equal(set(c), group[k], 'class', (pairs, res))
	param = load(dict(EQ_LABEL=pairs, EQ_WORD=pairs[:2]))
	checkeq(param['EQ_LABEL'], pairs, 'eq-label')
	checkeq(param['EQ_WORD'], pairs[:2], 'eq-word')


def wanttransform(t, sent, gpos, param, rootpos):
	"""Apply the parameters: returns (tree, words, retained indices)."""
	eql, eqw = param['EQ_LABEL'], param['EQ_WORD']
	drop = set(i for i in G.leaves(t) if gpos[i] in param['DELETE_LABEL']
			or sent[i] in param['DELETE_WORD'] or (
			param['DELETE_ROOT_PRETERMS'] and i in rootpos))
	keep = [i for i in range(len(sent)) if i not in drop]
	num = {i: n for n, i in enumerate(keep)}

	def rec(x, root):
		"""List of nodes replacing x."""
		if not phrase(x):
			return [] if x[1][0] in drop else [(eql.get(x[0], x[0]),
					[num[x[1][0]]])]
		kids = [y for c in x[1] for y in rec(c, False)]
		if root:
			return [(x[0], kids)]
		if not kids:
			return []
		label = eql.get(x[0], x[0])
		return kids if label in param['DELETE_LABEL'] else [(label, kids)]
	words = [eqw.get(sent[i], sent[i]) for i in keep]
	return rec(t, True)[0], words, keep


def tags(t):
	return {x[1][0]: x[0] for x in G.nodes(t) if x[1] and isinstance(
			x[1][0], int)}


def retag(rng, t):
	if not isinstance(t, tuple):
		return t
	if not phrase(t):
		return (rng.choice(TAGS) if rng.random() < .2 else t[0], t[1])
	return (t[0], [retag(rng, c) for c in t[1]])


def gencorpus(rng, tier):
	while True:
		size = rng.choice([1, 1, 2, 3])
		res = []
		for _ in range(size):
			n = rng.choice([1, 2, 3, 4, 6, 9])
			new = lambda: G.randtree(rng, n, disc=rng.choice([0, .3, .7]),
					unary=.2, labels=LABELS, tags=TAGS, root='TOP',
					canonical=rng.random() < .8)
			gold = new()
			cand = gold if rng.random() < .2 else new()
			if not phrase(gold):
				gold = ('TOP', [gold]) if gold[0] != 'TOP' else (
						'TOP', [('N', gold[1])])
			if not phrase(cand):
				cand = ('TOP', [('N', cand[1])])
			cand = retag(rng, cand) if rng.random() < .5 else cand
			if rng.random() < .5:
				gt = tags(gold)
				cand = settags(cand, gt)
			res.append((gold, cand, G.randsent(rng, n, WORDS)))
		yield res, genparams(rng)


def settags(t, gt):
	if not isinstance(t, tuple):
		return t
	if not phrase(t):
		return (gt[t[1][0]], t[1])
	return (t[0], [settags(c, gt) for c in t[1]])


def rootpreterms(t):
	return set(c[1][0] for c in t[1] if not phrase(c))


def flat(tree):
	return (tree.label, [flat(c) if isinstance(c, Tree) else c
			for c in tree])


@section('corpus', gencorpus, 'labels and words are deleted or mapped as '
		'stated; scores of a corpus are those of all its bracketings', share=2,
		functions=('transform', 'TreePairResult.__init__', 'Evaluator.add',
		'EvalAccumulator.add', 'EvalAccumulator.scores',
		'TreePairResult.scores', 'readparam'))
def corpus(case):
	pairs, prm = case
	param = load(prm)
	checkeq(param['EQ_LABEL'], prm['EQ_LABEL'], 'eq-label')
	checkeq(param['EQ_WORD'], prm['EQ_WORD'], 'eq-word')
	evaluator = M.Evaluator(param)
	golds, cands = Counter(), Counter()
	goldtags, candtags = [], []
	exact = count = 0
	for n, (g, c, sent) in enumerate(pairs):
		sent = list(sent)
		gpos, root = tags(g), rootpreterms(g)
		gsent, csent = list(sent), list(sent)
		res = evaluator.add(n, G.build(g, ParentedTree), gsent, G.build(c,
				ParentedTree), csent)
		equal((gsent, csent), (sent, sent), 'sentence-changed', case)
		wg, words, keep = wanttransform(g, sent, gpos, param, root)
		wc, cwords, _ = wanttransform(c, sent, gpos, param, root)
		equal(flat(res.gtree), wg, 'gold-tree', case)
		equal(flat(res.ctree), wc, 'candidate-tree', case)
		equal((res.gsent, res.csent), (words, cwords), 'words', case)
		args = (param['LABELED'], param['DELETE_LABEL'], param['DISC_ONLY'])
		gb, cb = wantbrackets(wg, *args), wantbrackets(wc, *args)
		equal((res.gbrack, res.cbrack), (gb, cb), 'brackets', case)
		ct = tags(c)
		gt, cd = [gpos[i] for i in keep], [ct[i] for i in keep]
		equal((list(res.gpos), list(res.cpos)), (gt, cd), 'tags', case)
		equal(res.lengpos, sum(1 for x in gpos.values()
				if x not in param['DELETE_LABEL_FOR_LENGTH']), 'length', case)
		show = lambda x: '   nan' if x is None else '%6.2f' % (100 * x)
		s = res.scores()
		m = inter(gb, cb)
		equal(clean(s['LR']), rounded(ratio(m, total(gb))), 'LR', case)
		equal(clean(s['LP']), rounded(ratio(m, total(cb))), 'LP', case)
		equal(clean(s['LF']), rounded(fscore(gb, cb)), 'LF', case)
		golds.update({(n, k): v for k, v in gb.items()})
		cands.update({(n, k): v for k, v in cb.items()})
		goldtags += gt
		candtags += cd
		if not prm['DISC_ONLY'] or gb or cb:
			count += 1
			exact += gb == cb
	acc = evaluator.acc
	equal(acc.goldb, golds, 'all-gold-brackets', case)
	equal(acc.candb, cands, 'all-candidate-brackets', case)
	s = acc.scores()
	m = inter(golds, cands)
	equal(clean(s['lr']), rounded(ratio(m, total(golds))), 'lr', case)
	equal(clean(s['lp']), rounded(ratio(m, total(cands))), 'lp', case)
	equal(clean(s['lf']), rounded(fscore(golds, cands)), 'lf', case)
	equal(clean(s['ex']), rounded(ratio(exact, count)), 'exact', case)
	equal(clean(s['tag']), rounded(ratio(sum(a == b for a, b in zip(goldtags,
			candtags)), len(goldtags))), 'tag', case)
	text = evaluator.summary()
	require('labeled f-measure:' in text, 'summary', text)
	for name, key in (('labeled recall', 'lr'), ('labeled precision', 'lp'),
			('labeled f-measure', 'lf'), ('exact match', 'ex'),
			('pos accuracy', 'tag')):
		line = [x for x in text.splitlines() if x.startswith(name + ':')]
		equal(line[0].split()[-1], s[key].strip(), 'summary-' + key, text)


def clean(x):
	"""A score as number, or None."""
	x = x.strip().rstrip('%')
	return None if x.lower() in ('nan', '0div!', 'none') else Decimal(x)


def rounded(x):
	if x is None:
		return None
	return Decimal('%.2f' % (100 * Decimal(x.numerator) / Decimal(
			x.denominator)))


def genswap(rng, tier):
	for pairs, prm in gencorpus(rng, tier):
		g, c, sent = pairs[0]
		yield g, settags(c, tags(g)), sent, dict(prm, DELETE_ROOT_PRETERMS=0)


@section('swap', genswap, 'precision and recall swap with gold and '
		'candidate; a tree compared to itself is perfect', share=.6,
		functions=('TreePairResult.__init__', 'TreePairResult.scores'))
def swap(case):
	g, c, sent, prm = case
	param = load(prm)
	pair = lambda a, b: M.TreePairResult(1, G.build(a, ParentedTree),
			list(sent), G.build(b, ParentedTree), list(sent), param)
	x, y, z = pair(g, c).scores(), pair(c, g).scores(), pair(g, g)
	equal((x['LP'], x['LR'], x['LF']), (y['LR'], y['LP'], y['LF']), 'swap',
			case)
	if z.gbrack:
		s = z.scores()
		equal((clean(s['LP']), clean(s['LR']), clean(s['LF'])), (100, 100,
				100), 'perfect', case)


def genalign(rng, tier):
	while True:
		words = rng.sample(list('abcdefghij'), rng.randint(1, 8))
		keep = [rng.random() < .7 for _ in words]
		yield words, keep


@section('alignment', genalign, 'tags of the tokens which are left',
		share=.2, functions=('alignsent', ))
def alignment(case):
	words, keep = case
	pos = {n: 'T%d' % n for n in range(len(words))}
	idx = [n for n in range(len(words)) if keep[n]]
	equal(M.alignsent([words[n] for n in idx], words, dict(pos)),
			{i: pos[n] for i, n in enumerate(idx)}, 'alignment', case)


if __name__ == '__main__':
	main()
