"""C11: merging grammars and DOP weights preserve counts."""
import io
import os
import re
import gzip
import tempfile
import itertools
from collections import Counter, defaultdict
from fractions import Fraction
from hlib import section, require, equal, fail, main, Skip
import treegen as G
from discodop.tree import Tree, ParentedTree, ImmutableTree
import discodop.grammar as M

NTS = ['S', 'NP', 'VP', 'NP_2', 'X|<a>', 'C1']
YFS = ['0', '01', '10', '0,1', '010', '01,0']
WORDS = ['the', 'a', 'cat', 'x', '\xe9', '1', '-', ',', '0.5', 'Zz']
TAGS = ['N', 'V', 'D', '$,']


def near(a, b):
	return abs(a - b) <= 1e-5 * max(abs(a), abs(b), 1e-12)


def weight(rng):
	c = rng.randrange(4)
	if c == 0:
		return '%d' % rng.randint(1, 300)
	if c == 1:
		return '%d/%d' % (rng.randint(1, 9), rng.randint(1, 12))
	if c == 2:
		return '%g' % (rng.randint(1, 999) / 1000)
	return '%g' % (rng.randint(1, 999) * 1e-7)


def value(w):
	return float(Fraction(w)) if '/' in w else float(w)


def genmerge(rng, tier):
	"""(kind, [file = list of (entry, weight)], compressed?)"""
	for kind in ('plcfrs', 'bitpar', 'lexicon', 'fragments'):
		yield kind, [[], []], 0
		yield kind, [[], [('A', '1')]], 0
		yield kind, [[('A', '1'), ('B', '2')]], 0
		yield kind, [[('A', '1')], [('A', '2'), ('B', '2')]], 0
		yield kind, [[('A', '1')], [('B', '2')]], 0
		yield kind, [[('B', '1')], [('A', '2')], [('B', '4')]], 0
	while True:
		kind = rng.choice(['plcfrs', 'bitpar', 'lexicon', 'fragments'])
		files = [[(rng.choice('ABCDE'), weight(rng))
				for _ in range(rng.randint(0, 5))]
				for _ in range(rng.randint(1, 4))]
		if rng.random() < .5:
			pool = [randentry(rng, kind) for _ in range(6)]
			files = [[(rng.choice(pool), weight(rng))
					for _ in range(rng.randint(0, 8))]
					for _ in range(rng.randint(1, 4))]
		if kind == 'bitpar':
			files = [[(e, w if '/' not in w else '3') for e, w in f]
					for f in files]
		yield kind, files, rng.randrange(3)


def randentry(rng, kind):
	if kind == 'plcfrs':
		k = rng.choice([1, 2])
		return '\t'.join([rng.choice(NTS) for _ in range(k + 1)]
				+ [rng.choice(YFS)])
	if kind == 'bitpar':
		return '\t'.join(rng.choice(NTS) for _ in range(rng.choice([2, 3])))
	if kind == 'lexicon':
		return rng.choice(WORDS)
	return '(%s (%s 0=%s) (%s 1=))' % (rng.choice(NTS), rng.choice(NTS),
			rng.choice(WORDS), rng.choice(NTS))


def expand(kind, entry):
	if entry not in 'ABCDE':
		return entry
	return {'plcfrs': 'S\t%s\tX\t01', 'bitpar': 'S\t%s\tX',
			'lexicon': '%sw', 'fragments': '(S (%s 0=x))'}[kind] % entry


@section('merge', genmerge, 'every distinct entry once with its total weight '
		'divided by the number of files, sorted', functions=('merge',
		'sumrules', 'sumlex', 'sumfrags', 'convertweight', 'stripweight'))
def merge(case):
	kind, files, gz = case
	want = defaultdict(float)
	texts = []
	for n, f in enumerate(files):
		f = sorted([(expand(kind, e), w) for e, w in f], key=lambda x: x[0])
		if kind == 'lexicon':
			lines = []
			for word, grp in itertools.groupby(f, key=lambda x: x[0]):
				pairs = [(TAGS[(i * 7 + n) % len(TAGS)], w)
						for i, (_, w) in enumerate(grp)]
				lines.append('%s\t%s\n' % (word,
						'\t'.join('%s %s' % p for p in pairs)))
				for t, w in pairs:
					want[word, t] += value(w)
		elif kind == 'bitpar':
			lines = ['%s\t%s\n' % (w, e) for e, w in f]
			for e, w in f:
				want[e] += value(w)
		else:
			lines = ['%s\t%s\n' % (e, w) for e, w in f]
			for e, w in f:
				want[e] += value(w)
		texts.append(''.join(lines))
	with tempfile.TemporaryDirectory() as tmp:
		names = []
		for n, text in enumerate(texts):
			name = os.path.join(tmp, 'g%d%s' % (n, '.gz' if gz == 1 else ''))
			with (gzip.open if gz == 1 else open)(name, 'wb') as out:
				out.write(text.encode('utf8'))
			names.append(name)
		res = os.path.join(tmp, 'out' + ('.gz' if gz == 2 else ''))
		func, key = {'plcfrs': (M.sumrules, M.stripweight),
				'bitpar': (M.sumrules, M.stripweight),
				'lexicon': (M.sumlex, lambda x: x.split(None, 1)[0]),
				'fragments': (M.sumfrags, lambda x: x.rsplit('\t', 1)[0]),
				}[kind]
		M.merge(names, res, func, key)
		with (gzip.open if gz == 2 else open)(res, 'rb') as inp:
			lines = inp.read().decode('utf8').splitlines()
	got, order = {}, []
	for line in lines:
		if kind == 'lexicon':
			word, rest = line.split(None, 1)
			rest = rest.split()
			order.append(word)
			pairs = [((word, t), w) for t, w in zip(rest[::2], rest[1::2])]
		elif kind == 'bitpar':
			w, e = line.split('\t', 1)
			order.append(e)
			pairs = [(e, w)]
		else:
			e, w = line.rsplit('\t', 1)
			order.append(e)
			pairs = [(e, w)]
		for e, w in pairs:
			require(e not in got, 'twice', line)
			got[e] = float(w)
	require(order == sorted(set(order)), 'order', order)
	equal(sorted(got), sorted(want), 'entries', case)
	for e in want:
		require(near(got[e], want[e] / len(files)), 'weight',
				lambda: (e, got[e], want[e] / len(files), case))
	return len(want) > 1


def genweights(rng, tier):
	for x in ('0.5', '1/2', '1', '1/3', '0x1.0000000000000p-1', '2e-5'):
		yield (x, )
	while True:
		a, b = rng.randint(0, 10 ** 6), rng.randint(1, 10 ** 6)
		yield (rng.choice(['%d/%d' % (a, b), '%r' % (a / b), '%g' % (a / b),
				(a / b).hex(), '%d' % a, '%d.0/%d' % (a, b)]), )


@section('weights', genweights, 'a weight string denotes its number', share=.2,
		functions=('convertweight', 'splitweight'))
def weights(case):
	s = case[0]
	if s.startswith('0x'):
		want = float.fromhex(s)
	elif '/' in s:
		a, b = s.split('/')
		want = float(a) / float(b)
	else:
		want = float(s)
	equal(M.convertweight(s), want, 'convertweight', s)
	x = M.splitweight(s)
	if '/' in s:
		a, b = s.split('/')
		equal(tuple(x), (float(a), float(b)), 'splitweight', s)
	else:
		equal(x, want, 'splitweight', s)


LABELS = ['S', 'NP', 'VP', 'A', 'B']


def gentreebank(rng, tier):
	yield [(('S', [('NP', [0]), ('VP', [1])]), ['a', 'b'])]
	yield [(('S', [('NP', [0]), ('VP', [1])]), ['a', 'b'])] * 2
	while True:
		res = []
		sub = rng.random() < .5
		for _ in range(rng.randint(1, 4)):
			n = rng.randint(1, 6)
			t = G.randtree(rng, n, disc=rng.choice([0, 0, .4]),
					unary=rng.choice([0, .2]),
					labels=LABELS[:2] if sub else LABELS,
					tags=G.TAGS[:2], root='ROOT' if rng.random() < .7
					else None, maxkids=3)
			res.append((t, G.randsent(rng, n, G.WORDS[:2] if sub
					else G.WORDS)))
		yield res


def nfrags(t):
	"""Number of fragments rooted in a node."""
	if not isinstance(t[1][0], tuple):
		return 1
	res = 1
	for c in t[1]:
		res *= 1 + nfrags(c)
	return res


def strip(label):
	return label.rsplit('@', 1)[0]


@section('decorate', gentreebank, 'only labels of non-root nodes change, each '
		'node gets its own address (or one per distinct subtree), and counts '
		'of fragments are products', functions=('TreeDecorator', 'nodefreq'))
def decorate(case):
	for memoize in (False, True):
		d = M.TreeDecorator(memoize=memoize)
		fd, ntfd = defaultdict(int), defaultdict(int)
		addr = {}
		wantfd = defaultdict(int)
		for lit, sent in case:
			tree = G.build(lit, Tree if memoize else ParentedTree)
			if memoize:
				tree = G.build(lit, Tree)
			dec = d.decorate(tree, sent)
			equal(G.lit(tree), lit, 'original-changed')
			declit = G.lit(dec)
			nodes, decnodes = list(G.nodes(lit)), list(G.nodes(declit))
			equal(len(nodes), len(decnodes), 'nodes')
			equal([(strip(x[0]) if n else x[0], G.leaves(x))
					for n, x in enumerate(decnodes)],
					[(x[0], G.leaves(x)) for x in nodes], 'shape', memoize)
			for n, (a, b) in enumerate(zip(nodes, decnodes)):
				wantfd[a[0]] += nfrags(a)
				if n == 0:
					continue
				require('@' in b[0], 'no-address', b[0])
				wantfd[b[0]] = nfrags(a)
				if not memoize:
					require(b[0] not in addr, 'address-reused', b[0])
					addr[b[0]] = 1
				else:
					prev = addr.setdefault(b[0], set())
					prev.add(strip_positions(a, sent))
					require(len(prev) == 1, 'address-ambiguous',
							lambda: (b[0], prev))
			n = M.nodefreq(tree, dec, fd, ntfd)
			equal(n, nfrags(lit), 'number-of-fragments', lit)
		equal(dict(fd), dict(wantfd), 'subtree-counts', (memoize, case))
		labels = Counter(x[0] for lit, _ in case for x in G.nodes(lit))
		roots = Counter(lit[0] for lit, _ in case)
		for a in labels:
			if not roots[a]:
				equal(ntfd[a], labels[a], 'node-frequency', (a, case))
		if memoize:  # equal subtrees share addresses
			inv = {}
			for a, b in addr.items():
				x, = b
				require(x not in inv, 'equal-subtrees-not-shared',
						lambda: (a, inv[x], x, case))
				inv[x] = a


def strip_positions(t, sent):
	"""Identity of a subtree: labels, words, order of leaves, gaps."""
	pos, rank, prev = {}, 0, None
	for i in sorted(G.leaves(t)):
		rank += 1 if prev is None or i == prev + 1 else 2
		pos[i] = rank
		prev = i

	def rec(x):
		if isinstance(x, tuple):
			return (x[0], tuple(rec(c) for c in x[1]))
		return sent[x], pos[x]
	return rec(t)


@section('dopreduction', gentreebank, 'rule weights add up to the number of '
		'fragments of their left-hand side', functions=('dopreduction', ))
def dopreduction(case):
	trees = [G.build(t, ParentedTree) for t, _ in case]
	sents = [s for _, s in case]
	wantfd = Counter()
	for t, _ in case:
		for x in G.nodes(t):
			wantfd[x[0]] += nfrags(x)
	for packed in (False, True):
		rules, alt = M.dopreduction(trees, sents, packedgraph=packed)
		equal([G.lit(t) for t in trees], [t for t, _ in case], 'trees-changed')
		require(len({r for r, _ in rules}) == len(rules), 'duplicates')
		sums, ewe = defaultdict(float), defaultdict(float)
		for n, ((r, yf), w) in enumerate(rules):
			sums[r[0]] += w
			ewe[r[0]] += alt['ewe'][n]
			equal(float(alt['shortest'][n]), 1. if '@' in r[0] else .5,
					'shortest', r)
		for a in sums:
			if '@' in a:
				require(near(ewe[a], 1), 'ewe-address', lambda: (a, ewe[a]))
			else:
				require(near(sums[a], wantfd[a]), 'sum-of-weights',
						lambda: (packed, a, sums[a], wantfd[a], case))
		equal(sorted(a for a in sums if '@' not in a), sorted(wantfd),
				'labels', packed)
		# equal weights: the same distribution, up to a factor for each label
		for n, ((r, _), w) in enumerate(rules):
			require(near(alt['ewe'][n] / ewe[r[0]], w / sums[r[0]]),
					'ewe-proportional', lambda: (r, case))
		# every rule without addresses is a rule of the treebank and reverse
		plain = {(tuple(x if x == 'Epsilon' else x.split('@')[0] for x in r),
				yf) for (r, yf), _ in rules}
		want = {(r, yf) for t, s in zip(trees, sents)
				for r, yf in M.lcfrsproductions(t, s)}
		equal(plain, want, 'rules', packed)
		if not packed:
			addresses = {x for (r, _), _w in rules for x in r if '@' in x}
			equal(len(addresses), sum(sum(1 for _ in G.nodes(t)) - 1
					for t, _ in case), 'addresses')
			# each addressed node heads as many fragments as its subtree
			count = Counter()
			for a in addresses:
				count[strip(a), int(round(sums[a]))] += 1
			want = Counter()
			for t, _ in case:
				for n, x in enumerate(G.nodes(t)):
					if n:
						want[x[0], nfrags(x)] += 1
			equal(count, want, 'address-sums', case)
			# exact weight of each rule
			want = exactweights(case)
			got = Counter()
			for (r, yf), w in rules:
				got[tuple(x if x == 'Epsilon' else (
						strip(x), sums[x]) if '@' in x else x
						for x in r), yf] += w
			equal({k: round(v, 4) for k, v in got.items()},
					{k: round(v, 4) for k, v in want.items()}, 'weights', case)


def exactweights(case):
	"""Weights of the reduction, summed over equal numbers of fragments."""
	want = Counter()
	for t, sent in case:
		root = True
		for x in G.nodes(t):
			own = [x[0]] if root else [x[0], (x[0], nfrags(x))]
			root = False
			if isinstance(x[1][0], tuple):
				owner = {i: n for n, c in enumerate(x[1])
						for i in G.leaves(c)}
				yf, prev = [], None
				for i in sorted(owner):
					if prev is None or i != prev + 1:
						yf.append([owner[i]])
					elif yf[-1][-1] != owner[i]:
						yf[-1].append(owner[i])
					prev = i
				yf = tuple(map(tuple, yf))
				opts = [[(c[0], 1), ((c[0], nfrags(c)), nfrags(c))]
						for c in x[1]]
				for combi in itertools.product(*opts):
					w = 1
					for _, n in combi:
						w *= n
					for lhs in own:
						want[(lhs, ) + tuple(c for c, _ in combi), yf] += w
			else:
				for lhs in own:
					want[(lhs, 'Epsilon'), (sent[x[1][0]], )] += 1
	return want


def normalize(t, sent):
	"""All fragments of a node with canonical indices, via expansion of each
	frontier node to single positions."""
	res = []

	def enum(x):
		if not isinstance(x[1][0], tuple):
			return [(x[0], x[1][0], sent[x[1][0]])]
		out = []
		for combi in itertools.product(*(
				[('frontier', c)] + enum(c) for c in x[1])):
			out.append((x[0], list(combi)))
		return out

	def spans(f):
		"""list of (start, end) blocks of frontier parts and terminals"""
		if f[0] == 'frontier' and isinstance(f[1], tuple):
			span = sorted(G.leaves(f[1]))
			blocks = []
			for i in span:
				if blocks and blocks[-1][1] + 1 == i:
					blocks[-1][1] = i
				else:
					blocks.append([i, i])
			return [tuple(b) for b in blocks]
		if len(f) == 3:
			return [(f[1], f[1])]
		return [p for c in f[1] for p in spans(c)]

	for f in enum(t):
		bl = sorted(spans(f))
		number, n, prev = {}, 0, None
		for a, b in bl:
			if prev is not None and a != prev + 1:
				n += 1  # a gap
			number[a] = n
			n += 1
			prev = b

		def show(g):
			if g[0] == 'frontier' and isinstance(g[1], tuple):
				return '(%s %s)' % (g[1][0], ' '.join('%d=' % number[a]
						for a, _ in spans(g)))
			if len(g) == 3:
				return '(%s %d=%s)' % (g[0], number[g[1]], g[2])
			return '(%s %s)' % (g[0], ' '.join(show(c) for c in g[1]))
		res.append(show(f))
	return res


def gendop(rng, tier):
	for case in gentreebank(rng, tier):
		bin_ = []
		for t, s in case:
			if len(s) > 5:
				continue
			bin_.append((binary(t), s))
		if bin_:
			yield bin_, rng.random() < .3


def binary(t):
	"""Every node has at most two children."""
	if not isinstance(t, tuple):
		return t
	kids = [binary(c) for c in t[1]]
	while len(kids) > 2:
		kids[-2:] = [('%s|<>' % t[0], kids[-2:])]
	return (t[0], kids)


@section('dopgrammar', gendop, 'each fragment becomes one rule with its '
		'frequency; equal weights sum to one for every label; templates '
		'restore the fragments', functions=('dopgrammar', 'flatten',
		'compiletsg', 'sortgrammar', 'UniqueIDs'))
def dopgrammar(case):
	case, half = case
	fragments = {}
	for n, (t, sent) in enumerate(case):
		for x in G.nodes(t):
			frags = normalize(x, sent)
			if len(frags) > 40:
				frags = frags[:40]
			for f in frags:
				fragments.setdefault(f, []).append(n)
	if half:
		keep = sorted(fragments)[::2]
		fragments = {f: fragments[f] for f in keep}
	trees = [G.build(t, ParentedTree) for t, _ in case]
	grammar, backtransform, alt, frags = M.dopgrammar(trees, dict(fragments))
	want = defaultdict(float)
	for f, occ in fragments.items():
		want[f[1:f.index(' ')]] += len(occ)
	sums, ewe = defaultdict(float), defaultdict(float)
	perfrag = Counter()
	rules = set()
	for n, ((r, yf), w) in enumerate(grammar):
		require((r, yf) not in rules, 'duplicate-rule', (r, yf))
		rules.add((r, yf))
		ewe[r[0]] += alt['ewe'][n]
		if '}<' in r[0] or '@' in r[0]:
			equal(w, 1, 'auxiliary-rule', r)
		else:
			sums[r[0]] += w
	equal(dict(sums), dict(want), 'sum-of-frequencies', case)
	for a in ewe:
		require(near(ewe[a], 1), 'ewe-sum', lambda: (a, ewe[a], case))
	# exact equal weights estimates
	size = Counter()
	for f, occ in fragments.items():
		for i in occ:
			size[i] += 1
	total = defaultdict(float)
	for f, occ in fragments.items():
		total[f[1:f.index(' ')]] += sum(1 / size[i] for i in occ)
	# fragments are aligned with the first rules of the grammar
	equal(len(frags), len(backtransform), 'alignment')
	phrasal = [f for f in fragments if f.count('(') > 1]
	equal(sorted(f for f, _ in frags), sorted(phrasal), 'fragments', case)
	for n, ((f, occ), template) in enumerate(zip(frags, backtransform)):
		equal(occ, fragments[f], 'occurrences', f)
		(r, yf), w = grammar[n]
		label = f[1:f.index(' ')]
		equal((r[0], w), (label, len(occ)), 'aligned-rule', f)
		e = sum(1 / size[i] for i in occ) / total[label]
		require(near(alt['ewe'][n], e), 'ewe', lambda: (f, alt['ewe'][n], e))
		# frontier nodes and terminals, numbered by their first position
		parts = sorted(re.findall(r'\([^ ()]+ (?:\d+=[^ ()]* ?)+\)', f),
				key=lambda x: int(x[x.index(' '):x.index('=')]))
		equal(template.format(*parts), f, 'template', template)
	lex = {(f[1:f.index(' ')], f[f.index('=') + 1:-1]): len(o)
			for f, o in fragments.items() if f.count('(') == 1}
	gotlex = {(r[0], yf[0]): w for (r, yf), w in grammar
			if r[1] == 'Epsilon' and '@' not in r[0]}
	equal(gotlex, lex, 'lexical-fragments', case)
	# a grammar with given weights
	weights = {f: 0.25 * n + 1 for n, f in enumerate(sorted(fragments))}
	grammar, backtransform, _ = M.compiletsg(weights)
	got = Counter()
	for n, ((r, yf), w) in enumerate(grammar):
		if not ('}<' in r[0] or '@' in r[0]):
			got[r[0]] += w
	want = Counter()
	for f, w in weights.items():
		want[f[1:f.index(' ')]] += w
	equal(got, want, 'tsg-weights', case)
	equal(len(backtransform), len(phrasal), 'tsg-templates')


if __name__ == '__main__':
	main()
