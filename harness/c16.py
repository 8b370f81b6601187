"""C16: yield functions."""
import io
import random
import itertools
from collections import Counter, defaultdict
from hlib import section, require, equal, fail, main, Skip
import treegen as G
import discodop.gen as M
import discodop.grammar as GR
import discodop.treetransforms as TT


def randyf(rng, f1, f2, maxcomp=16):
	"""Ordered, linear, non-erasing yield function."""
	seq = [0] * f1 + [1] * f2
	rng.shuffle(seq)
	# adjacent arguments of the same nonterminal must be in separate components
	comps = [[seq[0]]]
	for a in seq[1:]:
		if a == comps[-1][-1] or rng.random() < .3:
			comps.append([a])
		else:
			comps[-1].append(a)
	return tuple(map(tuple, comps))


def genyf(rng, tier):
	# all functions with up to seven arguments
	for n in range(1, 8):
		for bits in itertools.product([0, 1], repeat=n):
			for cuts in range(1 << (n - 1)):
				comps = [[bits[0]]]
				for i in range(1, n):
					if cuts >> (i - 1) & 1:
						comps.append([bits[i]])
					else:
						comps[-1].append(bits[i])
				yield (tuple(map(tuple, comps)), )
	for n in range(8, 33):
		yield ((tuple([1] * n), ), )
		yield ((tuple([0] * (n - 1) + [1]), ), )
		yield ((tuple([1] + [0] * (n - 1)), ), )
	for n in range(1, 17):
		yield (tuple((1, ) for _ in range(n)), )
		yield (tuple((n & 1, ) for n in range(n)), )
	while True:
		yield (tuple(tuple(rng.randrange(2) for _ in range(rng.randint(1, 32)))
				for _ in range(rng.randint(1, 16))), )


@section('encoding', genyf, 'packing a yield function and unpacking it gives '
		'the same; bit b of component n is its b-th argument', functions=(
		'yfarray', 'arraytoyf'))
def encoding(case):
	yf, = case
	args, lengths = M.yfarray(yf)
	equal(len(args), len(yf), 'components', yf)
	equal([int(a) for a in lengths], [len(a) for a in yf], 'lengths', yf)
	for n, a in enumerate(yf):
		equal([(int(args[n]) >> b) & 1 for b in range(len(a))], list(a),
				'arguments', yf)
		require(int(args[n]) >> len(a) == 0, 'extra-bits', yf)
	equal(M.arraytoyf(args, lengths), yf, 'round-trip', yf)


def gengetyf(rng, tier):
	for n in range(1, 7):
		for owners in itertools.product([0, 1, 2], repeat=n):
			yield (owners, False)
			yield (owners, True)
	while True:
		n = rng.choice([3, 8, 20, 64, 65, 130])
		k = rng.randint(2, 3)
		yield tuple(rng.randrange(k) for _ in range(n)), rng.random() < .2


@section('getyf', gengetyf, 'the yield function of two siblings lists, for '
		'every block of their union, which of them comes next', functions=(
		'getyf', ))
def getyf(case):
	owners, single = case
	bits = [sum(1 << n for n, a in enumerate(owners) if a == k)
			for k in (0, 1)]
	nodes = [TT.ImmutableTree('X', []) for _ in bits]
	for node, b in zip(nodes, bits):
		node.bitset = b
	if single:
		nodes[1], bits[1] = None, 0
		owners = tuple(a if a == 0 else 2 for a in owners)
	# components separated by gaps; repeated owners are the same block
	text = ''.join('01,'[a] for a in owners).rstrip(',')
	comps = [''.join(a for a, _ in itertools.groupby(comp))
			for comp in text.split(',') if comp]
	got = TT.getyf(*nodes)
	require(got.startswith(';'), 'format', got)
	equal([a for a in got[1:].split(',') if a], comps, 'components', case)
	equal(got, ';' + ','.join(comps), 'text', case)


def genbig(rng, tier):
	for n in range(33, 40):
		yield (((0, ) * (n - 1) + (1, ), ), )
	for n in range(17, 20):
		yield (((0, ), ) * n, )


@section('too-big', genbig, 'what does not fit is not encoded wrongly',
		share=.05, functions=('yfarray', ))
def toobig(case):
	yf, = case
	try:
		args, lengths = M.yfarray(yf)
	except (AssertionError, OverflowError, ValueError):
		return
	equal(M.arraytoyf(args, lengths), yf, 'round-trip', yf)


def gencompose(rng, tier):
	for f1 in (1, 2, 3):
		for f2 in (1, 2, 3):
			for seq in sorted(set(itertools.permutations(
					[0] * f1 + [1] * f2))):
				yield seq, tuple(range(1, len(seq))), 7
				yield seq, (), 3
	while True:
		n = rng.randint(2, 9)
		seq = tuple(rng.randrange(2) for _ in range(n))
		cuts = tuple(i for i in range(1, n) if rng.random() < .5)
		yield seq, cuts, rng.randint(1, 10 ** 6)


@section('compose', gencompose, 'components are concatenated as the yield '
		'function says', functions=('compose', ))
def compose(case):
	seq, cuts, seed = case
	rng = random.Random(seed)
	if 0 not in seq or 1 not in seq:
		raise Skip
	comps = [[seq[0]]]
	for i in range(1, len(seq)):
		if i in cuts:
			comps.append([seq[i]])
		else:
			comps[-1].append(seq[i])
	yf = tuple(map(tuple, comps))
	cnt = itertools.count()
	parts = [[['w%d' % next(cnt) for _ in range(rng.randint(1, 3))]
			for _ in range(seq.count(i))] for i in (0, 1)]
	want, queues = [], [list(parts[0]), list(parts[1])]
	for comp in yf:
		out = []
		for a in comp:
			out = out + queues[a].pop(0)
		want.append(out)
	args, lengths = M.yfarray(yf)
	rule = M.Rule(2, 3, 4, args, lengths, .5, 0)
	p, res = M.compose(rule, (.25, [list(x) for x in parts[0]]),
			(.125, [list(x) for x in parts[1]]), False)
	equal(res, want, 'spans', case)
	require(abs(p - .5 * .25 * .125) < 1e-12, 'probability', p)


def randgrammar(rng):
	"""A binarized grammar without recursion; layers of nonterminals.

	:returns: rules ((labels, yf), prob); A0 is the start symbol."""
	layers = rng.randint(1, 3)
	fan, rules = {}, []
	bylayer = []
	for layer in range(layers + 1):
		names = []
		for k in range(rng.randint(1, 2)):
			name = 'N%d%s' % (layer, 'ab'[k])
			names.append(name)
			if layer == 0:
				fan[name] = 1
				for w in rng.sample(['x', 'y', 'z', '\xe9'],
						rng.randint(1, 2)):
					rules.append(((( name, 'Epsilon'), (w, )),
							rng.choice([.5, .25, 1])))
				continue
			below = [a for l in bylayer for a in l]
			fan[name] = None
			for _ in range(rng.randint(1, 2)):
				for _try in range(20):
					b = rng.choice(below)
					if rng.random() < .2:
						rhs, yf = (b, ), tuple((0, ) for _ in range(fan[b]))
					else:
						c = rng.choice(below)
						if fan[b] + fan[c] > 6:
							continue
						rhs, yf = (b, c), randyf(rng, fan[b], fan[c])
					if fan[name] in (None, len(yf)) and (
							(name, ) + rhs, yf) not in {
								r for r, _ in rules}:
						fan[name] = len(yf)
						rules.append((((name, ) + rhs, yf),
								rng.choice([.5, .25, 1, .125])))
						break
			if fan[name] is None:
				fan[name] = 1
				rules.append((((name, bylayer[0][0]), ((0, ), )), 1))
		bylayer.append(names)
	# a start symbol for every topmost nonterminal with fan-out 1
	top = [a for a in fan if fan[a] == 1]
	rules.append(((('ROOT', top[-1]), ((0, ), )), 1))
	return rules


def derivations(rules, limit=3000):
	"""All (label -> set of (probability, components))."""
	memo = {}
	bylhs = defaultdict(list)
	for (r, yf), p in rules:
		bylhs[r[0]].append((r, yf, p))

	def apply(yf, left, right):
		queues = [list(left), list(right)]
		return tuple(sum((queues[a].pop(0) for a in comp), ())
				for comp in yf)

	def rec(a):
		if a not in memo:
			res = set()
			for r, yf, p in bylhs[a]:
				if r[1] == 'Epsilon':
					res.add((p, (yf, )))
				elif len(r) == 2:
					for q, x in rec(r[1]):
						res.add((p * q, apply(yf, x, ())))
				else:
					for q, x in rec(r[1]):
						for s, y in rec(r[2]):
							res.add((p * q * s, apply(yf, x, y)))
				if len(res) > limit:
					raise Skip
			memo[a] = res
		return memo[a]
	for a in list(bylhs):
		rec(a)
	return memo


def gengrammars(rng, tier):
	while True:
		yield randgrammar(rng), rng.randint(1, 10 ** 6)


@section('generate', gengrammars, 'every generated sentence is derived by the '
		'grammar with the reported probability', share=1.5, functions=('gen',
		'chooserule', 'splitgrammar', 'compose'))
def generate(case):
	rules, seed = case
	want = derivations(rules)
	grammar = M.splitgrammar(rules)
	# tables
	equal(grammar.numrules, len(rules), 'numrules')
	labels = {a for (r, _), _ in rules for a in r} | {'Epsilon', 'ROOT'}
	equal(set(grammar.toid), labels, 'labels')
	equal({a: grammar.tolabel[n] for a, n in grammar.toid.items()},
			{a: a for a in labels}, 'mapping')
	for name, pos in (('unary', 1), ('lbinary', 1), ('rbinary', 2),
			('bylhs', 0)):
		got = Counter()
		for k, lst in enumerate(getattr(grammar, name)):
			for r in lst:
				yf = M.arraytoyf(r.args, r.lengths)
				rhs = (r.rhs1, r.rhs2)[:2 if r.rhs2 else 1]
				got[k, (r.lhs, ) + rhs, yf, round(r.prob, 6)] += 1
		exp = Counter()
		for (r, yf), p in rules:
			if r[1] == 'Epsilon' or (name == 'unary' and len(r) != 2) or (
					name.endswith('binary') and len(r) != 3):
				continue
			ids = tuple(grammar.toid[a] for a in r)
			exp[ids[pos], ids, yf, round(p, 6)] += 1
		equal(got, exp, 'table-' + name, rules)
	for (r, yf), p in rules:
		equal(grammar.fanout[grammar.toid[r[0]]],
				1 if r[1] == 'Epsilon' else len(yf), 'fanout', rules)
	lex = Counter((grammar.tolabel[x.lhs], w, x.word, x.prob)
			for w, lst in grammar.lexicalbyword.items() for x in lst)
	equal(lex, Counter((r[0], yf[0], yf[0], p) for (r, yf), p in rules
			if r[1] == 'Epsilon'), 'lexicon', rules)
	random.seed(seed)
	for label in sorted(labels - {'Epsilon'}):
		if not want.get(label):
			continue
		for k in range(4):
			p, sent = M.gen(grammar, start=grammar.toid[label],
					discount=[1, .75][k & 1])
			got = tuple(tuple(x) for x in sent)
			cands = [q for q, x in want[label] if x == got]
			require(cands, 'not-derivable', lambda: (label, got, rules))
			require(any(abs(q - p) <= 1e-6 * q for q in cands),
					'probability', lambda: (label, got, p, cands))


def genchoice(rng, tier):
	while True:
		k = rng.randint(1, 4)
		ps = [rng.choice([.5, .25, .1, .01]) for _ in range(k)]
		cnt = [rng.randint(0, 3) for _ in range(k)]
		yield ps, cnt, rng.choice([1., .75, .3]), rng.randint(1, 10 ** 6)


@section('chooserule', genchoice, 'rules are chosen in proportion to their '
		'discounted weights', share=.5, functions=('chooserule', ))
def chooserule(case):
	ps, cnt, discount, seed = case
	rules = [M.LexicalRule(1, 0, 0, 'w%d' % n, p, n)
			for n, p in enumerate(ps)]
	random.seed(seed)
	num = 3000
	got = Counter(M.chooserule(rules, discount, cnt).no for _ in range(num))
	ws = [p * discount ** c for p, c in zip(ps, cnt)]
	for n, w in enumerate(ws):
		q = w / sum(ws)
		dev = 6.5 * (num * q * (1 - q)) ** .5 + 2
		require(abs(got[n] - num * q) <= dev, 'distribution',
				lambda: (case, dict(got)))


@section('files', gengrammars, 'grammars written as text are read back',
		share=.4, functions=('read_lcfrs_grammar', 'parsefrac',
		'writegrammar'))
def files(case):
	rules, _ = case
	rules = sorted(rules, key=lambda x: x[0][0][1] == 'Epsilon')
	text, lexicon = GR.writegrammar(rules)
	got = M.read_lcfrs_grammar(io.StringIO(text), io.StringIO(lexicon))
	equal(Counter((r, round(p, 5)) for r, p in got),
			Counter((r, round(p, 5)) for r, p in rules), 'round-trip', text)


if __name__ == '__main__':
	main()
