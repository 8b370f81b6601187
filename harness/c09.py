"""C09: the incremental tree reader finds the same trees for any chunking."""
import itertools
from hlib import section, require, equal, fail, main, Skip
import treegen as G
from discodop.treebank import incrementaltreereader

WORDS = ['the', 'cat', 'x', '.', ',', 'a=b', '3', '#LRB#', 'w#RRB#w', "'s",
		'\xe9t\xe9', '-', '%', '<x>', '"', '\u4e2d']
LABELS = ['S', 'NP', 'VP', 'NP-SBJ', 'X|<a,b>', 'PP', '$.', 'Z_2', 'A/B']
TEXTS = ['', ' ', '\n', '\n\n', ' foo ', ' x y\n', '\tcomment\n', '  \n ',
		' foo\n', ' 1=x\n', ' | 0.5\n', 'a\nb\nc\n', '\n  two words\n',
		' #x\n', '\tp=0.01\n', ' \xe9\n']

# text with words in brackets: not trees
BTEXTS = [' one (two) three\n', ' (two)\n', ' (a) (b)\n', '(x) ',
		'\n x (two words) y\n', ' foo\n', '', '\n', '\n(two)\n', ' (see p. 3)']


def unescape(w):
	return w.replace('#LRB#', '(').replace('#RRB#', ')')


def render(lit, sent, disc, gap):
	"""Brackets with white space between brackets chosen by gap()."""
	if not isinstance(lit, tuple):
		return '%d=%s' % (lit, sent[lit]) if disc else sent[lit]
	res = '(' + lit[0]
	for c in lit[1]:
		res += (gap(True) if isinstance(c, tuple) else ' ')
		res += render(c, sent, disc, gap)
	return res + (gap(False) if isinstance(lit[1][-1], tuple) else '') + ')'


def cut(text, how, rng):
	if how == 'whole':
		return [text]
	if how == 'lines':
		return text.splitlines(True)
	if how == 'chars':
		return list(text)
	if len(text) < 2:
		return [text]
	cuts = sorted(rng.sample(range(1, len(text)), min(len(text) - 1,
			rng.choice([1, 2, 3, 5, 9]))))
	return [text[a:b] for a, b in zip([0] + cuts, cuts + [len(text)])]


def treegen(rng):
	n = rng.choice([2, 2, 3, 4, 5, 7])
	disc = rng.random() < .4
	lit = G.randtree(rng, n, disc=.5 if disc else 0, labels=LABELS,
			unary=.1)
	sent = [rng.choice(WORDS) for _ in range(n)]
	if not disc and all(w[:1].isdigit() and '=' in w for w in sent):
		sent[0] = 'x'
	return lit, sent, disc


def gapper(rng):
	kind = rng.choice(['one', 'none', 'mixed', 'lines'])
	def gap(need):
		if kind == 'one':
			return ' ' if need else ''
		if kind == 'none':
			return rng.choice([' ', ' ', '\n', '\t']) if need else ''
		if kind == 'mixed':
			return rng.choice([' ', '  ', '\n', '\n  ', ' \n\t', '\r\n ']
					if need else ['', ' ', '\n', ' \n '])
		return '\n\t\t' if need else rng.choice(['', '\n'])
	return gap


def cases(rng, tier):
	# every division in two chunks of short streams
	for texts in itertools.product(['', ' ', '\n', ' foo\n', 'x '], repeat=3):
		a = '(S (A x) (B y))'
		b = '(S (A 1=x) (B 0=y))'
		text = texts[0] + a + texts[1] + b + texts[2]
		trees = [(('S', [('A', [0]), ('B', [1])]), ['x', 'y'],
				texts[1].rstrip()),
				(('S', [('A', [1]), ('B', [0])]), ['y', 'x'],
				texts[2].rstrip())]
		for i in range(len(text) + 1):
			yield (trees, [text[:i], text[i:]], False)
		yield (trees, [text], False)
		yield (trees, list(text), True)
	while True:
		trees, text = [], rng.choice(TEXTS)
		for _ in range(rng.choice([1, 1, 2, 3, 5])):
			lit, sent, disc = treegen(rng)
			after = rng.choice(TEXTS)
			trees.append((lit, [unescape(w) for w in sent], after.rstrip()))
			text += render(lit, sent, disc, gapper(rng)) + after
		yield (trees, cut(text, rng.choice(['whole', 'lines', 'chars',
				'any', 'any', 'any']), rng), rng.random() < .3)
		if rng.random() > .2:
			continue
		trees, text = [], rng.choice(BTEXTS)
		how = rng.choice(['whole', 'lines', 'lines', 'chars', 'any', 'any'])
		for _ in range(rng.choice([1, 2, 3])):
			lit, sent, disc = treegen(rng)
			after = rng.choice(BTEXTS)
			# text is not compared when divided within its brackets
			trees.append((lit, [unescape(w) for w in sent], after.rstrip() if
					how in ('whole', 'lines') else None))
			text += render(lit, sent, disc, gapper(rng)) + after
		yield (trees, cut(text, how, rng), rng.random() < .3)


@section('chunks', cases, 'every division in two of streams of two trees; '
		'random streams of up to 5 (dis)continuous trees with white space '
		'between brackets and text between trees (also words in brackets), divided into '
		'lines, characters or at random; non-trivial: all',
		functions=['discodop/treebank.py:incrementaltreereader',
			'discodop/treebank.py:segmentbrackets',
			'discodop/treebank.py:segmentexport',
			'discodop/treebank.py:segmentalpino',
			'discodop/tree.py:brackettree'])
def run(case):
	trees, chunks, strict = case
	res = list(incrementaltreereader(iter(chunks), strict=strict))
	equal([(G.lit(t), s) for t, s, _ in res], [a[:2] for a in trees],
			'trees', chunks)
	compare = all(a[2] is not None for a in trees)
	if compare:
		equal([c for _, _, c in res], [a[2] for a in trees], 'text', chunks)
	# with other text, the same trees in the same order
	other = list(incrementaltreereader(list(chunks), strict=strict,
			othertext=True))
	equal([(G.lit(t), s) for t, s, _ in other if t is not None],
			[a[:2] for a in trees], 'trees-othertext', chunks)
	# text up to the next tree belongs to the tree that precedes it
	got, cur = [], None
	for t, _, c in other:
		if t is not None:
			cur = [c or '']
			got.append(cur)
		elif cur is not None:
			cur.append(c or '')
	if compare:
		equal([''.join(a).rstrip() for a in got], [a[2] for a in trees],
				'text-othertext', chunks)


def small(rng, tier):
	while True:
		n = rng.choice([1, 2, 3])
		trees, text = [], ''
		for _ in range(n):
			if rng.random() < .5:
				w = rng.choice(['the', 'x', 'y,'])
				text += '(%s %s)' % ('DT', w)
				trees.append((('DT', [0]), [w]))
			else:
				lit, sent, disc = treegen(rng)
				text += render(lit, sent, disc, gapper(rng))
				trees.append((lit, [unescape(w) for w in sent]))
			text += rng.choice(['\n', ' ', '', ' foo\n'])
		yield (trees, cut(text, rng.choice(['whole', 'lines', 'chars', 'any',
				'any']), rng))


@section('nonrobust', small, 'streams with trees of depth one and '
		'robust=False', share=.4,
		functions=['discodop/treebank.py:segmentbrackets'])
def runsmall(case):
	trees, chunks = case
	res = list(incrementaltreereader(list(chunks), robust=False))
	equal([(G.lit(t), s) for t, s, _ in res], trees, 'trees', chunks)


if __name__ == '__main__':
	main()
