"""C08: treebank files round-trip."""
import io
import os
import shutil
import itertools
import contextlib
from hlib import section, require, equal, fail, main, Skip
import treegen as G
from discodop.tree import (Tree, ParentedTree, brackettree, discbrackettree,
		writebrackettree, writediscbrackettree, escape, unescape, ptbescape,
		ptbunescape)
import discodop.treebank as B

WORDS = ['the', 'cat', 'Haus', '(', ')', 'a(b)c', '((', ':-)', '.', ',', '%',
		'0', '12', '3=4', '=', "'s", '"', "''", '\xe9t\xe9', '\u4e2d\u6587',
		'#', '#x', 'a/b', '\\', '<b>', '&amp;', '-LRB-', '[', ']', '{', '}',
		'|', '--', '...', '$', '*', '^', '+', '@', '\U0001f600', 'x=1=y']
LABELS = ['S', 'NP', 'VP', 'PP', 'NP-SBJ', 'X=2', 'S|<a,b>', 'A^<S>', 'X_2',
		'VP*', 'VP*0', 'A+B', '-NONE-', '$', '@X', '\xc9', 'N/a', "X'", '"',
		'S.', '1', '20']
TAGS = ['N', 'V', 'D', '$,', '$.', '.', ',', "''", '``', 'P/sg', 'NN-HD',
		'5', 'V[x]', '-LRB-']
FUNCS = ['--', 'SB', 'HD', 'OA', 'NK-x']
MORPHS = ['--', 'sg', 'Nom.Sg.Masc', '3.Sg']
LEMMAS = ['--', 'be', 'cat', 'x']


def mktree(rng, fmt, n=None):
	n = n or rng.choice([1, 2, 3, 4, 6, 9, 15])
	disc = fmt != 'bracket' and rng.random() < .6
	labels, tags = LABELS, TAGS
	if fmt == 'alpino':
		labels = [a for a in LABELS if a == a.upper()]
		tags = [a.lower() for a in TAGS if a.lower().upper().lower() == a.lower()]
	if fmt == 'export':
		# parentheses in labels are written as brackets; '$[' as '$('
		tags = TAGS + ['$[']
	lit = G.randtree(rng, n, disc=rng.choice([.3, .7]) if disc else 0,
			unary=rng.choice([0, .2]), labels=labels, tags=tags,
			maxkids=rng.choice([3, 6]))
	if len(lit[1]) == 1 and not isinstance(lit[1][0], tuple):
		lit = (rng.choice(labels), [lit])
	words = WORDS
	if fmt == 'export':
		# cannot represent comment markers or words like nodes
		words = [w for w in words if '%%' not in w]
	sent = [rng.choice(words) for _ in range(n)]
	if fmt == 'bracket' and all(w[0].isdigit() and '=' in w for w in sent):
		sent[0] = 'x'
	if fmt in ('bracket', 'discbracket') and rng.random() < .15:
		sent[rng.randrange(n)] = None
		if all(w is None for w in sent):
			sent[0] = 'x'
	if n > 1 and rng.random() < .3 and fmt != 'bracket':
		lit = (lit[0], lit[1][::-1])
	return lit, sent


def cases(fmt):
	def gen(rng, tier):
		words = [w for w in WORDS]
		for w in words:
			for m in (1, 2):
				lit = ('S', [('n', [0]), ('v', [1])][:m] if fmt == 'alpino'
						else [('N', [0]), ('V', [1])][:m])
				if fmt == 'bracket' and w == '3=4':
					continue
				yield ([(lit, [w, 'x'][:m], None)], 0)
		while True:
			trees = []
			for _ in range(rng.choice([1, 1, 2, 3, 6])):
				lit, sent = mktree(rng, fmt)
				comment = rng.choice([None, None, 'foo', 'p=0.5 x', '1'])
				trees.append((lit, sent, comment))
			yield (trees, rng.randrange(1 << 16))
	return gen


def build(lit, k, fields=True):
	tree = G.build(lit)
	if fields and k & 1:
		for n, node in enumerate(tree.subtrees()):
			pre = not isinstance(node[0], Tree)
			node.source = ['#%d' % (500 + n), LEMMAS[(k + n) % 4] if pre
					else '--', node.label, MORPHS[(k + 3 * n) % 4],
					FUNCS[(k + 5 * n) % 5], '0']
	return tree


def strings(tree, fmt):
	"""The fields which the format represents, per node."""
	return sorted(((n.label, tuple(sorted(n.leaves())),
			tuple((n.source[a] or '--') if n.source else '--'
				for a in ((1, 3, 4) if not isinstance(n[0], Tree)
					else (3, 4)))) for n in tree.subtrees()
			if n is not tree), key=repr)


def write(name, text):
	with io.open(name, 'w', encoding='utf8', newline='') as out:
		out.write(text)
	return name


def readerpath(fmt, trees, k, keys):
	text = [B.writetree(build(l, k), list(s), key, fmt, comment=c)
			for key, (l, s, c) in zip(keys, trees)]
	return text


def check(fmt, tree, sent, lit, s, msg):
	equal(list(sent), list(s), 'sentence', msg)
	got = G.lit(tree)
	want = lit
	if fmt == 'export':
		want = ('ROOT', lit[1])
	if fmt in ('export', 'alpino'):
		got, want = G.sortcanon(got), G.sortcanon(want)
	equal(got, want, 'tree', msg)
	require(G.consistent(tree), 'parent-links', msg)


def bracketlike(fmt):
	def run(case):
		trees, k = case
		cls = B.READERS[fmt]
		text = readerpath(fmt, trees, k, range(1, len(trees) + 1))
		msg = repr(text)
		for t, (lit, sent, _) in zip(text, trees):
			require(t.endswith('\n') and t.count('\n') == 1, 'one-line', msg)
			disc = fmt == 'discbracket'
			# a comment is not part of the tree
			tree, s = brackettree(t.split('\t')[0] if disc else t,
					detectdisc=disc)
			check(fmt, tree, s, lit, sent, msg)
			if disc:
				if '\t' not in t:
					tree, s = discbrackettree(t)
					check(fmt, tree, s, lit, sent, msg)
				pretty = writediscbrackettree(build(lit, 0), sent,
						pretty=True)
				tree, s = brackettree(pretty)
				check(fmt, tree, s, lit, sent, pretty)
			elif sum(w is not None for w in sent) == len(sent):
				tree, s = brackettree(t)
				check(fmt, tree, s, lit, sent, msg)
		name = write('corpus.txt', ''.join(text))
		reader = cls(name)
		items = list(reader.itertrees())
		equal(len(items), len(trees), 'number', msg)
		for (key, item), (lit, sent, comment), n in zip(items, trees,
				itertools.count(1)):
			equal(key, n, 'key', msg)
			check(fmt, item.tree, item.sent, lit, sent, msg)
			if fmt == 'discbracket':
				equal(item.comment, comment, 'comment', msg)
		reader = cls(name)
		equal([G.lit(t) for t in reader.trees().values()],
				[a[0] for a in trees], 'trees', msg)
		equal(list(reader.sents().values()), [a[1] for a in trees],
				'sents', msg)
		equal(''.join(cls(name).blocks().values()), ''.join(text), 'blocks')
		# write what was read
		again = [B.writetree(i.tree, i.sent, key, fmt, comment=i.comment)
				for key, i in cls(name).itertrees()]
		equal(again, text, 'write-again')
		a = len(trees) // 2
		equal([(key, G.lit(i.tree)) for key, i in reader.itertrees(a)],
				[(n + 1, trees[n][0]) for n in range(a, len(trees))],
				'itertrees-start')
		equal([(key, i.sent) for key, i in reader.itertrees(0, a)],
				[(n + 1, trees[n][1]) for n in range(a)], 'itertrees-end')
		# the prefix with a sentence ID
		t = B.writetree(build(trees[0][0], 0), trees[0][1], 'k1', fmt,
				comment=trees[0][2], sentid=True)
		if not k & 1:
			equal(t, 'k1|' + text[0], 'sentid')
		# incremental reader
		if all(len(t[1]) > 1 or isinstance(t[1][0][1][0], tuple)
				for t, _, _ in trees) and not any(None in s
				for _, s, _ in trees):
			res = list(B.incrementaltreereader(iter(text)))
			equal(len(res), len(trees), 'incremental-number', msg)
			for (tree, s, c), (lit, sent, comment) in zip(res, trees):
				check(fmt, tree, s, lit, sent, msg)
				if fmt == 'discbracket':
					equal(c.strip() or None, comment, 'incremental-comment')
	return run


FUNCTIONS = ['discodop/treebank.py:writetree',
		'discodop/treebank.py:CorpusReader',
		'discodop/tree.py:Tree.parse', 'discodop/tree.py:brackettree',
		'discodop/tree.py:escape', 'discodop/tree.py:unescape']
section('bracket', cases('bracket'), 'each word of a list of awkward words; '
		'random continuous treebanks of up to 6 trees', limit=30,
		functions=FUNCTIONS + ['discodop/tree.py:writebrackettree',
		'discodop/treebank.py:BracketCorpusReader'])(bracketlike('bracket'))
section('discbracket', cases('discbracket'), 'the same with discontinuous '
		'trees, comments', limit=30,
		functions=FUNCTIONS + ['discodop/tree.py:writediscbrackettree',
		'discodop/treebank.py:DiscBracketCorpusReader'])(
		bracketlike('discbracket'))


@section('export', cases('export'), 'the same with lemmas, functions, '
		'morphology', limit=30, functions=FUNCTIONS + [
		'discodop/treebank.py:writeexporttree',
		'discodop/treebank.py:exporttree', 'discodop/treebank.py:exportsplit',
		'discodop/treebank.py:NegraCorpusReader'])
def runexport(case):
	trees, k = case
	if any(w is None or w == '' for _, s, _ in trees for w in s):
		raise Skip
	keys = ['%d' % (7 * n + 1) if k & 2 else 's%d' % n
			for n in range(len(trees))]
	text = readerpath('export', trees, k, keys)
	msg = repr(text)
	header = B.EXPORTHEADER if k & 4 else ''
	name = write('corpus.export', '#FORMAT 4\n' * bool(k & 8) + header
			+ ('%% comment\n' if k & 16 else '') + ''.join(text))
	cls = B.READERS['export']
	items = list(cls(name).itertrees())
	equal([key for key, _ in items], keys, 'keys', msg)
	for (key, item), (lit, sent, comment) in zip(items, trees):
		check('export', item.tree, item.sent, lit, sent, msg)
		equal(item.comment, comment, 'comment', msg)
		equal(strings(item.tree, 'export'), strings(build(lit, k), 'export'),
				'fields', msg)
	equal(''.join(cls(name).blocks().values()), ''.join(text), 'blocks')
	again = [B.writetree(i.tree, i.sent, key, 'export', comment=i.comment)
			for key, i in cls(name).itertrees()]
	name = write('again.export', ''.join(again))
	for (key, item), (lit, sent, comment) in zip(cls(name).itertrees(), trees):
		check('export', item.tree, item.sent, lit, sent, again)
		equal(strings(item.tree, 'export'), strings(build(lit, k), 'export'),
				'fields-again', again)
	res = list(B.incrementaltreereader(''.join(text).splitlines(k & 32)))
	equal(len(res), len(trees), 'incremental-number', msg)
	for (tree, s, c), (lit, sent, comment) in zip(res, trees):
		check('export', tree, s, lit, sent, msg)
		equal(c, comment, 'incremental-comment', msg)


@section('alpino', cases('alpino'), 'the same, one XML file per tree',
		limit=30, functions=FUNCTIONS + [
		'discodop/treebank.py:writealpinotree',
		'discodop/treebank.py:alpinotree',
		'discodop/treebank.py:AlpinoCorpusReader'])
def runalpino(case):
	trees, k = case
	if any(w is None or w == '' for _, s, _ in trees for w in s):
		raise Skip
	text = readerpath('alpino', trees, k, range(len(trees)))
	msg = repr(text)
	shutil.rmtree('alp', ignore_errors=True)
	os.mkdir('alp')
	for n, t in enumerate(text):
		write('alp/%d.xml' % n, '<?xml version="1.0" encoding="UTF-8"?>\n' + t)
	items = list(B.READERS['alpino']('alp/*.xml').itertrees())
	equal([key for key, _ in items], ['alp/%d' % n
			for n in range(len(trees))], 'keys', msg)
	for n, (key, item) in enumerate(items):
		lit, sent, comment = trees[n]
		check('alpino', item.tree, item.sent, lit, sent, msg)
		equal(item.comment, '%s|%s' % (n, comment) if comment else str(n),
				'comment', msg)
		if k & 1:
			want = build(lit, k)
			equal(sorted((m.label, sorted(m.leaves()), m.source[4])
					for m in item.tree.subtrees()),
					sorted((m.label, sorted(m.leaves()), m.source[4])
					for m in want.subtrees()), 'functions', msg)
			equal(sorted((sorted(m.leaves()), m.source[1], m.source[3])
					for m in item.tree.subtrees()
					if not isinstance(m[0], Tree)),
					sorted((sorted(m.leaves()), m.source[1], m.source[3])
					for m in want.subtrees() if not isinstance(m[0], Tree)),
					'lemma-morphology', msg)
	res = list(B.incrementaltreereader(''.join(text).splitlines(True)))
	equal(len(res), len(trees), 'incremental-number', msg)
	for (tree, s, c), (lit, sent, comment) in zip(res, trees):
		check('alpino', tree, s, lit, sent, msg)


def escgen(rng, tier):
	alphabet = '()#[]{}/-\\aLRB'
	for n in range(0, 4):
		for w in itertools.product(alphabet, repeat=n):
			yield (''.join(w), )
	while True:
		yield (''.join(rng.choice(alphabet + '\xe9%$=|<>&"\'')
				for _ in range(rng.randrange(1, 12))), )


@section('escape', escgen, 'every word of at most 3 characters over brackets '
		'and hyphens; random words', share=.3, functions=[
		'discodop/tree.py:escape', 'discodop/tree.py:unescape',
		'discodop/tree.py:ptbescape', 'discodop/tree.py:ptbunescape'])
def runesc(case):
	w = case[0]
	if w == '':
		equal(escape(None), '', 'none')
		equal(unescape(''), None, 'none')
		equal(ptbescape(None), '', 'none')
		equal(ptbunescape(''), None, 'none')
		return
	if not any(x in w for x in ('#LRB#', '#RRB#', '#FRONTIER#')):
		equal(unescape(escape(w)), w, 'identity')
	require('(' not in escape(w) and ')' not in escape(w), 'escaped')
	if not any(x in w for x in ('LRB', 'RRB', 'LCB', 'RCB', 'LSB', 'RSB',
			'\\/', '#FRONTIER#')) and not w.endswith('\\'):
		equal(ptbunescape(ptbescape(w)), w, 'ptb-identity')
	require('(' not in ptbescape(w) and ')' not in ptbescape(w),
			'ptb-escaped')


def strgen(rng, tier):
	while True:
		lit, _ = mktree(rng, 'discbracket')
		yield (lit, rng.choice(['Tree', 'ParentedTree']))


@section('string', strgen, 'trees as strings', share=.3,
		functions=['discodop/tree.py:Tree.parse', 'discodop/tree.py:Tree.pprint',
			'discodop/tree.py:Tree._pprint_flat'])
def runstr(case):
	lit, name = case
	cls = dict(Tree=Tree, ParentedTree=ParentedTree)[name]
	tree = G.build(lit, cls)
	for text in (str(tree), tree.pprint(), tree.pprint(margin=10)):
		res = cls(text)
		equal(G.lit(res), lit, 'parse', text)
		require(type(res) is cls, 'class')
		require(all(type(n) is cls for n in res.subtrees()), 'class')


def optgen(rng, tier):
	while True:
		lit, sent = mktree(rng, 'export')
		yield (lit, sent, rng.randrange(1, 64, 2), rng.choice([None, 'leave',
				'add', 'remove', 'replace', 'between']),
				rng.choice([None, 'no', 'add', 'replace', 'between']),
				rng.choice([None, 'no', 'add', 'replace', 'between']))


@section('options', optgen, 'export format read with options for functions, '
		'morphology and lemmas: words and structure are those of the file',
		share=.5, functions=['discodop/treebank.py:handlefunctions',
			'discodop/treebank.py:handlemorphology'])
def runopt(case):
	lit, sent, k, functions, morphology, lemmas = case
	if any(w is None or '-' in w for w in sent) or any(c in n[0]
			for n in G.nodes(lit) for c in '-=/'):
		raise Skip
	src = build(lit, k)
	text = B.writetree(src, sent, '1', 'export')
	name = write('opt.export', text)
	item = dict(B.READERS['export'](name, functions=functions,
			morphology=morphology, lemmas=lemmas).itertrees())['1']
	got = G.lit(item.tree)
	equal(sorted(G.leaves(got)), list(range(len(sent))), 'leaves', text)
	lem = {n[0]: n.source[1] for n in src.subtrees()
			if not isinstance(n[0], Tree)}
	mor = {n[0]: n.source[3] for n in src.subtrees()
			if not isinstance(n[0], Tree)}
	equal(item.sent, [w + '/' + lem[i] if lemmas == 'add' else
			lem[i] if lemmas == 'replace' else w for i, w in enumerate(sent)],
			'sentence', text)
	require(G.consistent(item.tree), 'parent-links')

	def want(node, top):
		func = node.source[4]
		func = None if func == '--' else func
		pre = not isinstance(node[0], Tree)
		lab = node.label
		kids = list(node.children) if pre else [
				want(c, False) for c in node]
		if pre:
			if lemmas == 'between':
				kids = [(lem[kids[0]], kids)]
			if morphology == 'add':
				lab = '%s/%s' % (lab, mor[node[0]])
			elif morphology == 'replace':
				lab = mor[node[0]]
		if top:
			return ('ROOT', kids)
		if functions == 'add' and func:
			lab += '-' + func
		elif functions == 'replace':
			lab = func or '--'
		elif functions == 'remove':
			lab = lab
		return (lab, kids)
	if (morphology == 'between' or lemmas == 'between'
			or functions in ('between', 'remove')):
		return
	equal(G.sortcanon(got), G.sortcanon(want(src, True)), 'labels', text)


if __name__ == '__main__':
	main()
