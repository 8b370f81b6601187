"""C07: moving punctuation never loses, duplicates or alters a word."""
from hlib import section, require, equal, fail, main, Skip
import treegen as G
from c06 import treesent, preterms, label, PUNCT, PTAGS
from discodop.tree import Tree, ParentedTree
import discodop.punctuation as P
import itertools
from hlib import SECTIONS
SECTIONS[:] = []

METHODS = ['punctroot', 'punctraise', 'balancedpunctraise', 'punctlower',
		'punctraiseall', 'move', 'moveall', 'root']


def chains(tree):
	"""leaf -> (label of preterminal, ids and labels of dominating nodes)."""
	res = {}
	def rec(node, path):
		for c in node.children:
			if isinstance(c, Tree):
				if c.children and not isinstance(c.children[0], Tree):
					require(len(c.children) == 1, 'preterminal', c)
					require(c.children[0] not in res, 'duplicated', c)
					res[c.children[0]] = (c.label, tuple(path))
				else:
					require(c.children, 'empty-node', c)
					rec(c, path + [(id(c), c.label)])
			else:
				fail('bare-terminal', node)
	rec(tree, [(id(tree), tree.label)])
	return res


@section('move', lambda rng, tier: movegen(rng, tier), 'every pattern of '
		'punctuation over every shape of at most 4 (thorough: 5) leaves for '
		'every method; random (dis)continuous trees of up to 24 words',
		functions=['discodop/punctuation.py:' + a for a in (
			'punctroot', 'punctraise', 'balancedpunctraise', 'punctlower',
			'applypunct')])
def runmove(case):
	lit, sent, how = case
	pt = preterms(lit)
	tree, s = G.build(lit), list(sent)
	keep = list(tree.subtrees())  # keep objects alive, so that ids are unique
	before = chains(tree)
	ispunct = {i for i, w in enumerate(sent)
			if pt[i][0] in P.PUNCTTAGS or w in P.PUNCTUATION}
	rootpre = {c[1][0] for c in lit[1] if isinstance(c, tuple)
			and not isinstance(c[1][0], tuple)}
	if how in ('move', 'moveall', 'root'):
		P.applypunct(how, tree, s)
	elif how == 'punctraiseall':
		P.punctraise(tree, s, rootpreterms=True)
	else:
		getattr(P, how)(tree, s)
	equal(s, sent, 'sentence')
	got = G.lit(tree)
	require(len(G.leaves(got)) == len(set(G.leaves(got))), 'duplicated',
			(how, got))
	equal(sorted(G.leaves(got)), list(range(len(sent))), 'lost', (how, got))
	after = chains(tree)
	may = set(ispunct)
	if how in ('moveall', 'punctraiseall'):
		may |= rootpre
	for i in range(len(sent)):
		equal(after[i][0], pt[i][0], 'preterminal-label', (how, got))
		if i not in may:
			equal([b for _, b in after[i][1]], [b for _, b in before[i][1]],
					'dominating-labels', (how, got))
			require(after[i][1] == before[i][1], 'dominating-nodes',
					(how, got))
		elif how in ('root', 'punctroot'):
			equal(len(after[i][1]), 1, 'not-below-root', (how, got))
	require(G.consistent(tree), 'parent-links', got)
	del keep


def movegen(rng, tier):
	n = 0
	for size in (1, 2, 3, 4) + ((5, ) if tier == 'thorough' else ()):
		for shape in G.shapes(size):
			for mask in range(1 << size):
				lit = label(shape)
				sent = [('"' if (n + i) % 3 == 0 else ',()-'[(n + i) % 4])
						if mask >> i & 1 else 'w%d' % i for i in range(size)]
				lit = tagpunct(lit, sent)
				for how in METHODS:
					n += 1
					yield (lit, sent, how)
	while True:
		lit, sent = treesent(rng, maxn=24)
		yield (lit, sent, rng.choice(METHODS))


def tagpunct(t, sent):
	if not isinstance(t, tuple):
		return t
	if len(t[1]) == 1 and not isinstance(t[1][0], tuple) and (
			sent[t[1][0]] in PUNCT):
		return ('$(', t[1])
	return (t[0], [tagpunct(c, sent) for c in t[1]])


if __name__ == '__main__':
	main()
