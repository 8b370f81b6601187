"""C13: tree edit distance."""
from pv import vc, pyrun
from contracts import c13, c13b, c13c

LEVEL = 'proof'
EXT = ('bit', )
BUDGET = 20
TECHNIQUE = ('contract-based deductive verification of the numbering of nodes '
	'(AnnotatedTree), of the dynamic program (treedist: tables hold the '
	'distances of forests) and of the recursive version (geteditstats: '
	'distance and list of operations, with its memory as invariant), all '
	'against one recursive definition of the distance of forests; symmetry, '
	'identity, triangle inequality, and agreement of both versions are lemmas '
	'proved by induction; obligations generated from the current AST, '
	'discharged by z3/cvc5; failing obligations are searched for an input on '
	'the real code')
LEVEL_NOTE = ('Proved for all trees: AnnotatedTree, strdist, treedist, '
	'geteditstats, newtreedist and EditStats (inlined). prepare() (sorting '
	'children, merging words with their preterminals) is covered by the '
	'bounded run-time contracts only. That the recursion on rightmost roots '
	'defines the minimum over all edit scripts (Tai 1979) is assumed, and '
	'checked on small trees by enumeration of all mappings. Partial '
	'correctness: termination is not proved.')
ASSUMPTIONS = [
	'every terminal is the only child of its preterminal (prepare() merges '
	'the two); trees are compared after sorting children by their first leaf',
	'the children of a node are adjacent intervals of the numbers of nodes in '
	'postorder (definition of postorder)',
	'labels are strings; machine integers in numpy arrays are mathematical',
	'equal trees are interchangeable (the memory of geteditstats uses '
	'equality of trees)',
	'treedist is called without debug',
	'termination is not proved',
	]
TRUSTED = [
	'pv/pyexec.py, pv/pylib.py (symbolic execution of Python AST; semantics '
	'of list, dict, tuple, deque, sorted, numpy.zeros)',
	'prepare(), Tree.freeze(), Tree.subtrees() (used as functions of the tree)',
	'recursive definition of the distance of forests',
	'the CPython ast module (front end)', 'z3 / cvc5',
	]


def deductive(tier, scratch):
	obs, outside = [], []
	for mod in (c13, c13b, c13c):
		a, b = pyrun.run(mod)
		obs.extend(a)
		outside.extend(b)
	vc.discharge(obs, timeout=20)
	return dict(obligations=obs, outside=outside, trusted=TRUSTED,
			extraction='function bodies are taken from the AST of the current '
			'sources on every run; docstrings and annotations are dropped, '
			'nothing else')
