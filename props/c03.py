"""C03: all views of one tree agree; copies are faithful; frozen trees."""
from pv import vc, pyrun
from contracts import c03

LEVEL = 'proof'
EXT = ('bit', )
BUDGET = 20
TECHNIQUE = ('contract-based deductive verification of the traversals and '
	'views of Tree against their recursive definitions (ghost functions), '
	'with loop invariants and ghost offsets for the explicit stacks; '
	'exceptional postconditions of the mutators of ImmutableTree; '
	'obligations generated from the current AST, discharged by z3/cvc5; '
	'failing obligations are searched for an input on the real code')
LEVEL_NOTE = ('Proved for all finite trees: subtrees and postorder (with and '
	'without condition), leaves, height, pos, find, treepositions (all '
	'orders), leaf_treeposition equal their recursive definitions and change '
	'nothing; every mutator of ImmutableTree is rejected without effect; '
	'DiscTree equality is the recursive comparison of labels, numbers of '
	'children and words. Copies, conversion, freezing, hashing, indexing by '
	'tree position and treeposition_spanning_leaves are covered by the '
	'bounded run-time contracts only (not counted as proved). Partial '
	'correctness.')
ASSUMPTIONS = [
	'trees are finite and acyclic; for postorder each node occurs once',
	'conditions passed to traversals are functions of the node without '
	'effects; trees are not changed during a traversal (generators are '
	'consumed without changes in between)',
	'leaves of a DiscTree are positions of its sentence; both trees are '
	'DiscTrees',
	'nodes are of class Tree (or a subclass that does not redefine len, '
	'iteration and item lookup)',
	'termination is not proved',
	]
TRUSTED = [
	'pv/pyexec.py, pv/pylib.py (symbolic execution of Python AST; semantics '
	'of list, tuple, set and built-in operations)',
	'the CPython ast module (front end)', 'z3 / cvc5',
	'lemmas by structural induction stated as axioms of the ghost functions '
	'(prefix sums of non-negative sizes are monotone; tuple concatenation is '
	'associative)',
	]


def deductive(tier, scratch):
	obs, outside = pyrun.run(c03)
	vc.discharge(obs, timeout=20)
	return dict(obligations=obs, outside=outside, trusted=TRUSTED,
			extraction='method bodies are taken from the AST of '
			'discodop/tree.py on every run; docstrings and annotations are '
			'dropped, nothing else')
