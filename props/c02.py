"""C02: parent links of parented trees mirror the lists of children."""
from pv import vc, pyrun
from contracts import c02

LEVEL = 'proof'
EXT = ('bit', )
BUDGET = 25
TECHNIQUE = ('contract-based deductive verification of the Python methods of '
	'ParentedTree: representation invariant over an unbounded heap, '
	'postcondition (effect of list operations), frame and exceptional '
	'postconditions (a rejected operation changes nothing), loop invariants; '
	'obligations generated from the current AST, discharged by z3/cvc5; '
	'failing obligations are searched for an input on the real code')
LEVEL_NOTE = ('Proved for every heap, argument and number of iterations: the '
	'invariant (x.parent is p iff x occurs, once, among the children of p), '
	'and the effect and frame of construction, append, extend, insert, pop, '
	'remove, item and slice assignment and deletion, detach, disown, prune, '
	'spliceabove, splicebelow, parent index, siblings and root. Partial '
	'correctness: termination is not proved. Tree positions of length two or '
	'more, slots of other classes and sequences of operations are covered by '
	'the bounded run-time contracts only (not counted as proved).')
ASSUMPTIONS = [
	'the caller does not pass the list of children of a node itself as a list '
	'of values, and does not change an argument list during the operation',
	'values are not lists; children that are Trees are of class ParentedTree '
	'or Tree',
	'prune: the node has a parent',
	'no operation is interrupted by an asynchronous exception (MemoryError, '
	'KeyboardInterrupt)',
	'termination is not proved',
	]
TRUSTED = [
	'pv/pyexec.py, pv/pylib.py (symbolic execution of Python AST; semantics '
	'of list, set and built-in operations)',
	'the CPython ast module (front end)', 'z3 / cvc5',
	'__eq__ of trees is a function of the two values and the heap (used by '
	'list.index / in)',
	]


def deductive(tier, scratch):
	obs, outside = pyrun.run(c02)
	vc.discharge(obs, timeout=20)
	return dict(obligations=obs, outside=outside, trusted=TRUSTED,
			extraction='method bodies are taken from the AST of '
			'discodop/tree.py and discodop/util.py on every run; docstrings '
			'and annotations are dropped, nothing else')
