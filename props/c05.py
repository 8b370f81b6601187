"""C05: splitting discontinuous nodes is reversible; spans are exact."""
from pv import vc, pyrun
from contracts import c05

LEVEL = 'proof'
EXT = ('bit', )
BUDGET = 20
TECHNIQUE = ('contract-based deductive verification of the functions on spans '
	'(blocks, discontinuity, bit sets) with ghost functions for blocks, loop '
	'invariants and inductively proved lemmas on binary representations; '
	'bounded run-time contracts for splitting, merging and markers; failing '
	'obligations are searched for an input on the real code')
LEVEL_NOTE = ('Proved for all inputs: tree.ranges, grammar.ranges, '
	'grammar.rangeheads (maximal blocks of a sequence), isdisc (mutable and '
	'immutable nodes), the fallback bitfanout, fanout, getbits and addbitsets '
	'(the bit set of every node is the set of its leaves). splitdiscnodes, '
	'mergediscnodes, contsets, canonicalize and the fan-out markers are '
	'covered by the bounded run-time contracts only (not counted as proved). '
	'Partial correctness.')
ASSUMPTIONS = [
	'leaves are different non-negative integers; rangeheads: sequence is '
	'strictly increasing (its documented precondition)',
	'Tree.leaves and Tree.subtrees satisfy their contracts (proved in C03), '
	'bit.fanout its contract (proved in C01); Tree.freeze gives an '
	'ImmutableTree',
	'the consumer of ranges() does not change a block before the next one is '
	'produced',
	'bounded part: no node has two discontinuous children with the same '
	'label, labels do not end in something that looks like a marker',
	'termination is not proved',
	]
TRUSTED = [
	'pv/pyexec.py, pv/pylib.py (symbolic execution of Python AST; semantics '
	'of list, set, sorted, sum and other built-in operations)',
	'pv/intbits.py: definitions of the bit functions (lemmas are proved)',
	'the CPython ast module (front end)', 'z3 / cvc5',
	]


def deductive(tier, scratch):
	obs, outside = pyrun.run(c05)
	vc.discharge(obs, timeout=20)
	return dict(obligations=obs, outside=outside, trusted=TRUSTED,
			extraction='function bodies are taken from the AST of the current '
			'sources on every run; docstrings and annotations are dropped, '
			'nothing else')
