"""C07: moving punctuation."""
from pv import vc, pyrun
from contracts import c07

LEVEL = 'proof'
EXT = ('bit', )
BUDGET = 20
TECHNIQUE = ('contract-based deductive verification of punctraise and '
	'balancedpunctraise (invariants of the tree while nodes are detached, '
	'attached, and emptied ancestors are removed), using the contracts of '
	'ParentedTree.pop, append, insert and __delitem__ which C02 proves; '
	'obligations generated from the current AST, discharged by z3/cvc5; '
	'failing obligations, and the other methods of moving, are checked with '
	'run-time contracts on generated inputs on the real code')
LEVEL_NOTE = ('Proved for all trees and sentences: punctraise (both modes) and '
	'balancedpunctraise: every preterminal is attached exactly once to a '
	'phrase of the tree with its label and index, only punctuation moves, '
	'phrases keep their parent or were emptied and removed, no empty phrase '
	'remains. The decisions of where punctuation goes are not constrained. '
	'punctroot, punctlower and applypunct are covered by the bounded run-time '
	'contracts only. Partial correctness: termination is not proved.')
ASSUMPTIONS = [
	'the tree is a consistent ParentedTree (C02); each leaf is an index into '
	'the sentence which occurs once, below a preterminal without other '
	'children; the root is not a preterminal; no node but the root is empty',
	'the sentence is a list which is not otherwise part of the tree; words '
	'are strings or None, labels are strings',
	'every node of a finite tree is reached from the root by children',
	'termination is not proved',
	]
TRUSTED = [
	'pv/pyexec.py, pv/pylib.py (symbolic execution of Python AST; semantics '
	'of list, dict, sorted, comprehensions)',
	'contracts of ParentedTree methods are assumed here and proved in C02',
	'Tree.subtrees(f) yields nodes of the tree for which f is true (C03); '
	'Tree.leaves() has no effects, and at least one leaf for a node that is '
	'not empty',
	'ispunct() is a function of word and label; BALANCEDPUNCTMATCH maps '
	'strings to strings',
	'the CPython ast module (front end)', 'z3 / cvc5',
	]


def deductive(tier, scratch):
	obs, outside = pyrun.run(c07)
	vc.discharge(obs, timeout=20)
	return dict(obligations=obs, outside=outside, trusted=TRUSTED,
			extraction='function bodies are taken from the AST of the current '
			'sources on every run; docstrings and annotations are dropped, '
			'nothing else')
