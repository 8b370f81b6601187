"""C06: deleting words."""
from pv import vc, pyrun
from contracts import c06

LEVEL = 'proof'
EXT = ('bit', )
BUDGET = 20
TECHNIQUE = ('contract-based deductive verification of removeterminals '
	'(invariants of the traversal of the tree while nodes are deleted from it, '
	'of the deletion of empty ancestors, and of the renumbering), using the '
	'contracts of ParentedTree.__delitem__, __setitem__ and parent_index which '
	'C02 proves; of removeemptynodes, punctremove and punctprune, which decide '
	'what is deleted; obligations generated from the current AST, discharged '
	'by z3/cvc5; failing obligations are searched for an input on the real '
	'code')
LEVEL_NOTE = ('Proved for all trees, sentences and deletion functions: the '
	'words that remain are numbered by their rank, the sentence has exactly '
	'these words in order, each word keeps its preterminal, nodes keep their '
	'parent and label or are removed, only words that were to be deleted and '
	'nodes that became empty are removed, no empty node remains. The option '
	'removeall of punctremove and the combination of pruning and moving '
	'(applypunct) are covered by the bounded run-time contracts only. Partial '
	'correctness: termination is not proved.')
ASSUMPTIONS = [
	'the tree is a consistent ParentedTree (C02); each leaf is an index into '
	'the sentence which occurs once, below a preterminal without other '
	'children; the root is not a preterminal; no node but the root is empty',
	'the deletion function has no effects and its answer depends on the word '
	'and the preterminal',
	'the sentence is a list which is not otherwise part of the tree',
	'every node of a finite tree is reached from the root by children '
	'(used to go from "children of a node in the tree are in the tree" to all '
	'nodes)',
	'termination is not proved',
	]
TRUSTED = [
	'pv/pyexec.py, pv/pylib.py (symbolic execution of Python AST; semantics '
	'of list, dict, sorted, comprehensions)',
	'contracts of ParentedTree methods are assumed here and proved in C02',
	'ispunct() is a function of word and label',
	'the CPython ast module (front end)', 'z3 / cvc5',
	]


def deductive(tier, scratch):
	obs, outside = pyrun.run(c06)
	vc.discharge(obs, timeout=20)
	return dict(obligations=obs, outside=outside, trusted=TRUSTED,
			extraction='function bodies are taken from the AST of the current '
			'sources on every run; docstrings and annotations are dropped, '
			'nothing else')
