"""C15: evaluation measures."""
from pv import vc, pyrun
from contracts import c15

LEVEL = 'proof'
EXT = ('bit', )
BUDGET = 30
TECHNIQUE = ('contract-based deductive verification of the measures of '
	'eval.py (recall, precision, f_measure, accuracy, mean, harmean), of '
	'editdistance (loop invariants against the recurrence), of intervals, '
	'bracketings and parentedbracketings, with lemmas over these contracts '
	'(bounds, perfect if and only if equal, exchange, order); obligations '
	'generated from the current AST, discharged by z3/cvc5; failing '
	'obligations, and the parameters and accumulators, are checked with '
	'run-time contracts on generated inputs on the real code')
LEVEL_NOTE = ('Proved for all multisets, sequences and trees: the functions '
	'named above. The treatment of evaluation parameters (transform, '
	'readparam, transitiveclosure, alignsent), TreePairResult, '
	'EvalAccumulator, leafancestor and strbracketings are covered by the '
	'bounded run-time contracts only.')
ASSUMPTIONS = [
	'Decimal numbers are real numbers: rounding to 28 digits is ignored',
	'counts of a Counter are positive, its total does not depend on the '
	'order in which it is enumerated',
	'bitset of a node, its subtrees and its discontinuity are those of '
	'C03 and C05',
	'containers.pyx, which the build does not compile, is replaced at run '
	'time by a module with the one regular expression that lexicon.py imports '
	'from it',
	]
TRUSTED = [
	'pv/pyexec.py, pv/pylib.py (symbolic execution of Python AST; semantics '
	'of list, dict, comprehensions)',
	'collections.Counter: intersection takes the minimum of each count, '
	'missing elements count 0',
	'Tree.subtrees(f) yields the nodes for which f is true (C03)',
	'the CPython ast module (front end)', 'z3 / cvc5',
	]


def deductive(tier, scratch):
	obs, outside = pyrun.run(c15)
	vc.discharge(obs, timeout=20)
	return dict(obligations=obs, outside=outside, trusted=TRUSTED,
			extraction='function bodies are taken from the AST of the current '
			'sources on every run; docstrings and annotations are dropped, '
			'nothing else')
