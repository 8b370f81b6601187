"""C11: merging grammars and estimating weights preserves total counts."""
from pv import vc, pyrun
from contracts import c11

LEVEL = 'proof'
EXT = ('bit', )
BUDGET = 20
TECHNIQUE = ('contract-based deductive verification of the functions that sum '
	'the weights of sorted entries (ghost functions for blocks of equal '
	'entries and their sums, loop invariants); bounded run-time contracts '
	'for the DOP reductions, reading weights and merging files; failing '
	'obligations are searched for an input on the real code')
LEVEL_NOTE = ('Proved for all inputs: sumrules and sumfrags (one output for '
	'each block of equal entries, with the sum of its weights divided by the '
	'number of files, in order). sumlex, merge, convertweight, nodefreq, '
	'TreeDecorator, dopreduction and the double-DOP grammar are covered by '
	'the bounded run-time contracts only. Weights are real numbers in the '
	'proof (floating point rounding is not modelled). Partial correctness.')
ASSUMPTIONS = [
	'weights are written with six significant digits and compared as such',
	'input files of merge are sorted by the given key: equal entries are '
	'adjacent', 'proof: every line is well-formed, i.e., str.rsplit, the '
	'expression RULERE and convertweight separate it into an entry and a '
	'weight (assumed contracts on these library functions)',
	'floating point numbers are treated as real numbers',
	'termination is not proved',
	]
TRUSTED = [
	'pv/pyexec.py, pv/pylib.py (symbolic execution of Python AST; semantics '
	'of built-in operations; string formatting is a function of its '
	'arguments)', 'the CPython ast module (front end)', 'z3 / cvc5',
	]


def deductive(tier, scratch):
	obs, outside = pyrun.run(c11)
	vc.discharge(obs, timeout=20)
	return dict(obligations=obs, outside=outside, trusted=TRUSTED,
			extraction='function bodies are taken from the AST of the current '
			'sources on every run; docstrings and annotations are dropped, '
			'nothing else')
