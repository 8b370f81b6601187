"""C14: heads of phrases and dependencies."""
from pv import vc, pyrun
from contracts import c14, c14b, c14c

LEVEL = 'proof'
EXT = ('bit', )
BUDGET = 20
TECHNIQUE = ('contract-based deductive verification of head finding (choice '
	'of the child, according to direction and priority of the rules), of '
	'applying head rules (frame: one child of each phrase), and of the '
	'extraction of dependencies (recursion through its own contract; ghost '
	'functions for words, lexical heads and depth); obligations generated '
	'from the current AST, discharged by z3/cvc5; failing obligations are '
	'searched for an input on the real code')
LEVEL_NOTE = ('Proved for all trees and rules: headfinder, its find and '
	'invfind, applyheadrules, markmodifiers, getheadpos, _makedep and '
	'dependencies. Reading rule files, writing dependencies (CoNLL, MST), '
	'saveheads and headstats are covered by the bounded run-time contracts '
	'only. Partial correctness: termination of the recursion is not proved.')
ASSUMPTIONS = [
	'children of phrases are nodes, of preterminals a word index; a node '
	'occurs once in the tree; words occur once',
	'before head rules are applied, at most one child of a node is marked '
	'(otherwise those marks remain, and none is added)',
	'dependencies: each phrase below the root has a child marked as head',
	'rules have a direction which starts with LEFT or RIGHT, and strings as '
	'heads; sources of nodes are None or lists of five or more strings',
	'ispunct and the operations on strings (split, upper, startswith) are '
	'functions of their arguments',
	'termination is not proved',
	]
TRUSTED = [
	'pv/pyexec.py, pv/pylib.py (symbolic execution of Python AST; semantics '
	'of list, next, slices, string and other built-in operations)',
	'contract of Tree.subtrees (proved in C03)',
	'sorted() of tuples which start with different integers',
	'the CPython ast module (front end)', 'z3 / cvc5',
	]


def deductive(tier, scratch):
	obs, outside = [], []
	for mod in (c14, c14b, c14c):
		a, b = pyrun.run(mod)
		obs.extend(a)
		outside.extend(b)
	vc.discharge(obs, timeout=20)
	return dict(obligations=obs, outside=outside, trusted=TRUSTED,
			extraction='function bodies are taken from the AST of the current '
			'sources on every run; docstrings and annotations are dropped, '
			'nothing else')
