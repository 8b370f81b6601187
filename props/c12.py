"""C12: the agenda is a stable priority queue with a dictionary view."""
from pv import vc, pyrun
from contracts import c12

LEVEL = 'proof'
EXT = ('bit', )
BUDGET = 20
TECHNIQUE = ('contract-based deductive verification of the methods of '
	'PyAgenda and Entry: representation invariant (heap order, correspondence '
	'of valid heap entries and mapping), abstract state (keys, priorities, '
	'order of insertion), postconditions and exceptional postconditions, loop '
	'invariants; obligations generated from the current AST, discharged by '
	'z3/cvc5; failing obligations are searched for an input on the real code')
LEVEL_NOTE = ('Proved for all agendas, keys, totally ordered values and '
	'histories (by the representation invariant): construction from pairs, '
	'update, item assignment, lookup and deletion, membership, pop, popitem, '
	'peekitem, clear, len, bool, iter, keys, values and items. heapq is used '
	'through a trusted contract. merge(), OrderedSet, __repr__ and sequences '
	'of operations are covered by the bounded run-time contracts only (not '
	'counted as proved). Partial correctness.')
ASSUMPTIONS = [
	'values are totally ordered by < (in particular no NaN)',
	'keys that are equal are identified',
	'heapq.heappush, heappop and heapify have the documented effect (a heap '
	'with the element added, the first element removed, the same elements); '
	'that the first element of a heap is minimal is part of this contract',
	'update: the argument is not a view of the agenda itself',
	'no operation is interrupted by an asynchronous exception',
	'termination is not proved',
	]
TRUSTED = [
	'pv/pyexec.py, pv/pylib.py (symbolic execution of Python AST; semantics '
	'of list, dict and built-in operations)',
	'the CPython ast module (front end)', 'z3 / cvc5',
	'contracts of heapq (contracts/c12.py: heappush, heappop, heapify)',
	]


def deductive(tier, scratch):
	obs, outside = pyrun.run(c12)
	vc.discharge(obs, timeout=20)
	return dict(obligations=obs, outside=outside, trusted=TRUSTED,
			extraction='method bodies are taken from the AST of '
			'discodop/util.py on every run; docstrings and annotations are '
			'dropped, nothing else')
