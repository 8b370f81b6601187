"""C16: yield functions compose spans exactly; encodings round-trip."""
from pv import vc, pyrun
from contracts import c16

LEVEL = 'proof'
EXT = ('bit', )
BUDGET = 20
TECHNIQUE = ('contract-based deductive verification of composition '
	'(gen.compose) and of the encodings of yield functions (yfarray, '
	'arraytoyf, getyf) with ghost functions for positions, loop invariants '
	'and inductively proved lemmas on binary representations; bounded '
	'run-time contracts for the other encodings; failing obligations are '
	'searched for an input on the real code')
LEVEL_NOTE = ('Proved for all inputs: gen.compose (every component is the '
	'concatenation of the spans that the yield function names, in order), '
	'gen.yfarray and gen.arraytoyf (bits of the vectors are the arguments), '
	'treetransforms.getyf (run-length encoding of which node has which '
	'terminal). The string encoding in grammar files and grammar extraction '
	'(grammar.py) are covered by the bounded run-time contracts only. '
	'plcfrs.concat (the test in the parser) is not covered. '
	'Partial correctness.')
ASSUMPTIONS = [
	'at most sixteen components of at most 32 arguments each (the documented '
	'size of the arrays); larger ones must be rejected',
	'compose: as many spans as the yield function uses; the two lists of '
	'spans are different objects and not one of the spans',
	'array.array has elements of 32 (I) and 16 (H) bits',
	'bit sets are non-negative', 'termination is not proved',
	]
TRUSTED = [
	'pv/pyexec.py, pv/pylib.py (symbolic execution of Python AST; semantics '
	'of list, sum, range and other built-in operations, array.array)',
	'pv/intbits.py: definitions of the bit functions (lemmas are proved)',
	'the CPython ast module (front end)', 'z3 / cvc5',
	]


def deductive(tier, scratch):
	obs, outside = pyrun.run(c16)
	vc.discharge(obs, timeout=20)
	return dict(obligations=obs, outside=outside, trusted=TRUSTED,
			extraction='function bodies are taken from the AST of the current '
			'sources on every run; docstrings and annotations are dropped, '
			'nothing else')
