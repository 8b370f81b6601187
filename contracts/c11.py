"""Contracts of merging weighted entries (C11)."""
import z3
from pv import vc, pyexec as X, pylib
from pv.pyexec import (V, Int, Bool, SInt, SDyn, SRef, SNone, STup, SStr, SBool,
		SReal, SCallback, Case, Contract, LoopSpec, Engine, fresh, toV)
from pv.vc import Obligation

GRAMMAR = 'discodop/grammar.py'
ALLOCS = ['lget', 'llen']
Real = z3.RealSort()
# a line is split into an entry and a weight (rsplit, or the expression RULERE)
ENTRY = z3.Function('entry', V, V)
WEIGHT = z3.Function('weight', V, Real)
FIRST = z3.Function('weightfirst', V, Bool)  # weight precedes the entry
# block of lines with the same entry: number, first line, sum of weights so far
BLK = z3.Function('entrynumber', Int, Int)
START = z3.Function('firstline', Int, Int)
SUM = z3.Function('sumsofar', Int, Real)
FMT = z3.Function('format', X.Str, V, X.Str)
GROUP = z3.Function('group', V, X.Str, V)
MATCH = z3.Function('matchof', V, V)
CONVERT = z3.Function('convertweight', V, Real)
PARTS = z3.Function('rsplit', V, z3.ArraySort(Int, V))


class Lines(object):
	"""Sorted lines; the same entries are adjacent."""
	def __init__(self, get, n, files):
		self.get, self.n, self.files = get, n, files

	def brk(self, i):
		return z3.Or(i == 0, ENTRY(self.get(i)) != ENTRY(self.get(i - 1)))

	def end(self, i, n):
		"""Line i is the last of its entry."""
		return z3.Or(i == n - 1, ENTRY(self.get(i + 1)) != ENTRY(self.get(i)))

	def define(self, i):
		b = self.brk(i)
		w = WEIGHT(self.get(i))
		return z3.Implies(z3.And(0 <= i, i < self.n), z3.And(START(i) == z3.If(
				b, i, START(i - 1)), BLK(i) == z3.If(i == 0, z3.IntVal(0),
				z3.If(b, BLK(i - 1) + 1, BLK(i - 1))), SUM(i) == z3.If(b, w,
				SUM(i - 1) + w)))

	def text(self, i):
		"""The output for the entry that ends at line i."""
		key, w = ENTRY(self.get(i)), V.vreal(SUM(i) / z3.ToReal(self.files))
		return V.vstr(z3.If(FIRST(self.get(START(i))), FMT(X.strlit(
				'%g\t%s\n'), pair(w, key)), FMT(X.strlit('%s\t%g\n'),
				pair(key, w))))


def pair(a, b):
	return toV(STup([SDyn(a), SDyn(b)]))


def produced(S, k):
	"""One output for every entry that ends before line k (or is followed
	by line k with another entry)."""
	ln = S.st.ghost['lines']
	h, out = S.h, S.st.out
	i = z3.Int('i')
	done = lambda i: z3.And(0 <= i, i < k - 1, ln.brk(i + 1))
	return [('entries so far', X.forall([i], z3.Implies(done(i), z3.And(
			0 <= BLK(i), BLK(i) < h['llen'][out], h['lget'][out][BLK(i)]
			== ln.text(i))), patterns=[BLK(i)]))]


def suminv(S):
	ln = S.st.ghost['lines']
	k = S.i
	h, out = S.h, S.st.out
	S.st.assume(ln.define(k), ln.define(k - 1))
	i = z3.Int('i')
	prev = toV(S['prev'])
	w1 = S['w1'].e
	return [('previous entry', prev == z3.If(k == 0, V.none, ENTRY(ln.get(
			k - 1)))), ('sum so far', z3.If(k > 0, w1 == SUM(k - 1), w1 == 0)),
		('number of entries', h['llen'][out] == z3.If(k == 0, z3.IntVal(0),
			BLK(k - 1))),
		('line belongs to an entry', z3.Implies(k > 0, z3.And(0 <= START(
			k - 1), START(k - 1) < k, BLK(k - 1) >= 0))),
		] + produced(S, k)


def sumrulesinv(S):
	ln = S.st.ghost['lines']
	k = S.i
	return suminv(S) + [('format of previous entry', z3.Implies(k > 0,
			S['prevbitpar'].e == FIRST(ln.get(START(k - 1)))))]


def sumpost(P):
	ln = P.st.ghost['lines']
	h, out = P.h, P.st.out
	i = z3.Int('i')
	return [('one output for each entry', h['llen'][out] == z3.If(ln.n == 0,
			z3.IntVal(0), BLK(ln.n - 1) + 1)),
		('entry with the sum of its weights', X.forall([i], z3.Implies(z3.And(
			0 <= i, i < ln.n, ln.end(i, ln.n)), z3.And(0 <= BLK(i), BLK(i)
			< h['llen'][out], h['lget'][out][BLK(i)] == ln.text(i))),
			patterns=[BLK(i)]))]


def mklines(eng, st):
	files, n = z3.Ints('files nlines')
	arr = z3.Const('lines', z3.ArraySort(Int, V))
	i = z3.Int('i')
	get = lambda i: arr[i]
	st.assume(n >= 0, files > 0, X.forall([i], z3.Implies(z3.And(0 <= i,
			i < n), z3.And(V.is_vstr(get(i)), V.is_vstr(ENTRY(get(i))))),
			patterns=[get(i)]))
	ln = st.ghost['lines'] = Lines(get, n, files)
	q = X.SSeq(n, lambda i: SStr(V.s(arr[i])))
	return ln, [q, SInt(files)]


def lemmas():
	"""Entries with different numbers are different lines of output."""
	get = z3.Const('lines!', z3.ArraySort(Int, V))
	n = z3.Int('n')
	ln = Lines(lambda i: get[i], n, z3.Int('files'))
	i, j = z3.Ints('i j')
	mono = lambda i, j: z3.Implies(z3.And(0 <= i, i <= j, j < n), z3.And(
			0 <= BLK(i), BLK(i) <= BLK(j), z3.Implies(BLK(i) == BLK(j),
			ENTRY(get[i]) == ENTRY(get[j]))))
	return [Obligation('lemma', 'numbers of entries increase', [ln.define(j),
			ln.define(i), z3.Implies(j > i, mono(i, j - 1)), z3.Implies(i > 0,
			mono(i - 1, i - 1))], mono(i, j))]


# --- models of strings -----------------------------------------------------------
def use_rsplit(eng, st, recv, args, kwargs):
	"""line.rsplit('\\t', 1): entry and weight of a well-formed line."""
	if not (len(args) == 2 and isinstance(args[0], SStr) and args[0].e.eq(
			X.strlit('\t')) and isinstance(args[1], SInt)
			and z3.simplify(args[1].e).eq(z3.IntVal(1))):
		raise vc.Unsupported('rsplit')
	e = toV(recv)
	w = z3.Function('weighttext', V, V)(e)
	st.assume(CONVERT(w) == WEIGHT(e))
	yield st, STup([SDyn(ENTRY(e)), SDyn(w)])


def use_match(eng, st, recv, args, kwargs):
	"""RULERE.match(line): a match of a well-formed line."""
	e = toV(args[0])
	m = MATCH(e)
	g = lambda s: GROUP(m, X.strlit(s))
	text = lambda v: z3.And(V.is_vstr(v), V.s(v) != X.strlit(''))
	st.assume(z3.Not(V.is_none(m)), V.is_vstr(e), z3.If(FIRST(e), z3.And(
			V.is_none(g('RULE1')), text(g('RULE2')), text(g('FREQ2')),
			V.is_none(g('WEIGHT1')), ENTRY(e) == g('RULE2'),
			CONVERT(g('FREQ2')) == WEIGHT(e)), z3.And(V.is_none(g('RULE2')),
			V.is_none(g('FREQ2')), text(g('RULE1')), text(g('WEIGHT1')),
			ENTRY(e) == g('RULE1'), CONVERT(g('WEIGHT1')) == WEIGHT(e))))
	yield st, SDyn(m)


def use_group(eng, st, recv, args, kwargs):
	yield st, SDyn(GROUP(recv.e, toV(args[0]) if not isinstance(args[0],
			SStr) else args[0].e))


def use_convertweight(eng, st, args, kwargs):
	yield st, SReal(CONVERT(toV(args[0])))


def c_sumfrags():
	def setup(eng, st):
		ln, args = mklines(eng, st)
		i = z3.Int('i')
		st.assume(X.forall([i], z3.Not(FIRST(ln.get(i))), patterns=[FIRST(
				ln.get(i))]))
		return args, {}
	return Contract('%s:sumfrags' % GRAMMAR, [Case('', setup, sumpost,
			generator=True)])


def c_sumrules():
	def setup(eng, st):
		return mklines(eng, st)[1], {}
	return Contract('%s:sumrules' % GRAMMAR, [Case('', setup, sumpost,
			generator=True)])


KINDS = dict(line='undef', frag='undef', w2='undef', match='undef',
	rule='undef', prev='dyn')
LOOPS = {
	('sumfrags', 0): LoopSpec(suminv, modifies=ALLOCS, kinds=KINDS),
	('sumrules', 0): LoopSpec(sumrulesinv, modifies=ALLOCS, kinds=KINDS),
	}


def mk(name):
	return Engine(classes={}, attrs={}, loops=LOOPS, refeq='identity',
			callees={'SPure.rsplit': use_rsplit, 'SStr.rsplit': use_rsplit,
			'convertweight': use_convertweight}, names={'RULERE': SDyn(
			z3.Const('RULERE', V))}, pure={'match': use_match,
			'group': use_group, 'rsplit': use_rsplit},
			fmtvalues=lambda fmt, vals: FMT(fmt, vals))


CONTRACTS = [c_sumfrags, c_sumrules]
