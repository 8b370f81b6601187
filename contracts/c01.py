"""C01: contracts on the bit vector functions (bit.pxd, bit.pyx).

A word or an array of words denotes the set of positions of its one bits;
``word(v, i)`` / ``member(mem, p)`` are the membership predicates, and every
postcondition is stated with them (for an arbitrary position j, so that the
claim is for all positions)."""
import os
import z3
from pv.cyexec import Contract, CV
from pv.vc import Unsupported

W = 64


def word(v, i):
	"""Is position i (a bit-vector of any width) in the set denoted by v?"""
	n = v.size()
	k = i.size()
	if k < n:
		i = z3.ZeroExt(n - k, i)
	elif k > n:
		i = z3.Extract(n - 1, 0, i)
	return z3.Extract(0, 0, z3.LShR(v, i)) == 1


def member(mem, p):
	"""Is position p (32 bits) in the set denoted by an array of words?"""
	return word(z3.Select(mem, z3.LShR(p, 6)), p & 63)


def bv(n, w=32):
	return z3.BitVecVal(n, w)


j = z3.BitVec('j?position', 32)
j6 = z3.BitVec('j?position6', 8)
s_ = z3.BitVec('s?slot', 32)
MAXSLOTS = 1 << 24
pc = z3.Function('popcount', z3.BitVecSort(64), z3.BitVecSort(32))


# ---- intrinsics: contracts proved for the real header by CBMC --------------
def i_ctz(ex, vals, st, node):
	v = ex.convert(vals[0], 64, False)
	ex.oblige(st, 'precondition of bit_ctz: argument not zero',
			v.term != 0, node)
	r = ex.sym('ctz', 32, False)
	r64 = z3.ZeroExt(32, r.term)
	facts = [z3.ULT(r.term, 64), word(v.term, r.term),
			v.term & ((bv(1, 64) << r64) - 1) == 0]
	ex.assume(st, facts)
	return r


def i_clz(ex, vals, st, node):
	v = ex.convert(vals[0], 64, False)
	ex.oblige(st, 'precondition of bit_clz: argument not zero',
			v.term != 0, node)
	r = ex.sym('clz', 32, False)
	top = 63 - r.term
	facts = [z3.ULT(r.term, 64), word(v.term, top),
			z3.LShR(z3.LShR(v.term, z3.ZeroExt(32, top)), 1) == 0]
	ex.assume(st, facts)
	return r


def i_popcount(ex, vals, st, node):
	v = ex.convert(vals[0], 64, False)
	ex.assume(st, [z3.ULE(pc(v.term), 64)])
	return CV(pc(v.term), 32, False)


INTRINSICS = dict(bit_ctz=i_ctz, bit_clz=i_clz, bit_popcount=i_popcount)


# ---- single words -----------------------------------------------------------
def post_testbit(e):
	return [('nonzero iff pos is a member',
			(e.result != 0) == word(e['vec'], e['pos']))]


def post_nextset(e):
	r, vec, pos = e.result, e['vec'], e['pos']
	inside = z3.And(z3.ULT(j, 64), z3.UGE(j, pos), word(vec, j))
	return [('-1 only if no member >= pos',
				z3.Implies(r == -1, z3.Not(inside))),
			('otherwise a member >= pos', z3.Implies(r != -1, z3.And(
				z3.UGE(r, pos), z3.ULT(r, 64), word(vec, r)))),
			('and no smaller member >= pos', z3.Implies(
				z3.And(r != -1, inside), z3.UGE(j, r)))]


def post_nextunset(e):
	r, vec, pos = e.result, e['vec'], e['pos']
	return [('at least pos', z3.UGE(r, pos)),
			('at most 64', z3.ULE(r, 64)),
			('not a member', z3.Implies(z3.ULT(r, 64), z3.Not(word(vec, r)))),
			('everything between is a member', z3.Implies(z3.And(
				z3.UGE(j, pos), z3.ULT(j, r)), word(vec, j)))]


def post_bitlength(e):
	r, vec = e.result, e['vec']
	return [('zero iff empty', (r == 0) == (vec == 0)),
			('largest member is result - 1', z3.Implies(vec != 0, z3.And(
				z3.UGE(r, 1), z3.ULE(r, 64), word(vec, r - 1)))),
			('no member >= result', z3.Implies(z3.And(z3.ULT(j, 64),
				z3.UGE(j, r)), z3.Not(word(vec, j))))]


# ---- arrays -----------------------------------------------------------------
def pre_slots(e):
	return [('slots positive', z3.And(e['slots'] >= 1,
			e['slots'] <= MAXSLOTS))]


def size(e):
	return e['slots']


# cardinality of an array: sum of the cardinalities of its words
card = z3.Function('card', z3.ArraySort(z3.BitVecSort(32), z3.BitVecSort(64)),
		z3.BitVecSort(32), z3.BitVecSort(32))


def card_axioms(e):
	m, i = e.mem('vec'), z3.BitVec('i!card', 32)
	return [card(m, bv(0)) == 0,
			z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < MAXSLOTS),
				card(m, i + 1) == card(m, i) + pc(z3.Select(m, i))),
				patterns=[card(m, i + 1)]),
			z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < MAXSLOTS),
				card(m, i + 1) == card(m, i) + pc(z3.Select(m, i))),
				patterns=[z3.MultiPattern(card(m, i), z3.Select(m, i))])]


def inv_abitcount(e):
	a = e.next('a')
	return [('partial sum', e['result'] == card(e.mem('vec'), a)),
			('bounded', z3.And(e['result'] >= 0, e['result'] <= 64 * a)),
			('slot', z3.And(a >= 0, a <= e['slots']))]


def post_abitcount(e):
	return [('cardinality of the array', e.result == card(e.mem('vec'),
			e['slots']))]


def inarr(e, p, name='vec'):
	return z3.And(z3.ULT(p, 64 * e['slots']), member(e.mem(name), p))


def zerosabove(e, name, lo, hi):
	q = z3.BitVec('q!', 32)
	return z3.ForAll([q], z3.Implies(z3.And(q > lo, q < hi),
			z3.Select(e.mem(name), q) == 0),
			patterns=[z3.Select(e.mem(name), q)])


def inv_abitlength(e):
	return [('slot in range', z3.And(e['a'] >= 0, e['a'] < e['slots'])),
			('words above are zero', zerosabove(e, 'vec', e['a'], e['slots']))]


def post_abitlength(e):
	r = e.result
	return [('no member >= result', z3.Implies(z3.And(inarr(e, j),
				z3.ULT(j, 64 * e['slots'])), z3.ULT(j, r))),
			('result - 1 is a member', z3.Implies(r != 0, inarr(e, r - 1))),
			('nonnegative', r >= 0)]


def inv_anextset(e):
	a, pos = e['a'], e['pos']
	first = z3.LShR(pos, 6)
	masked = z3.Select(e.mem('vec'), first) & (
			z3.BitVecVal(-1, 64) << z3.ZeroExt(32, pos & 63))
	return [('slot in range', z3.And(a >= 0, a < e['slots'], a >= first,
				first >= 0)),
			('current word', e['x'] == z3.If(a == first, masked,
				z3.Select(e.mem('vec'), a))),
			('first word masked', z3.Implies(a > first, masked == 0)),
			('words between are zero', zerosabove(e, 'vec', first, a))]


def post_anextset(e):
	r, pos = e.result, e['pos']
	cand = z3.And(z3.ULT(j, 64 * e['slots']), z3.UGE(j, pos), inarr(e, j))
	return [('-1 only if no member >= pos',
				z3.Implies(r == -1, z3.Not(cand))),
			('otherwise a member >= pos', z3.Implies(r != -1, z3.And(
				r >= 0, z3.UGE(r, pos), inarr(e, r)))),
			('and no smaller member', z3.Implies(z3.And(r != -1, cand),
				z3.UGE(j, r)))]


def onesbetween(e, name, lo, hi):
	q = z3.BitVec('q!', 32)
	return z3.ForAll([q], z3.Implies(z3.And(q > lo, q < hi),
			z3.Select(e.mem(name), q) == z3.BitVecVal(-1, 64)),
			patterns=[z3.Select(e.mem(name), q)])


def inv_anextunset(e):
	a, pos = e['a'], e['pos']
	first = z3.LShR(pos, 6)
	filled = z3.Select(e.mem('vec'), first) | (
			(bv(1, 64) << z3.ZeroExt(32, pos & 63)) - 1)
	return [('slot in range', z3.And(a >= 0, a < e['slots'], a >= first,
				first >= 0)),
			('current word', e['x'] == z3.If(a == first, filled,
				z3.Select(e.mem('vec'), a))),
			('first word filled', z3.Implies(a > first, filled == -1)),
			('words between are full', onesbetween(e, 'vec', first, a))]


def post_anextunset(e):
	r, pos, slots = e.result, e['pos'], e['slots']
	return [('at least pos, when pos is inside', z3.Implies(
				z3.ULT(pos, 64 * slots), z3.And(z3.UGE(r, pos),
					z3.ULE(r, 64 * slots)))),
			('not a member', z3.Implies(z3.ULT(r, 64 * slots),
				z3.Not(inarr(e, r)))),
			('pos outside of the array gives a position outside of it',
				z3.Implies(z3.UGE(pos, 64 * slots),
				z3.UGE(r, 64 * slots))),
			('everything between is a member', z3.Implies(z3.And(
				z3.ULT(pos, 64 * slots), z3.UGE(j, pos), z3.ULT(j, r)),
				inarr(e, j)))]


def remaining(e, p, neg=False, old=False):
	"""The set that an iteration state (vec, cur, idx) still has to give."""
	at = e.oldat if old else e.at
	idx, cur = at('idx', bv(0)), at('cur', bv(0))
	mem = e.oldmem('vec')
	slot = z3.LShR(p, 6)
	inlater = member(mem, p)
	if neg:
		inlater = z3.Not(inlater)
	return z3.And(z3.ULT(p, 64 * e['slots']), z3.Or(
			z3.And(slot == idx, word(cur, p & 63)),
			z3.And(slot > idx, inlater)))


def pre_iterate(e):
	return pre_slots(e) + [('idx in range', z3.And(
			e.at('idx', bv(0)) >= 0, e.at('idx', bv(0)) < e['slots']))]


def inv_iterate(neg):
	def inv(e):
		q = z3.BitVec('q!', 32)
		idx, cur = e.at('idx', bv(0)), e.at('cur', bv(0))
		idx0, cur0 = e.oldat('idx', bv(0)), e.oldat('cur', bv(0))
		vec = e.mem('vec')
		val = ((lambda x: ~x) if neg else (lambda x: x))
		return [('idx in range', z3.And(idx >= idx0, idx < e['slots'])),
				('current word', z3.If(idx == idx0, cur == cur0, z3.And(
					cur0 == 0, cur == val(z3.Select(vec, idx))))),
				('vec unchanged', vec == e.oldmem('vec')),
				('words between are done', z3.ForAll([q], z3.Implies(
					z3.And(q > idx0, q < idx),
					val(z3.Select(vec, q)) == 0),
					patterns=[z3.Select(vec, q)]))]
	return inv


def post_iterate(neg):
	def post(e):
		r = e.result
		return [('-1 only if nothing remains', z3.Implies(r == -1,
					z3.Not(remaining(e, j, neg, True)))),
				('otherwise an element that remains', z3.Implies(r != -1,
					z3.And(r >= 0, remaining(e, r, neg, True)))),
				('the smallest one', z3.Implies(z3.And(r != -1,
					remaining(e, j, neg, True)), z3.UGE(j, r))),
				('exactly that element is removed from what remains',
					z3.Implies(r != -1, remaining(e, j, neg) == z3.And(
						j != r, remaining(e, j, neg, True)))),
				('idx stays in range', z3.Implies(r != -1, z3.And(
					e.at('idx', bv(0)) >= 0,
					e.at('idx', bv(0)) < e['slots'])))]
	return post


def setop(op, srcs):
	def inv(e):
		q, a = z3.BitVec('q!', 32), e.next('a')
		return [('slot', z3.And(a >= 0, a <= e['slots'])),
				('words done so far', z3.ForAll([q], z3.Implies(
					z3.And(q >= 0, q < a), e.at('dest', q) == op(*[
						e.oldat(x, q) for x in srcs])),
					patterns=[z3.Select(e.mem('dest'), q)])),
				('other words unchanged', z3.ForAll([q], z3.Implies(
					z3.Or(q < 0, q >= a),
					e.at('dest', q) == e.oldat('dest', q)),
					patterns=[z3.Select(e.mem('dest'), q)]))]

	def post(e):
		return [('membership in the result', z3.Implies(
					z3.ULT(j, 64 * e['slots']),
					member(e.mem('dest'), j) == op2(op)(*[
						member(e.oldmem(x), j) for x in srcs]))),
				('words outside of slots unchanged', z3.Implies(
					z3.Or(s_ < 0, s_ >= e['slots']),
					e.at('dest', s_) == e.oldat('dest', s_)))]
	return inv, post


def op2(op):
	return z3.And if op is AND else z3.Or


def AND(a, b):
	return a & b


def OR(a, b):
	return a | b


def inv_subset(e):
	q, a = z3.BitVec('q!', 32), e.next('a')
	return [('slot', z3.And(a >= 0, a <= e['slots'])),
			('words so far are subsets', z3.ForAll([q], z3.Implies(
				z3.And(q >= 0, q < a), z3.Select(e.mem('vec1'), q)
					& ~z3.Select(e.mem('vec2'), q) == 0),
				patterns=[z3.Select(e.mem('vec1'), q)]))]


def pre_subset(e):
	return pre_slots(e)


def post_subset(e):
	# the false answer needs a witness: the word at which the loop stopped
	q = z3.BitVec('q!', 32)
	return [('true only if every member is shared', z3.Implies(z3.And(
				e.result != 0, z3.ULT(j, 64 * e['slots']),
				member(e.mem('vec1'), j)), member(e.mem('vec2'), j))),
			('false only if some member is not shared', z3.Implies(
				e.result == 0, z3.Exists([q], z3.And(q >= 0,
				q < e['slots'], z3.Select(e.mem('vec1'), q)
				& ~z3.Select(e.mem('vec2'), q) != 0))))]


P = {'slots': size}
i_and, p_and = setop(AND, ('dest', 'src'))
i_or, p_or = setop(OR, ('dest', 'src'))
i_and2, p_and2 = setop(AND, ('src1', 'src2'))
i_or2, p_or2 = setop(OR, ('src1', 'src2'))
pre_pos = lambda e: [('pos < 64', z3.ULT(e['pos'], 64))]
ALIAS2 = {'disjoint': {}, 'dest==src': {'src': 'dest'}}
ALIAS3 = {'disjoint': {}, 'dest==src1': {'src1': 'dest'},
		'dest==src2': {'src2': 'dest'},
		'all the same': {'src1': 'dest', 'src2': 'dest'}}
FUSED = {'uint8_t': 8, 'uint16_t': 16, 'uint32_t': 32, 'uint64_t': 64}

PXD = {
	'testbit': Contract(params=('vec', 'pos'),
		pre=lambda e: [('pos < width', z3.ULT(e['pos'], e['vec'].size()))],
		post=post_testbit, fused='unsigned_fused', variants=list(FUSED)),
	'nextset': Contract(params=('vec', 'pos'), pre=pre_pos,
		post=post_nextset),
	'nextunset': Contract(params=('vec', 'pos'), pre=pre_pos,
		post=post_nextunset),
	'bitlength': Contract(params=('vec', ), post=post_bitlength),
	'abitcount': Contract(params=('vec', 'slots'), sizes={'vec': size},
		pre=pre_slots, invs=[inv_abitcount], post=post_abitcount,
		lemmas=card_axioms, locals=('a', 'result')),
	'abitlength': Contract(params=('vec', 'slots'), sizes={'vec': size},
		pre=pre_slots, invs=[inv_abitlength], post=post_abitlength,
		locals=('a', )),
	'anextset': Contract(params=('vec', 'pos', 'slots'),
		sizes={'vec': size}, pre=pre_slots, invs=[inv_anextset],
		post=post_anextset, locals=('a', 'x')),
	'anextunset': Contract(params=('vec', 'pos', 'slots'),
		sizes={'vec': size}, pre=pre_slots, invs=[inv_anextunset],
		post=post_anextunset, locals=('a', 'x')),
	'iteratesetbits': Contract(params=('vec', 'slots', 'cur', 'idx'),
		sizes={'vec': size}, pre=pre_iterate, invs=[inv_iterate(False)],
		post=post_iterate(False), writes=('cur', 'idx'), locals=('tmp', )),
	'iterateunsetbits': Contract(params=('vec', 'slots', 'cur', 'idx'),
		sizes={'vec': size}, pre=pre_iterate, invs=[inv_iterate(True)],
		post=post_iterate(True), writes=('cur', 'idx'), locals=('tmp', )),
	'setintersectinplace': Contract(params=('dest', 'src', 'slots'),
		sizes={'dest': size, 'src': size}, pre=pre_slots, invs=[i_and],
		post=p_and, writes=('dest', ), locals=('a', ),
		variants=list(ALIAS2), alias=ALIAS2),
	'setunioninplace': Contract(params=('dest', 'src', 'slots'),
		sizes={'dest': size, 'src': size}, pre=pre_slots, invs=[i_or],
		post=p_or, writes=('dest', ), locals=('a', ),
		variants=list(ALIAS2), alias=ALIAS2),
	'setintersect': Contract(params=('dest', 'src1', 'src2', 'slots'),
		sizes={'dest': size, 'src1': size, 'src2': size}, pre=pre_slots,
		invs=[i_and2], post=p_and2, writes=('dest', ), locals=('a', ),
		variants=list(ALIAS3), alias=ALIAS3),
	'setunion': Contract(params=('dest', 'src1', 'src2', 'slots'),
		sizes={'dest': size, 'src1': size, 'src2': size}, pre=pre_slots,
		invs=[i_or2], post=p_or2, writes=('dest', ), locals=('a', ),
		variants=list(ALIAS3), alias=ALIAS3),
	'subset': Contract(params=('vec1', 'vec2', 'slots'),
		sizes={'vec1': size, 'vec2': size}, pre=pre_slots,
		invs=[inv_subset], post=post_subset, locals=('a', )),
}


# ---- bit.pyx: Python integers -----------------------------------------------
from pv import intbits as ib


def int_ctz(ex, vals, st, node):
	v = vals[0] if vals[0].width is not None else ex.convert(
			vals[0], 64, False, st, 'argument of bit_ctz')
	ex.oblige(st, 'precondition of bit_ctz: argument not zero',
			v.term > 0, node)
	r = CV(ib.tz(v.term), 32, False)
	ex.assume(st, [r.term >= 0, r.term < 64])  # postcondition of bit_ctz
	return r


def int_popcount(ex, vals, st, node):
	v = ex.convert(vals[0], 64, False, st, 'argument of bit_popcount')
	ex.assume(st, [ib.card(v.term) <= 64])
	return CV(ib.card(v.term), 32, False)


INTINTRINSICS = dict(bit_ctz=int_ctz, bit_popcount=int_popcount)


def inv_pyintbitcount(e):
	return [('non-negative', e['a'] >= 0),
			('members removed so far', z3.And(e['count'] >= 0,
				e['count'] + ib.card(e['a']) == ib.card(e.oldvar('a'))))]


def post_pyintbitcount(e):
	return [('cardinality', e.result == ib.card(e.oldvar('a')))]


def pre_pyintnextset(e):
	a, pos = e['a'], e['pos']
	return [('non-negative', z3.And(a >= 0, pos >= 0)),
			('result fits in int', z3.Implies(ib.shr(a, pos) > 0,
				pos + ib.tz(ib.shr(a, pos)) < 2 ** 31))]


def inv_pyintnextset(e):
	x = e.oldvar
	s0 = ib.shr(x('a'), x('pos'))
	return [('still some member', e['a'] > 0),
			('distance', e['pos'] - x('pos') >= 0),
			('least member', e['pos'] + ib.tz(e['a'])
				== x('pos') + ib.tz(s0)),
			('original has a member', s0 > 0)]


def post_pyintnextset(e):
	a, pos, r = e.oldvar('a'), e.oldvar('pos'), e.result
	i = z3.Int('i?position')
	s0 = ib.shr(a, pos)
	return [('-1 iff no member >= pos', (r == -1) == (s0 == 0)),
			('pos plus least member of what is left after shifting',
				z3.Implies(r != -1, r == pos + ib.tz(s0)))]


def pre_fanout(e):
	return [('non-negative', e['arg'] >= 0), ('fewer than 2**31 components',
			ib.blocks(e['arg']) < 2 ** 31)]


def inv_fanout1(e):
	return [('components removed so far', z3.And(e['result'] >= 0,
				e['vec'] >= 0, e['vec'] < 2 ** 63, e['result']
				+ ib.blocks(e['vec']) == ib.blocks(e.oldvar('arg'))))]


def inv_fanout2(e):
	return [('components removed so far', z3.And(e['result'] >= 0,
				e['arg'] >= 0, e['prev'] == e['arg'], e['result']
				+ ib.blocks(e['arg']) == ib.blocks(e.oldvar('arg'))))]


def post_fanout(e):
	return [('number of contiguous components',
			e.result == ib.blocks(e.oldvar('arg')))]


def bitaxioms(e):
	return ib.axioms()


PYX = {
	'pyintbitcount': Contract(mode='int', params=('a', ),
		pre=lambda e: [('non-negative', e['a'] >= 0)],
		invs=[inv_pyintbitcount], post=post_pyintbitcount,
		locals=('count', ), lemmas=bitaxioms),
	'bitcount': Contract(mode='int', params=('vec', ),
		post=lambda e: [('cardinality', e.result == ib.card(e['vec']))],
		lemmas=bitaxioms),
	'pyintnextset': Contract(mode='int', params=('a', 'pos'),
		pre=pre_pyintnextset, invs=[inv_pyintnextset],
		post=post_pyintnextset, locals=('mask', ), lemmas=bitaxioms),
	'fanout': Contract(mode='int', params=('arg', ), pre=pre_fanout,
		invs=[inv_fanout1, inv_fanout2], post=post_fanout,
		locals=('result', 'vec', 'prev'), lemmas=bitaxioms),
}
