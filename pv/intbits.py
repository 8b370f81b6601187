"""Bit-level theory of mathematical non-negative integers (Python ints).

The functions are defined by recursion on the binary representation; the
lemmas are proved here by induction: every induction step is an obligation
of its own that is sent to the solver on every run (``lemmas()``), and only
what has been stated there is handed to other obligations as an axiom
(``axioms()``)."""
import z3
from .vc import Obligation

I = z3.IntSort()
land = z3.Function('land', I, I, I)      # a & b
shr = z3.Function('shr', I, I, I)        # a >> k
shl1 = lambda a: 2 * a                   # a << 1
tz = z3.Function('tz', I, I)             # least member (argument > 0)
to = z3.Function('to', I, I)             # least non-member
card = z3.Function('card#', I, I)        # cardinality
blocks = z3.Function('blocks', I, I)     # number of contiguous components
odd = z3.Function('oddpart', I, I)       # shift out low zeros
even = z3.Function('evenpart', I, I)     # shift out low ones
M = 2 ** 64


def bit(a, i):
	"""Position i is a member of the set denoted by a."""
	return shr(a, i) % 2 == 1


def unfold_land(a, b):
	return z3.Implies(z3.And(a >= 0, b >= 0), z3.And(
			land(a, b) == z3.If(z3.Or(a == 0, b == 0), z3.IntVal(0),
				(a % 2) * z3.IntVal(0) + z3.If(z3.And(a % 2 == 1, b % 2 == 1),
					z3.IntVal(1), z3.IntVal(0)) + 2 * land(a / 2, b / 2)),
			land(a, b) >= 0))


def unfold_card(a):
	return z3.Implies(a >= 0, z3.And(card(a) >= 0, card(a) == z3.If(a == 0,
			z3.IntVal(0), a % 2 + card(a / 2))))


def unfold_blocks(a):
	"""Members i such that i + 1 is not a member."""
	return z3.Implies(a >= 0, z3.And(blocks(a) >= 0, blocks(a) == z3.If(
			a == 0, z3.IntVal(0), z3.If(z3.And(a % 2 == 1, (a / 2) % 2 == 0),
				z3.IntVal(1), z3.IntVal(0)) + blocks(a / 2))))


def unfold_tz(a):
	return z3.Implies(a > 0, z3.And(tz(a) >= 0, tz(a) == z3.If(a % 2 == 1,
			z3.IntVal(0), 1 + tz(a / 2))))


def unfold_to(a):
	return z3.Implies(a >= 0, z3.And(to(a) >= 0, to(a) == z3.If(a % 2 == 0,
			z3.IntVal(0), 1 + to(a / 2))))


def unfold_odd(a):
	return z3.Implies(a > 0, odd(a) == z3.If(a % 2 == 1, a, odd(a / 2)))


def unfold_even(a):
	return z3.Implies(a >= 0, even(a) == z3.If(a % 2 == 0, a, even(a / 2)))


def unfold_shr(a, k):
	"""k > 0"""
	return z3.And(shr(a, 0) == a, z3.Implies(z3.And(a >= 0, k > 0),
			z3.And(shr(a, k) >= 0, shr(a, k) == shr(a / 2, k - 1))))


# Each lemma: function of the induction variable(s) -> formula
def L_land_self(a):
	return z3.Implies(a >= 0, land(a, a) == a)


def L_land_zero(a):
	return z3.Implies(a >= 0, z3.And(land(0, a) == 0, land(a, 0) == 0))


def L_comm(a, b):
	return z3.Implies(z3.And(a >= 0, b >= 0), land(a, b) == land(b, a))


def L_card_step(a):
	"""a & (a - 1) removes one member (the least)."""
	x = land(a, a - 1)
	return z3.Implies(a > 0, z3.And(x >= 0, x < a, card(x) == card(a) - 1))


def L_blocks_step(a):
	"""... which is the end of a component iff its successor is not in a."""
	x = land(a, a - 1)
	return z3.Implies(a > 0, blocks(a) == blocks(x) + z3.If(
			land(2 * (a - x), a) == 0, z3.IntVal(1), z3.IntVal(0)))


def L_odd(a):
	return z3.Implies(a > 0, z3.And(odd(a) == shr(a, tz(a)), odd(a) > 0,
			odd(a) % 2 == 1, odd(a) <= a, blocks(odd(a)) == blocks(a)))


def L_even(a):
	return z3.Implies(z3.And(a > 0, a % 2 == 1), z3.And(
			even(a) == shr(a, to(a)), even(a) >= 0, even(a) < a,
			blocks(even(a)) == blocks(a) - 1))


def L_even0(a):
	return z3.Implies(a >= 0, z3.And(even(a) == shr(a, to(a)), even(a) >= 0,
			even(a) <= a, even(a) % 2 == 0))


def lemmas():
	"""Obligations: base cases and induction steps of all lemmas."""
	a, b, i = z3.Ints('a b i')
	obs = []

	def ob(name, assumptions, goal, timeout=None):
		obs.append(Obligation('lemma', name, assumptions, goal,
				timeout=timeout))
	half = a / 2
	ob('a & a == a', [unfold_land(a, a),
			z3.Implies(a > 0, L_land_self(half))], L_land_self(a))
	ob('0 & a == 0', [unfold_land(z3.IntVal(0), a),
			unfold_land(a, z3.IntVal(0))], L_land_zero(a))
	ob('a & b == b & a', [unfold_land(a, b), unfold_land(b, a),
			z3.Implies(a > 0, L_comm(half, b / 2))], L_comm(a, b))
	pre = z3.Implies(a / 2 > 0, z3.And(L_card_step(half),
			L_blocks_step(half)))
	unf = [unfold_land(a, a - 1), unfold_land(half, half - 1),
			L_land_self(half), unfold_card(a), unfold_card(land(a, a - 1)),
			unfold_blocks(a), unfold_blocks(land(a, a - 1)),
			unfold_blocks(half), unfold_card(half)]
	ob('a & (a - 1) has one member less', unf + [pre], L_card_step(a))
	x = land(a, a - 1)
	ob('components and a & (a - 1)', unf + [pre, L_card_step(half),
			unfold_land(2 * (a - x), a), unfold_land(a - x, half),
			unfold_land((a - x) / 2, half / 2),
			unfold_land(2 * (half - land(half, half - 1)), half),
			L_land_zero(half / 2),
			unfold_land(z3.IntVal(1), half), L_land_zero(half)],
			L_blocks_step(a))
	ob('shifting out zeros keeps components', [unfold_odd(a), unfold_tz(a),
			unfold_shr(a, tz(a)), unfold_blocks(a), unfold_tz(half),
			z3.Implies(half > 0, L_odd(half)), unfold_blocks(half)],
			L_odd(a))
	ob('shifting out ones (general)', [unfold_even(a), unfold_to(a),
			unfold_to(half), unfold_shr(a, to(a)),
			z3.Implies(a > 0, L_even0(half))], L_even0(a))
	ob('shifting out ones removes one component', [unfold_even(a),
			unfold_to(a), unfold_to(half), unfold_shr(a, to(a)),
			unfold_blocks(a), unfold_blocks(half), unfold_even(half),
			z3.Implies(a > 0, L_even0(half)),
			z3.Implies(half > 0, L_even(half))], L_even(a))
	# least member, per position
	ob('the least member is a member and nothing below it is', [
			unfold_tz(a), unfold_tz(half), unfold_shr(a, tz(a)),
			unfold_shr(a, i),
			z3.Implies(half > 0, L_least(half, tz(half))),
			z3.Implies(half > 0, L_least(half, i - 1))], L_least(a, i))
	# words of 64 bits: by a chain of 64 steps
	for k in range(64):
		m, m1 = 2 ** k, 2 ** (k + 1)
		ob('a & (2**%d - 1) == a %% 2**%d' % (k + 1, k + 1), [
				unfold_land(a, z3.IntVal(m1 - 1)), L_mask(half, m)],
				L_mask(a, m1))
		ob('least member of multiples of 2**%d' % (k + 1), [unfold_tz(a),
				z3.Implies(half > 0, L_tzmul(half, k))], L_tzmul(a, k + 1))
		ob('least member modulo 2**%d' % (k + 1), [unfold_tz(a),
				unfold_tz(a % m1), z3.Implies(half > 0, L_tzmod(half, k)),
				(a % m1) / 2 == half % m, (a % m1) % 2 == a % 2],
				L_tzmod(a, k + 1))
		ob('least member of the complement, %d bits' % (k + 1), [
				unfold_to(a), unfold_tz(m1 - 1 - a),
				z3.Implies(a >= 0, L_compl(half, k))], L_compl(a, k + 1))
	ob('a & 0 == 0 (mask)', [unfold_land(a, z3.IntVal(0))], L_mask(a, 1))
	ob('least member of multiples of 1', [], L_tzmul(a, 0))
	ob('least member modulo 1', [], L_tzmod(a, 0))
	ob('complement, 0 bits', [], L_compl(a, 0))
	return obs


def L_least(a, i):
	return z3.Implies(a > 0, z3.And(bit(a, tz(a)),
			z3.Implies(z3.And(i >= 0, i < tz(a)), z3.Not(bit(a, i)))))


def L_mask(a, m):
	return z3.Implies(a >= 0, land(a, z3.IntVal(m - 1)) == a % m)


def L_tzmul(a, k):
	m = 2 ** k
	return z3.Implies(z3.And(a > 0, a % m == 0), tz(a) == k + tz(a / m))


def L_tzmod(a, k):
	m = 2 ** k
	return z3.Implies(z3.And(a > 0, a % m != 0), z3.And(
			tz(a % m) == tz(a), tz(a) < k))


def L_compl(a, k):
	"""Within a word of k bits: ctz(~a) is the least non-member of a."""
	m = 2 ** k
	return z3.Implies(z3.And(a >= 0, a < m - 1),
			z3.And(tz(m - 1 - a) == to(a), to(a) < k))


def axioms():
	"""The proved lemmas, as quantified axioms for use elsewhere."""
	a, b, i = z3.Ints('a! b! i!')
	x = land(a, a - 1)
	fa = lambda vs, f, *pats: z3.ForAll(vs, f, patterns=list(pats))
	return [
			z3.ForAll([a], z3.And(L_card_step(a), L_blocks_step(a)),
				patterns=[x]),
			z3.ForAll([a], z3.And(L_card_step(a), L_blocks_step(a)),
				patterns=[land(a - 1, a)]),
			fa([a, b], L_comm(a, b), land(a, b)),
			fa([a, b], z3.Implies(z3.And(a >= 0, b >= 0),
				land(a, b) >= 0), land(a, b)),
			card(z3.IntVal(0)) == 0, blocks(z3.IntVal(0)) == 0,
			fa([a], z3.Implies(a >= 0, card(a) >= 0), card(a)),
			fa([a], z3.Implies(a >= 0, blocks(a) >= 0), blocks(a)),
			fa([a], L_odd(a), odd(a)), fa([a], L_odd(a), tz(a)),
			fa([a], z3.And(L_even0(a), L_even(a)), even(a)),
			fa([a], z3.And(L_even0(a), L_even(a)), to(a)),
			fa([a], L_mask(a, M), land(a, z3.IntVal(M - 1))),
			fa([a], z3.And(L_tzmul(a, 64), L_tzmod(a, 64), z3.Implies(a > 0,
				tz(a) >= 0)), tz(a)),
			fa([a], z3.And(L_tzmul(a, 64), L_tzmod(a, 64)),
				land(a, z3.IntVal(M - 1))),
			fa([a], L_compl(a, 64), tz(M - 1 - a)),
			fa([a], L_compl(a, 64), to(a)),
			fa([a, i], z3.Implies(z3.And(a >= 0, i >= 0), shr(a, i) >= 0),
				shr(a, i)),
			fa([a], shr(a, z3.IntVal(0)) == a, shr(a, z3.IntVal(0))),
			]


# --- shifting, powers of two, length ---------------------------------------------
pow2 = z3.Function('pow2', I, I)
blen = z3.Function('bit_length', I, I)


def unfold_pow2(n):
	return z3.And(pow2(0) == 1, z3.Implies(n > 0, pow2(n) == 2 * pow2(n - 1)))


def unfold_blen(a):
	return z3.Implies(a >= 0, blen(a) == z3.If(a == 0, z3.IntVal(0),
			1 + blen(a / 2)))


def L_shrstep(a, k):
	return z3.Implies(z3.And(a >= 0, k >= 0), z3.And(shr(a, k) >= 0,
			shr(a, k + 1) == shr(a, k) / 2))


def L_shrzero(a, k, m):
	"""Nothing is left after a position where nothing was left."""
	return z3.Implies(z3.And(a >= 0, 0 <= k, k <= m, shr(a, k) == 0),
			shr(a, m) == 0)


def L_landpow(a, n):
	"""a & (1 << n) tests membership."""
	return z3.Implies(z3.And(a >= 0, n >= 0), z3.And(pow2(n) > 0,
			land(a, pow2(n)) == z3.If(bit(a, n), pow2(n), z3.IntVal(0))))


def L_blen(a):
	"""No members at or after the bit length; the last member precedes it."""
	return z3.Implies(a >= 0, z3.And(blen(a) >= 0, shr(a, blen(a)) == 0,
			z3.Implies(a > 0, z3.And(blen(a) > 0, bit(a, blen(a) - 1)))))


def shiftlemmas():
	a, k, m, n = z3.Ints('a k m n')
	half = a / 2
	obs = []

	def ob(name, assumptions, goal):
		obs.append(Obligation('lemma', name, assumptions, goal))
	ob('a >> (k + 1) == (a >> k) >> 1', [unfold_shr(a, k), unfold_shr(a,
			k + 1), unfold_shr(half, k), shr(half, 0) == half,
			z3.Implies(k > 0, L_shrstep(half, k - 1))], L_shrstep(a, k))
	ob('nothing left stays nothing left', [z3.Implies(m > k, L_shrzero(a, k,
			m - 1)), L_shrstep(a, m - 1)], L_shrzero(a, k, m))
	ob('a & (1 << n) tests membership', [unfold_land(a, pow2(n)),
			unfold_land(half, pow2(n - 1)),
			unfold_pow2(n), unfold_shr(a, n), shr(half, 0) == half,
			unfold_land(half, z3.IntVal(0)), z3.Implies(n > 0, L_landpow(
			half, n - 1)), z3.Implies(n > 0, pow2(n - 1) > 0)],
			L_landpow(a, n))
	ob('the power of two is positive', [unfold_pow2(n), z3.Implies(n > 0,
			z3.Implies(n - 1 >= 0, pow2(n - 1) > 0))], z3.Implies(n >= 0,
			pow2(n) > 0))
	ob('members precede the bit length', [unfold_blen(a), unfold_shr(a,
			blen(a)), unfold_shr(a, blen(a) - 1), z3.Implies(a > 0, L_blen(
			half)), shr(half, 0) == half, unfold_blen(half)], L_blen(a))
	return obs


def shiftaxioms():
	a, k, m = z3.Ints('a! k! m!')
	return [z3.ForAll([a, k], L_landpow(a, k), patterns=[land(a, pow2(k))]),
			z3.ForAll([a], L_blen(a), patterns=[blen(a)]),
			z3.ForAll([a, k, m], L_shrzero(a, k, m), patterns=[
				z3.MultiPattern(shr(a, k), shr(a, m))]),
			z3.ForAll([a, k], z3.Implies(z3.And(a >= 0, k >= 0),
				shr(a, k) >= 0), patterns=[shr(a, k)]),
			z3.ForAll([k], z3.Implies(k >= 0, pow2(k) > 0),
				patterns=[pow2(k)]),
			z3.ForAll([a], shr(a, 0) == a, patterns=[shr(a, 0)])]


def pybits(eng, op, a, b, st):
	"""Bit operations of non-negative Python integers (for pyexec)."""
	import ast
	from .pyexec import SInt
	x, y = a.e, b.e
	eng.oblige(st, 'operands of a bit operation are not negative',
			z3.And(x >= 0, y >= 0))
	const = z3.simplify(y)
	const = const.as_long() if z3.is_int_value(const) else None
	cx = z3.simplify(x)
	cx = cx.as_long() if z3.is_int_value(cx) else None
	if isinstance(op, ast.BitAnd):
		if const == 1:
			yield st, SInt(x % 2)
		elif cx == 1:
			yield st, SInt(y % 2)
		else:
			yield st, SInt(land(x, y))
	elif isinstance(op, ast.LShift):
		if const is not None and const < 64:
			yield st, SInt(x * 2 ** const)
		else:
			yield st, SInt(pow2(y) if cx == 1 else x * pow2(y))
	elif isinstance(op, ast.RShift):
		if const is not None and const < 64:
			yield st, SInt(x / 2 ** const)
		else:
			yield st, SInt(shr(x, y))
	else:
		from .vc import Unsupported
		raise Unsupported('bit operation %s' % type(op).__name__)


if __name__ == '__main__':
	import time
	from . import vc
	obs = lemmas()
	t = time.time()
	vc.discharge(obs, timeout=10)
	print(vc.summary(obs), time.time() - t)
	for o in obs:
		if o.status != 'proved' or o.vacuous:
			print(o.name, o.status, o.vacuous, o.model)
