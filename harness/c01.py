"""C01: bit vectors as sets, executed."""
from hlib import section, require, equal, main, EXTDIR
import sys
import bitwrap as w
from discodop import bit, tree

FULL = 2 ** 64 - 1
EDGES = [0, 1, 2, 3, 31, 32, 33, 47, 62, 63]


def members(v):
	return {i for i in range(v.bit_length()) if v >> i & 1}


def words(rng, n):
	"""Interesting words: single bits, runs, complements, random."""
	for i in range(64):
		yield 1 << i
		yield FULL ^ (1 << i)
		yield (1 << i) - 1
		yield FULL ^ ((1 << i) - 1)
	yield FULL
	for i in EDGES:
		for j in EDGES:
			if i <= j:
				yield ((1 << (j - i + 1)) - 1) << i & FULL
				yield (1 << i) | (1 << j)
	for _ in range(n):
		x = rng.getrandbits(64)
		k = rng.randrange(6)
		if k == 1:
			x &= rng.getrandbits(64) & rng.getrandbits(64)
		elif k == 2:
			x |= rng.getrandbits(64) | rng.getrandbits(64)
		elif k == 3:
			x = (x << rng.randrange(64)) & FULL
		elif k == 4:
			x >>= rng.randrange(64)
		yield x


def gen_word(rng, tier):
	for v in words(rng, 3000 if tier == 'quick' else 200000):
		yield v


@section('words', gen_word, 'every single-bit, run and complement word, then '
		'random words of varied density; all start positions', 1,
		functions=('testbit', 'nextset', 'nextunset', 'bitlength',
		'bitcount', 'fanout', 'pyintbitcount', 'pyintnextset', 'bitfanout',
		'bit_clz', 'bit_ctz', 'bit_popcount'))
def c_word(v):
	s = members(v)
	for width in (8, 16, 32, 64):
		m = v & ((1 << width) - 1)
		for p in range(width):
			equal(w.w_testbit(width, m, p), bool(m >> p & 1),
					'testbit%d' % width, (m, p))
	for p in range(64):
		equal(w.w_nextset(v, p), min((i for i in s if i >= p), default=-1),
				'nextset', (v, p))
		equal(w.w_nextunset(v, p), next(i for i in range(p, 65)
				if i == 64 or i not in s), 'nextunset', (v, p))
		equal(bit.pyintnextset(v, p), min((i for i in s if i >= p),
				default=-1), 'pyintnextset', (v, p))
	equal(w.w_bitlength(v), v.bit_length(), 'bitlength', v)
	equal(bit.bitcount(v), len(s), 'bitcount', v)
	equal(bit.pyintbitcount(v), len(s), 'pyintbitcount', v)
	comps = sum(1 for i in s if i + 1 not in s)
	equal(bit.fanout(v), comps, 'fanout', v)
	bf = getattr(tree, 'bitfanout', None)
	if v and bf is not None:
		equal(bf(v), comps, 'tree.bitfanout', v)
	if v:
		equal(w.w_prim(v), (64 - max(s) - 1, min(s), len(s)), 'intrinsics', v)
	return v != 0


def gen_big(rng, tier):
	for k in (64, 65, 127, 128, 129, 191, 192, 200, 256):
		for v in (1 << k, (1 << k) - 1, (1 << k) + 1, 3 << (k - 1),
				(1 << k) ^ (1 << 63), (1 << k) ^ (1 << 64),
				((1 << k) - 1) ^ (1 << 63), ((1 << k) - 1) ^ (1 << 64)):
			yield v
	for d in range(-3, 4):
		yield 2 ** 63 + d
		yield 2 ** 64 + d
	for _ in range(4000 if tier == 'quick' else 100000):
		n = rng.choice([1, 10, 63, 64, 65, 100, 130, 256, 300])
		v = rng.getrandbits(n)
		if rng.random() < .5:
			v = v << rng.choice([0, 1, 63, 64, 65, 128])
		if rng.random() < .3:
			v &= rng.getrandbits(300) & rng.getrandbits(300)
		if rng.random() < .3:
			v |= ((1 << rng.randrange(200)) - 1) << rng.randrange(100)
		yield v


@section('bigints', gen_big, 'Python integers around word boundaries and '
		'random integers up to 500 bits; starts at boundaries', 1,
		functions=('fanout', 'pyintbitcount', 'pyintnextset', 'bitfanout'))
def c_big(v):
	s = members(v)
	equal(bit.pyintbitcount(v), len(s), 'pyintbitcount', v)
	comps = sum(1 for i in s if i + 1 not in s)
	equal(bit.fanout(v), comps, 'fanout', v)
	bf = getattr(tree, 'bitfanout', None)
	if bf is not None and v:
		equal(bf(v), comps, 'tree.bitfanout', v)
	for p in {0, 1, 2, 31, 32, 62, 63, 64, 65, 66, 127, 128, 129, 191, 192,
			193, 255, 256} | {abs(hash((v, i))) % (v.bit_length() + 2)
			for i in range(6)}:
		equal(bit.pyintnextset(v, p), min((i for i in s if i >= p),
				default=-1), 'pyintnextset', (v, p))
	return v != 0


GUARDS = [0, FULL, 1, 1 << 63, 0x5555555555555555]


def gen_arr(rng, tier):
	basic = [0, FULL, 1, 1 << 63, FULL >> 1, FULL - 1]
	for n in (1, 2, 3):
		def rec(k):
			if k == 0:
				yield []
				return
			for x in basic:
				for rest in rec(k - 1):
					yield [x] + rest
		for a in rec(n):
			yield (a, [basic[(i * 7 + len(a)) % 6] for i in range(n)],
					rng.choice(GUARDS))
	for _ in range(1500 if tier == 'quick' else 60000):
		n = rng.choice([1, 2, 2, 2, 3, 4, 7])
		gen = lambda: rng.choice([0, 0, FULL, FULL, rng.getrandbits(64),
				rng.getrandbits(64), 1 << rng.randrange(64),
				FULL ^ (1 << rng.randrange(64)),
				rng.getrandbits(64) & rng.getrandbits(64)
				& rng.getrandbits(64)])
		a = [gen() for _ in range(n)]
		b = [gen() for _ in range(n)]
		if rng.random() < .4:
			b = [x | y for x, y in zip(a, b)]
		if rng.random() < .2 and n > 1:
			b[rng.randrange(n)] &= gen()
		yield (a, b, rng.choice(GUARDS))


@section('arrays', gen_arr, 'all arrays of 1-3 words over 6 boundary words, '
		'then random pairs of arrays up to 7 words, with guard words around '
		'them; all positions', 2, functions=('abitcount', 'abitlength',
		'anextset', 'anextunset', 'iteratesetbits', 'iterateunsetbits',
		'setintersect', 'setunion', 'setintersectinplace', 'setunioninplace',
		'subset', 'SETBIT', 'CLEARBIT', 'TESTBIT'))
def c_arr(case):
	a, b, g = case
	n = len(a)
	va = sum(x << 64 * i for i, x in enumerate(a))
	vb = sum(x << 64 * i for i, x in enumerate(b))
	sa, sb = members(va), members(vb)
	A, B = w.Arr(a, g), w.Arr(b, g)
	full = set(range(64 * n))
	for slots in {n, 1, n - 1} - {0}:
		ss = {i for i in sa if i < 64 * slots}
		un = set(range(64 * slots)) - ss
		equal(w.w_abitcount(A, slots), len(ss), 'abitcount', case)
		equal(w.w_abitlength(A, slots), max(ss, default=-1) + 1,
				'abitlength', case)
		equal(w.w_iterset(A, slots, 600), sorted(ss), 'iteratesetbits', case)
		equal(w.w_iterunset(A, slots, 600), sorted(un), 'iterateunsetbits',
				case)
		step = 1 if n <= 2 else 3
		for p in sorted(set(range(0, 64 * slots, step)) | {63, 64 * slots - 1,
				64 * slots, 64 * slots + 1} | {64 * i for i in range(n + 1)}):
			equal(w.w_anextset(A, p, slots), min((i for i in ss if i >= p),
					default=-1), 'anextset', (case, p))
			r = w.w_anextunset(A, p, slots)
			if p < 64 * slots:
				equal(r, min((i for i in un if i >= p), default=64 * slots),
						'anextunset', (case, p))
			else:
				require(r >= 64 * slots, 'anextunset', (case, p, r))
		equal(w.w_subset(A, B, slots), ss <= sb, 'subset', case)
		for op, f in (('and', lambda x, y: x & y), ('or', lambda x, y: x | y)):
			want = [f(x, y) if i < slots else x
					for i, (x, y) in enumerate(zip(a, b))]
			D, S = w.Arr(a, g), w.Arr(b, g)
			w.w_inplace(op, D, S, slots)
			equal(D.words(), want, 'inplace-' + op, (case, slots))
			equal(S.words(), b, 'inplace-source-' + op, (case, slots))
			require(D.guardsok() and S.guardsok(), 'guards', (op, case))
			D = w.Arr([7] * n, g)
			w.w_op(op, D, A, B, slots)
			equal(D.words(), [f(x, y) if i < slots else 7 for i, (x, y)
					in enumerate(zip(a, b))], 'set-' + op, (case, slots))
			require(D.guardsok(), 'guards', (op, case))
			D = w.Arr(a, g)  # destination aliases a source
			w.w_op(op, D, D, B, slots)
			equal(D.words(), want, 'set-alias-' + op, (case, slots))
			D = w.Arr(a, g)
			w.w_op(op, D, B, D, slots)
			equal(D.words(), want, 'set-alias2-' + op, (case, slots))
	equal((A.words(), B.words()), (a, b), 'arguments-unchanged', case)
	require(A.guardsok() and B.guardsok(), 'guards', case)
	for p in (0, 63, 64 * n - 1, 64 * n // 2):
		D = w.Arr(a, g)
		equal(w.w_testarr(D, p), p in sa, 'TESTBIT', (case, p))
		w.w_setbit(D, p)
		equal(D.words(), [x | (1 << (p % 64) if i == p // 64 else 0)
				for i, x in enumerate(a)], 'SETBIT', (case, p))
		w.w_clearbit(D, p)
		equal(D.words(), [x & ~(1 << (p % 64) if i == p // 64 else 0)
				for i, x in enumerate(a)], 'CLEARBIT', (case, p))
		equal(w.w_slot(p), (p // 64, 1 << (p % 64), 64), 'BITSLOT', p)
	return bool(sa or sb)


if __name__ == '__main__':
	main()
