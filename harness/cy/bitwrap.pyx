"""Expose the inline functions of bit.pxd; arrays carry guard words."""
# distutils: language = c++
from libc.stdint cimport uint8_t, uint16_t, uint32_t, uint64_t
from discodop.bit cimport (testbit, nextset, nextunset, bitlength, abitcount,
		abitlength, anextset, anextunset, iteratesetbits, iterateunsetbits,
		setintersectinplace, setunioninplace, setintersect, setunion, subset)
from discodop.bit cimport (BITSIZE, BITSLOT, BITMASK, TESTBIT, SETBIT,
		CLEARBIT, bit_clz, bit_ctz, bit_popcount)
from libc.stdlib cimport malloc, free

DEF GUARD = 2


def w_testbit(int width, uint64_t vec, uint32_t pos):
	if width == 8:
		return bool(testbit(<uint8_t>vec, pos))
	elif width == 16:
		return bool(testbit(<uint16_t>vec, pos))
	elif width == 32:
		return bool(testbit(<uint32_t>vec, pos))
	return bool(testbit(<uint64_t>vec, pos))


def w_nextset(uint64_t vec, uint32_t pos):
	return nextset(vec, pos)


def w_nextunset(uint64_t vec, uint32_t pos):
	return nextunset(vec, pos)


def w_bitlength(uint64_t vec):
	return bitlength(vec)


def w_prim(uint64_t v):
	return (bit_clz(v), bit_ctz(v), bit_popcount(v))


cdef class Arr:
	"""Array of words surrounded by guard words."""
	cdef uint64_t *mem
	cdef uint64_t *vec
	cdef int n
	cdef list guards

	def __cinit__(self, words, guard):
		cdef int i
		self.n = len(words)
		self.mem = <uint64_t *>malloc((self.n + 2 * GUARD) * sizeof(uint64_t))
		for i in range(self.n + 2 * GUARD):
			self.mem[i] = guard
		self.guards = [guard]
		self.vec = &self.mem[GUARD]
		for i in range(self.n):
			self.vec[i] = words[i]

	def __dealloc__(self):
		free(self.mem)

	def words(self):
		return [self.vec[i] for i in range(self.n)]

	def guardsok(self):
		cdef uint64_t g = self.guards[0]
		for i in range(GUARD):
			if self.mem[i] != g or self.mem[GUARD + self.n + i] != g:
				return False
		return True


def w_abitcount(Arr a, int slots):
	return abitcount(a.vec, slots)


def w_abitlength(Arr a, int slots):
	return abitlength(a.vec, slots)


def w_anextset(Arr a, uint32_t pos, int slots):
	return anextset(a.vec, pos, slots)


def w_anextunset(Arr a, uint32_t pos, int slots):
	return anextunset(a.vec, pos, slots)


def w_iterset(Arr a, int slots, int limit):
	cdef int idx = 0
	cdef uint64_t cur = a.vec[0]
	res = []
	cdef int x = iteratesetbits(a.vec, slots, &cur, &idx)
	while x != -1 and len(res) < limit:
		res.append(x)
		x = iteratesetbits(a.vec, slots, &cur, &idx)
	return res


def w_iterunset(Arr a, int slots, int limit):
	cdef int idx = 0
	cdef uint64_t cur = ~a.vec[0]
	res = []
	cdef int x = iterateunsetbits(a.vec, slots, &cur, &idx)
	while x != -1 and len(res) < limit:
		res.append(x)
		x = iterateunsetbits(a.vec, slots, &cur, &idx)
	return res


def w_inplace(op, Arr d, Arr s, int slots):
	if op == 'and':
		setintersectinplace(d.vec, s.vec, slots)
	else:
		setunioninplace(d.vec, s.vec, slots)


def w_op(op, Arr d, Arr s1, Arr s2, int slots):
	if op == 'and':
		setintersect(d.vec, s1.vec, s2.vec, slots)
	else:
		setunion(d.vec, s1.vec, s2.vec, slots)


def w_subset(Arr a, Arr b, int slots):
	return bool(subset(a.vec, b.vec, slots))


def w_setbit(Arr a, int b):
	SETBIT(a.vec, b)


def w_clearbit(Arr a, int b):
	CLEARBIT(a.vec, b)


def w_testarr(Arr a, int b):
	return TESTBIT(a.vec, b) != 0


def w_slot(int b):
	return BITSLOT(b), BITMASK(b), BITSIZE
