"""C01: bit vectors behave exactly like finite sets of positions."""
import os
from pv import vc, cyrun, cbmc, intbits
from contracts import c01

LEVEL = 'proof'
EXT = ('bit', os.path.join(os.path.dirname(os.path.dirname(
	os.path.abspath(__file__))), 'harness', 'cy', 'bitwrap.pyx') + ':bitwrap')
BUDGET = 25
ASSUMPTIONS = [
	'array operations: 1 <= slots <= 2**24 (no int overflow of positions)',
	'single word operations: pos < number of bits of the word',
	'fanout, pyintnextset: the result fits in a C int (fewer than 2**31 '
	'components / position below 2**31)',
	'LP64 C data model; GCC/clang branch of bitcount.h',
	'translation of C-level Cython to C by Cython, and the C compiler',
	]
TECHNIQUE = ('contract-based deductive verification of the Cython and C '
	'sources: symbolic execution of every function against its contract, '
	'loop invariants, obligations discharged by z3/cvc5 (CBMC for bitcount.h '
	'and macros.h); failing obligations are searched for an input on the '
	'real code')
LEVEL_NOTE = ('Proved for all inputs within the stated machine ranges: every '
	'function of bit.pxd and bit.pyx that has a contract (list in the '
	'evidence). The pure Python fallbacks outside the contracts are checked '
	'at run time on generated values (bounded, not counted as proved). '
	'Trusted: the symbolic executor, the Cython parser, the solvers.')
TRUSTED = [
	'pv/cyexec.py (symbolic execution of Cython AST with C semantics)',
	"Cython's parser (front end)", 'z3 / cvc5 / CBMC',
	'CBMC\'s models of __builtin_clzl/ctzl/popcountl',
	'definitions by recursion in pv/intbits.py (land, shr, tz, card, blocks)',
	]
CBMC = r'''
#include <stdint.h>
#include <assert.h>
unsigned int bit_clz_general(uint64_t v);
unsigned int bit_ctz_general(uint64_t v);
unsigned int bit_popcount_general(uint64_t v);
#include "bitcount.h"
#include "macros.h"
uint64_t nondet_u64(void); int nondet_int(void);
static unsigned spec(uint64_t v) {
	unsigned c = 0; for (int i = 0; i < 64; i++) c += (v >> i) & 1; return c; }
void bit_clz_contract(void) {
	uint64_t v = nondet_u64(); __CPROVER_assume(v != 0);
	unsigned n = bit_clz(v);
	assert(n < 64); assert((v >> (63 - n)) == 1);
	assert(bit_clz_general(v) == n); }
void bit_ctz_contract(void) {
	uint64_t v = nondet_u64(); __CPROVER_assume(v != 0);
	unsigned n = bit_ctz(v);
	assert(n < 64); assert((v >> n) & 1); assert(((v >> n) << n) == v);
	assert(bit_ctz_general(v) == n); }
void bit_popcount_contract16(void) {
	uint64_t v = nondet_u64() & 0xffff; assert(bit_popcount(v) == spec(v)); }
void bit_popcount_contract_additive(void) {
	uint64_t v = nondet_u64();
	assert(bit_popcount(v) == bit_popcount(v & 0xffff)
		+ bit_popcount((v >> 16) & 0xffff) + bit_popcount((v >> 32) & 0xffff)
		+ bit_popcount(v >> 48)); }
void bit_popcount_general_contract16(void) {
	uint64_t v = nondet_u64() & 0xffff;
	assert(bit_popcount_general(v) == spec(v)); }
void bit_popcount_general_contract_additive(void) {
	uint64_t v = nondet_u64();
	assert(bit_popcount_general(v) == bit_popcount_general(v & 0xffff)
		+ bit_popcount_general((v >> 16) & 0xffff)
		+ bit_popcount_general((v >> 32) & 0xffff)
		+ bit_popcount_general(v >> 48)); }
void macros_contract(void) {
	uint64_t a[3] = {nondet_u64(), nondet_u64(), nondet_u64()};
	uint64_t o[3] = {a[0], a[1], a[2]};
	int b = nondet_int(), i = nondet_int();
	__CPROVER_assume(0 <= b && b < 192 && 0 <= i && i < 192);
	assert(BITSIZE == 64);
	assert(BITSLOT(b) == b / 64);
	assert(BITMASK(b) == (uint64_t)1 << (b % 64));
	assert(BITNSLOTS(b) == (b + 63) / 64);
	assert(!!TESTBIT(a, b) == (int)((a[b / 64] >> (b % 64)) & 1));
	SETBIT(a, b);
	assert(((a[i / 64] >> (i % 64)) & 1)
		== ((i == b) | ((o[i / 64] >> (i % 64)) & 1)));
	CLEARBIT(a, b);
	assert(((a[i / 64] >> (i % 64)) & 1)
		== ((i != b) & ((o[i / 64] >> (i % 64)) & 1))); }
'''
CBMCFUNCS = ['bit_clz_contract', 'bit_ctz_contract',
	'bit_popcount_contract16', 'bit_popcount_contract_additive',
	'bit_popcount_general_contract16',
	'bit_popcount_general_contract_additive', 'macros_contract']


def deductive(tier, scratch):
	obs, out = cyrun.run('discodop/bit.pxd', c01.PXD, c01.INTRINSICS,
			qual='bit.pxd:')
	obs2, out2 = cyrun.run('discodop/bit.pyx', c01.PYX, c01.INTINTRINSICS,
			qual='bit.pyx:')
	obs3 = intbits.lemmas()
	allobs = obs + obs2 + obs3
	vc.discharge(allobs, timeout=20)
	cb = cbmc.run(CBMC, CBMCFUNCS, scratch=scratch, timeout=300)
	for o in cb:
		o.function = 'bitcount.h/macros.h:' + o.function
	outside = out + out2
	return dict(obligations=allobs + cb, outside=outside, trusted=TRUSTED,
			extraction='function bodies are taken from the parse trees of '
			'bit.pxd and bit.pyx on every run; docstrings and inline/nogil/'
			'except markers are dropped, nothing else. macros.h and '
			'bitcount.h are verified as C by CBMC without extraction.')
