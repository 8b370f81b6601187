"""C12: PyAgenda is a stable priority queue with a dictionary view."""
import itertools
from hlib import section, require, equal, fail, main, Skip
from discodop.util import PyAgenda, merge, OrderedSet


class Model(object):
	def __init__(self):
		self.d = {}    # key -> [priority, order of insertion]
		self.n = 0

	def set(self, k, v):
		if k in self.d:
			self.d[k][0] = v
		else:
			self.n += 1
			self.d[k] = [v, self.n]

	def best(self):
		k = min(self.d, key=lambda x: tuple(self.d[x]))
		return k, self.d[k][0]


def check(a, m, op):
	def msg():
		return 'after %r: model %r agenda %r' % (op, m.d, sorted(
				a.items(), key=repr))
	want = {k: v[0] for k, v in m.d.items()}
	require(len(a) == len(want), 'length', lambda: 'len %r; %s' % (
			len(a), msg()))
	require(bool(a) == bool(want), 'emptiness', msg)
	require(sorted(a, key=repr) == sorted(want, key=repr), 'iteration', msg)
	require(len(list(a.keys())) == len(want)
			and set(a.keys()) == set(want), 'keys', msg)
	require(sorted(a.items(), key=repr)
			== sorted(want.items(), key=repr), 'items', msg)
	require(sorted(a.values(), key=repr)
			== sorted(want.values(), key=repr), 'values', msg)
	for k in want:
		require(k in a, 'membership', msg)
		equal(a[k], want[k], 'getitem', msg())
	for k in ('absent', 99):
		require(k not in a, 'membership', msg)
		try:
			a[k]
		except KeyError:
			pass
		else:
			fail('getitem-absent', msg())


def rejected(func, kinds, key, op):
	try:
		res = func()
	except kinds:
		return
	fail(key, '%r returned %r, expected %r' % (op, res, kinds))


def run(case):
	init, ops, every = case
	m = Model()
	if init is None:
		a = PyAgenda()
	else:
		for k, v in init:
			# "the best priorities are retained on duplicate keys"
			if k not in m.d or v < m.d[k][0]:
				m.set(k, v)
		a = PyAgenda(list(init)) if every & 2 else PyAgenda(iter(init))
		check(a, m, 'init')
	for n, op in enumerate(ops):
		k = op[0]
		if k == 'set':
			a[op[1]] = op[2]
			m.set(op[1], op[2])
		elif k == 'update':
			a.update(list(op[1]))
			for x, y in op[1]:
				m.set(x, y)
		elif k == 'updatekw':
			a.update(**dict(op[1]))
			for x, y in dict(op[1]).items():
				m.set(x, y)
		elif k == 'del':
			if op[1] in m.d:
				del a[op[1]]
				del m.d[op[1]]
			else:
				rejected(lambda: a.__delitem__(op[1]), KeyError,
						'del-absent', op)
		elif k == 'pop':
			if op[1] in m.d:
				equal(a.pop(op[1]), m.d.pop(op[1])[0], 'pop-value', op)
			else:
				rejected(lambda: a.pop(op[1]), KeyError, 'pop-absent', op)
		elif k in ('popitem', 'popnone'):
			if m.d:
				x, y = m.best()
				if k == 'popitem':
					equal(a.popitem(), (x, y), 'popitem', m.d)
				else:
					equal(a.pop(None), y, 'pop-none', m.d)
				del m.d[x]
			else:
				rejected(a.popitem, (IndexError, KeyError), 'popitem-empty',
						op)
		elif k == 'peek':
			if m.d:
				equal(a.peekitem(), m.best(), 'peekitem', m.d)
			else:
				rejected(a.peekitem, (IndexError, KeyError), 'peek-empty', op)
		elif k == 'clear':
			a.clear()
			m = Model()
		if every & 1 or n == len(ops) - 1:
			check(a, m, (n, op))
	# drain
	while m.d:
		x, y = m.best()
		if every & 4:
			equal(a.peekitem(), (x, y), 'drain-peek', m.d)
		equal(a.popitem(), (x, y), 'drain', m.d)
		del m.d[x]
	equal(len(a), 0, 'drain-length')
	require(not a, 'drain-emptiness')
	rejected(a.popitem, (IndexError, KeyError), 'popitem-empty', 'end')


def small(rng, tier):
	"""All histories of length <= n over two keys and two priorities."""
	ops = [('set', k, v) for k in (1, 2) for v in (1, 2)] + [
			('del', 1), ('pop', 1), ('popitem', ), ('peek', ), ('clear', )]
	for n in range(1, 5 if tier == 'quick' else 6):
		for h in itertools.product(ops, repeat=n):
			yield (None, list(h), 1)


def hist(rng, tier):
	while True:
		nk = rng.choice([2, 3, 4, 6, 10, 30])
		np = rng.choice([1, 2, 3, 5, 100])
		kind = rng.choice(['int', 'float', 'str', 'tup'])
		key = lambda: {'int': lambda: rng.randrange(nk),
				'float': lambda: float(rng.randrange(nk)),
				'str': lambda: 'k%d' % rng.randrange(nk),
				'tup': lambda: (rng.randrange(nk), 'x')}[kind]()
		pri = lambda: (rng.randrange(np) if np < 100 else rng.random())
		init = None
		if rng.random() < .4:
			init = [(key(), pri()) for _ in range(rng.randrange(2 * nk))]
		w = [rng.random() for _ in range(8)]
		w[0] += 1.2
		w[5] *= .1
		names = ['set', 'del', 'pop', 'popitem', 'peek', 'clear', 'update',
				'popnone']
		ops = []
		for _ in range(rng.choice([3, 6, 12, 25, 60])):
			o = rng.choices(names, w)[0]
			if o == 'set':
				ops.append((o, key(), pri()))
			elif o in ('del', 'pop'):
				ops.append((o, key()))
			elif o == 'update':
				if kind == 'str' and rng.random() < .3:
					ops.append(('updatekw', [(key(), pri())
							for _ in range(2)]))
				else:
					ops.append((o, [(key(), pri()) for _ in range(3)]))
			else:
				ops.append((o, ))
		yield (init, ops, rng.randrange(8))


FUNCS = ['discodop/util.py:PyAgenda.' + a for a in '''__init__ peekitem pop
	popitem update clear __contains__ __getitem__ __setitem__ __delitem__
	__iter__ __len__ __bool__ keys values items'''.split()] + [
	'discodop/util.py:Entry.__lt__']
section('exhaustive', small, 'all histories of at most 4 operations over 2 keys '
		'and 2 priorities (thorough: 5)', share=1, functions=FUNCS)(run)
section('histories', hist, 'random histories of up to 60 operations over up to '
		'30 keys with many ties; every view compared with a model after each '
		'operation', share=2, functions=FUNCS)(run)


def mergegen(rng, tier):
	for lens in itertools.product(range(3), repeat=3):
		for vals in itertools.product((0, 1), repeat=sum(lens)):
			it = iter(vals)
			yield ([sorted(next(it) for _ in range(n)) for n in lens], None)
	while True:
		n = rng.choice([0, 1, 2, 3, 4, 7])
		r = rng.choice([2, 5, 100])
		key = rng.choice([None, 'neg', 'half', 'first'])
		seqs = []
		for _ in range(n):
			s = [rng.randrange(r) for _ in range(rng.choice([0, 1, 2, 5, 9]))]
			s.sort(key=KEYS[key])
			seqs.append(s)
		yield (seqs, key)


KEYS = {None: lambda x: x, 'neg': lambda x: -x, 'half': lambda x: x // 2,
		'first': lambda x: str(x)[0]}


@section('merge', mergegen, 'n-way merges of up to 7 sorted sequences, with and '
		'without key; items are tagged with their origin so that stability is '
		'visible', functions=['discodop/util.py:merge'])
def runmerge(case):
	seqs, key = case
	seqs = [sorted(s, key=KEYS[key]) for s in seqs]
	if key is None:
		tagged = [[(x, n, i) for i, x in enumerate(s)]
				for n, s in enumerate(seqs)]
		got = list(merge(*[[x for x in s] for s in seqs]))
		equal(got, sorted(x for s in seqs for x in s), 'sorted')
		res = list(merge(*[iter(s) for s in tagged], key=lambda t: t[0]))
	else:
		tagged = [[(x, n, i) for i, x in enumerate(s)]
				for n, s in enumerate(seqs)]
		res = list(merge(*tagged, key=lambda t: KEYS[key](t[0])))
	f = KEYS[key]
	equal(res, sorted((t for s in tagged for t in s),
			key=lambda t: f(t[0])), 'stable-merge')


def setgen(rng, tier):
	for n in range(5):
		for a in itertools.product('abc', repeat=n):
			yield (list(a), list(reversed(a))[:2])
	while True:
		yield ([rng.choice('abcdefg') for _ in range(rng.randrange(9))],
				[rng.choice('abcdefg') for _ in range(rng.randrange(9))])


@section('orderedset', setgen, 'ordered sets over up to 7 elements',
		share=.3, functions=['discodop/util.py:OrderedSet'])
def runset(case):
	a, b = case
	a = list(dict.fromkeys(a))
	b = list(dict.fromkeys(b))
	s, t = OrderedSet(a), OrderedSet(b)
	equal(list(s), a, 'iter')
	equal(len(s), len(a), 'len')
	equal(list(reversed(s)), a[::-1], 'reversed')
	equal([s[n] for n in range(len(a))], a, 'getitem')
	for x in 'abcdefgh':
		equal(x in s, x in a, 'contains')
	equal(list(s & t), [x for x in a if x in b], 'and')
	equal(set(s | t), set(a) | set(b), 'or')
	equal(set(s - t), set(a) - set(b), 'sub')
	equal(s == t, set(a) == set(b), 'eq')
	if set(a) == set(b):
		equal(hash(s), hash(t), 'hash')
	equal(s <= t, set(a) <= set(b), 'subset')
	equal(s.isdisjoint(t), not set(a) & set(b), 'disjoint')


if __name__ == '__main__':
	main()
