"""C02: parent links mirror the children lists; list semantics of mutators."""
from hlib import section, require, equal, fail, main, Skip
from discodop.tree import ParentedTree, Tree, ImmutableParentedTree
from discodop.util import slice_bounds


class W(object):
	"""A pool of parented nodes, with a model: lists of children."""
	def __init__(self, cls=ParentedTree):
		self.cls = cls
		self.nodes = []   # real nodes
		self.kids = []    # model: list of children (ids 'n3' / leaves)

	def new(self, label, kids):
		real = [self.real(k) for k in kids]
		ok = self.placeable(kids)
		try:
			node = self.cls(label, real)
		except (ValueError, TypeError):
			require(not ok, 'construct-rejected', kids)
			return
		require(ok, 'construct-accepted', kids)
		self.nodes.append(node)
		self.kids.append(list(kids))

	def real(self, k):
		return self.nodes[k[0]] if isinstance(k, tuple) else k

	def parent(self, i):
		return [p for p, ks in enumerate(self.kids)
				for k in ks if isinstance(k, tuple) and k[0] == i]

	def placeable(self, kids):
		"""Trees that have no parent, each once."""
		t = [k for k in kids if isinstance(k, tuple)]
		return len(set(t)) == len(t) and not any(
				self.parent(k[0]) for k in t)

	def ancestors(self, i):
		res = [i]
		while self.parent(res[-1]):
			res.append(self.parent(res[-1])[0])
		return res

	def check(self, op):
		for i, (node, ks) in enumerate(zip(self.nodes, self.kids)):
			actual = node.children
			require(len(actual) == len(ks) and all(
					(a is self.real(k)) if isinstance(k, tuple) else a == k
					for a, k in zip(actual, ks)), 'children-list',
					lambda: 'after %r: node %d has %r, model %r' % (op, i,
						[self.name(a) for a in actual], ks))
			par = self.parent(i)
			if len(par) > 1:
				fail('model', 'duplicate')
			want = self.nodes[par[0]] if par else None
			require(node.parent is want, 'parent-link',
					lambda: 'after %r: node %d parent %r, expected %r' % (op,
						i, self.name(node.parent), par))
			# derived views
			if want is None:
				equal(node.parent_index, None, 'parent_index')
				equal(node.treeposition, (), 'treeposition')
				require(node.root is node, 'root')
				equal((node.left_sibling, node.right_sibling), (None, None),
						'siblings')
			else:
				siblings = self.kids[par[0]]
				idx = siblings.index((i, ))
				equal(node.parent_index, idx, 'parent_index', op)
				l = node.left_sibling
				r = node.right_sibling
				wl = self.real(siblings[idx - 1]) if idx else None
				wr = (self.real(siblings[idx + 1])
						if idx + 1 < len(siblings) else None)
				require((l is wl or l == wl and not isinstance(wl, Tree)),
						'left_sibling', op)
				require((r is wr or r == wr and not isinstance(wr, Tree)),
						'right_sibling', op)
				anc = self.ancestors(i)
				require(node.root is self.nodes[anc[-1]], 'root', op)
				require(node.root[node.treeposition] is node,
						'treeposition', op)

	def name(self, x):
		for i, n in enumerate(self.nodes):
			if n is x:
				return i
		return repr(x)


def dec(v):
	"""Values in cases: int -> leaf, 'nK' -> node K, else string leaf."""
	if isinstance(v, str) and v[:1] == 'n' and v[1:].isdigit():
		return (int(v[1:]), )
	return v


def kidrepr(w, i):
	"""Structure of model node, for equality-based operations."""
	return ('L%d' % w.labels[i], tuple(kidrepr(w, k[0])
			if isinstance(k, tuple) else k for k in w.kids[i]))


def run(case):
	w = W()
	w.labels = []
	for op in case:
		k, args = op[0], op[1:]
		if k == 'new':
			lab, kids = args
			kids = [dec(v) for v in kids]
			if any(isinstance(v, tuple) and v[0] >= len(w.nodes)
					for v in kids):
				continue
			n = len(w.nodes)
			w.new('L%d' % lab, kids)
			if len(w.nodes) > n:
				w.labels.append(lab)
			w.check(op)
			continue
		i = args[0]
		if i >= len(w.nodes):
			continue
		node, ks = w.nodes[i], w.kids[i]
		vals = lambda x: [dec(v) for v in x]
		bad = lambda v: isinstance(v, tuple) and (v[0] >= len(w.nodes)
				or v[0] in w.ancestors(i))
		model = [list(x) for x in w.kids]
		new = list(ks)

		def attempt(fn, listfn, kids=(), expectreject=False):
			"""Run on the real tree and on the model; compare."""
			if any(bad(v) for v in kids):
				return
			err = reject = None
			removed = None
			try:
				listfn(new)
			except (IndexError, ValueError, TypeError) as e:
				reject = e
			if reject is None:
				incoming = [v for v in kids if isinstance(v, tuple)]
				# a node may be placed when it has no parent (or, for an
				# identical replacement, when nothing changes)
				if (k != 'set' or new != ks) and not w.placeable(incoming):
					reject = 'has parent'
			if expectreject:
				reject = 'unsupported'
			try:
				removed = fn()
			except (IndexError, ValueError, TypeError, AttributeError) as e:
				err = e
			if reject is not None:
				require(err is not None, 'accepted',
						'%r should be rejected: %s' % (op, reject))
				return None
			require(err is None, 'rejected', lambda: '%r: %r' % (op, err))
			w.kids[i] = new
			return removed
		if k == 'set':
			idx, v = args[1], dec(args[2])
			attempt(lambda: node.__setitem__(idx, w.real(v) if not bad(v)
					else v), lambda l: l.__setitem__(idx, v), [v])
		elif k == 'setslice':
			a, b, vs = args[1], args[2], vals(args[3])
			attempt(lambda: node.__setitem__(slice(a, b), [w.real(v)
					for v in vs]), lambda l: l.__setitem__(slice(a, b), vs),
					vs)
		elif k == 'setsliceiter':
			a, b, vs = args[1], args[2], vals(args[3])
			attempt(lambda: node.__setitem__(slice(a, b), iter([w.real(v)
					for v in vs])), lambda l: l.__setitem__(slice(a, b), vs),
					vs)
		elif k == 'del':
			attempt(lambda: node.__delitem__(args[1]),
					lambda l: l.__delitem__(args[1]))
		elif k == 'delslice':
			a, b = args[1:]
			attempt(lambda: node.__delitem__(slice(a, b)),
					lambda l: l.__delitem__(slice(a, b)))
		elif k == 'stepslice':
			a, b, s = args[1:]
			attempt(lambda: node.__delitem__(slice(a, b, s)),
					lambda l: l, expectreject=True)
			w.check(op)
			attempt(lambda: node.__setitem__(slice(a, b, s), []),
					lambda l: l, expectreject=True)
		elif k == 'append':
			v = dec(args[1])
			attempt(lambda: node.append(w.real(v)), lambda l: l.append(v),
					[v])
		elif k == 'extend':
			vs = vals(args[1])
			if any(bad(v) for v in vs):
				continue
			# elements are added one by one; it stops at the first that is
			# rejected
			good = []
			for v in vs:
				if isinstance(v, tuple) and (w.parent(v[0]) or v in good):
					break
				good.append(v)
			try:
				node.extend([w.real(v) for v in vs])
			except ValueError:
				require(len(good) < len(vs), 'rejected', op)
			else:
				require(len(good) == len(vs), 'accepted', op)
			if len(good) < len(vs):
				# all or nothing are both consistent with the contract
				if len(node) == len(ks):
					good = []
			w.kids[i] = ks + good
		elif k == 'insert':
			idx, v = args[1], dec(args[2])
			attempt(lambda: node.insert(idx, w.real(v)),
					lambda l: l.insert(idx, v), [v])
		elif k == 'pop':
			res = attempt(lambda: node.pop(args[1]),
					lambda l: l.pop(args[1]))
			if w.kids[i] is new and len(new) < len(ks):
				x = ks[args[1]]
				require(res is w.real(x) if isinstance(x, tuple) else res == x,
						'pop-result', op)
		elif k == 'pop0':
			attempt(lambda: node.pop(), lambda l: l.pop())
		elif k == 'remove':
			j = args[1]
			if not isinstance(j, str) or not (dec(j)[0] < len(w.nodes)
					if isinstance(dec(j), tuple) else True):
				v = j
			else:
				v = dec(j)
			# by equality: find the first equal child in the model
			if isinstance(v, tuple):
				if v[0] >= len(w.nodes):
					continue
				target = kidrepr(w, v[0])
				eq = [n for n, c in enumerate(ks) if isinstance(c, tuple)
						and kidrepr(w, c[0]) == target]
			else:
				eq = [n for n, c in enumerate(ks) if c == v]

			def listremove(l):
				if not eq:
					raise ValueError
				del l[eq[0]]
			attempt(lambda: node.remove(w.real(v)), listremove)
		elif k == 'detach':
			par = w.parent(i)
			res = node.detach()
			require(res is node, 'detach-result', op)
			if par:
				w.kids[par[0]].remove((i, ))
		elif k == 'disown':
			res = node.disown()
			require(len(res) == len(ks) and all(a is w.real(b)
					if isinstance(b, tuple) else a == b
					for a, b in zip(res, ks)), 'disown-result', op)
			w.kids[i] = []
		elif k == 'spliceabove':
			par = w.parent(i)
			if not par:
				continue
			res = node.spliceabove('L%d' % args[1])
			w.nodes.append(res)
			w.labels.append(args[1])
			w.kids.append([(i, )])
			pk = w.kids[par[0]]
			pk[pk.index((i, ))] = (len(w.nodes) - 1, )
			equal(res.label, 'L%d' % args[1], 'splice-label')
		elif k == 'splicebelow':
			res = node.splicebelow('L%d' % args[1])
			w.nodes.append(res)
			w.labels.append(args[1])
			w.kids.append(ks)
			w.kids[i] = [(len(w.nodes) - 1, )]
			equal(res.label, 'L%d' % args[1], 'splice-label')
		elif k == 'prune':
			par = w.parent(i)
			if not par:
				continue
			node.prune()
			pk = w.kids[par[0]]
			j = pk.index((i, ))
			pk[j:j + 1] = ks
			w.kids[i] = []
		elif k == 'path':
			# operation through a tree position
			path, v = tuple(args[1]), dec(args[2])
			if not path:
				for fn in (lambda: node.__setitem__((), w.real(v)),
						lambda: node.__delitem__(())):
					try:
						fn()
					except IndexError:
						pass
					else:
						fail('accepted', op)
				w.check(op)
				continue
			j = i
			for p in path[:-1]:
				kk = w.kids[j]
				if not -len(kk) <= p < len(kk) or not isinstance(kk[p], tuple):
					j = None
					break
				j = kk[p][0]
			if j is None:
				continue
			if isinstance(v, tuple) and (v[0] >= len(w.nodes)
					or v[0] in w.ancestors(j)):
				continue
			l = list(w.kids[j])
			try:
				if args[3] == 'set':
					l[path[-1]] = v
				else:
					del l[path[-1]]
				reject = False
			except IndexError:
				reject = True
			if (not reject and args[3] == 'set' and l != w.kids[j]
					and isinstance(v, tuple) and w.parent(v[0])):
				reject = True
			try:
				if args[3] == 'set':
					node[path] = w.real(v)
				else:
					del node[path]
			except (IndexError, ValueError):
				require(reject, 'rejected', op)
			else:
				require(not reject, 'accepted', op)
				w.kids[j] = l
		elif k == 'foreign':
			# a non-parented tree is rejected by every adding operation
			t = Tree('X', [0])
			for fn in (lambda: node.append(t), lambda: node.insert(0, t),
					lambda: node.extend([t]),
					lambda: node.__setitem__(slice(0, 1), [t]),
					lambda: node.__setitem__(0, t),
					lambda: ParentedTree('Y', [t])):
				try:
					fn()
				except (TypeError, IndexError):
					pass
				else:
					fail('foreign-accepted', op)
		w.check(op)
	return len(w.nodes) > 1


START = [('new', 0, [1]), ('new', 1, []), ('new', 0, ['n0', 'a', 'n1']),
		('new', 2, [7]), ('new', 0, [1])]


def rop(rng, n):
	i = rng.randrange(n)
	idx = lambda: rng.choice([-5, -4, -3, -2, -1, 0, 0, 1, 1, 2, 3, 4, 5])
	sl = lambda: rng.choice([None, None, -4, -2, -1, 0, 1, 2, 3, 6])
	val = lambda: rng.choice(['n%d' % rng.randrange(n + 1)] * 3 + ['a', 5, 0])
	vs = lambda: [val() for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))]
	k = rng.choice(['new', 'set', 'set', 'setslice', 'setslice',
			'setsliceiter', 'del', 'delslice', 'stepslice', 'append', 'append',
			'extend', 'insert', 'insert', 'pop', 'pop0', 'remove', 'detach',
			'disown', 'spliceabove', 'splicebelow', 'prune', 'path', 'path',
			'foreign'])
	if k == 'new':
		return (k, rng.randrange(3), vs())
	return {'set': lambda: (k, i, idx(), val()),
			'setslice': lambda: (k, i, sl(), sl(), vs()),
			'setsliceiter': lambda: (k, i, sl(), sl(), vs()),
			'del': lambda: (k, i, idx()), 'delslice': lambda: (k, i, sl(), sl()),
			'stepslice': lambda: (k, i, sl(), sl(), rng.choice([2, -1, 3])),
			'append': lambda: (k, i, val()), 'extend': lambda: (k, i, vs()),
			'insert': lambda: (k, i, idx(), val()), 'pop': lambda: (k, i, idx()),
			'pop0': lambda: (k, i), 'remove': lambda: (k, i, val()),
			'detach': lambda: (k, i), 'disown': lambda: (k, i),
			'spliceabove': lambda: (k, i, rng.randrange(3)),
			'splicebelow': lambda: (k, i, rng.randrange(3)),
			'prune': lambda: (k, i), 'foreign': lambda: (k, i),
			'path': lambda: (k, i, [rng.choice([0, 1, 2, -1]) for _ in
				range(rng.choice([0, 1, 2, 2, 3]))], val(),
				rng.choice(['set', 'del']))}[k]()


def gen_single(rng, tier):
	"""Every operation with every index around the bounds, on a fixed pool."""
	R = range(-5, 6)
	S = [None] + list(range(-4, 6))
	vals = ['n3', 'n4', 'n0', 'n1', 'n2', 'x', 9]
	for i in (2, 1, 0):
		for idx in R:
			yield START + [('del', i, idx)]
			yield START + [('pop', i, idx)]
			for v in vals:
				yield START + [('set', i, idx, v)]
				yield START + [('insert', i, idx, v)]
		for a in S:
			for b in S:
				yield START + [('delslice', i, a, b)]
				for vs in ([], ['n3'], ['n3', 'n4'], ['x', 'n3', 9],
						['n3', 'n3'], ['n0'], ['n4', 'n1', 'n3']):
					yield START + [('setslice', i, a, b, vs)]
		for v in vals:
			yield START + [('append', i, v)]
			yield START + [('remove', i, v)]
			yield START + [('extend', i, [v, 'n3', 'n3'])]
			for p in ([], [0], [1], [2], [0, 0], [-1], [0, -1], [2, 0]):
				yield START + [('path', i, p, v, 'set')]
				yield START + [('path', i, p, v, 'del')]
	for i in range(5):
		for op in ('detach', 'disown', 'prune', 'pop0', 'foreign'):
			yield START + [(op, i)]
		yield START + [('spliceabove', i, 1)]
		yield START + [('splicebelow', i, 1)]
	for kids in (['n3', 'n3'], ['n4', 3, 'n4'], ['n0'], ['n3', 'n0']):
		yield START + [('new', 0, kids), ('append', 2, 'n3')]


@section('single', gen_single, 'every mutator on a fixed pool of five nodes '
		'with all indices and slice bounds from beyond the start to beyond '
		'the end', 1, functions=('ParentedTree.*', 'slice_bounds'))
def single(case):
	return run(case)


def gen_histories(rng, tier):
	while True:
		n = rng.choice([2, 3, 4, 6, 8])
		ops = [] if rng.random() < .3 else list(START)
		if not ops:
			for j in range(n):
				ops.append(('new', rng.randrange(3),
						rng.choice([[], [0], [1, 'a']])))
		for _ in range(rng.choice([3, 6, 10, 20, 30])):
			ops.append(rop(rng, max(n, 5)))
		yield ops


@section('histories', gen_histories, 'random histories of up to 30 mutations '
		'on up to 8 initial nodes, every parent link and children list '
		'compared to a model with plain lists after every step', 3,
		functions=('ParentedTree.*', ))
def histories(case):
	return run(case)


def gen_bounds(rng, tier):
	S = [None] + list(range(-7, 8))
	for n in range(6):
		for a in S:
			for b in S:
				for step in (None, 1):
					yield (n, a, b, step)
		yield (n, 0, 1, 2)


@section('slice_bounds', gen_bounds, 'all sequences up to length 5, all '
		'bounds -7..7 and None', .2, functions=('slice_bounds', ))
def bounds(case):
	n, a, b, step = case
	if step not in (None, 1):
		try:
			slice_bounds(list(range(n)), slice(a, b, step))
		except ValueError:
			return False
		fail('step-accepted', case)
	start, stop, st = slice_bounds(list(range(n)), slice(a, b, step))
	s0, e0, _ = slice(a, b).indices(n)
	require(0 <= start <= stop <= n and st == 1, 'range', (case, start, stop))
	equal(list(range(n))[start:stop], list(range(n))[a:b], 'bounds', case)
	return True


def gen_imm(rng, tier):
	for ops in range(16):
		yield ops


@section('immutableparented', gen_imm, 'all mutators on frozen parented '
		'trees', .1, functions=('ImmutableParentedTree', ))
def imm(n):
	t = ParentedTree('S', [ParentedTree('A', [0]), 1,
			ParentedTree('B', [ParentedTree('C', [2])])]).freeze()
	before = repr(t)
	x = ParentedTree('Z', [3])
	ops = [lambda: t.append(x), lambda: t.extend([x]),
			lambda: t.insert(0, x), lambda: t.pop(), lambda: t.pop(0),
			lambda: t.remove(t[0]), lambda: t.__setitem__(0, x),
			lambda: t.__setitem__(slice(0, 1), [x]),
			lambda: t.__delitem__(0), lambda: t.__delitem__(slice(0, 1)),
			lambda: t[0].detach(), lambda: t[0].disown(),
			lambda: t[0].prune(), lambda: t[0].spliceabove('Q'),
			lambda: t[0].splicebelow('Q'), lambda: t.__setitem__((2, 0), x)]
	try:
		ops[n]()
	except ValueError:
		pass
	else:
		fail('accepted-%d' % n, 'mutator %d on frozen tree' % n)
	equal(repr(t), before, 'changed', n)
	require(x.parent is None, 'parent-link', n)
	for node in t.subtrees():
		for child in node:
			if isinstance(child, Tree):
				require(child.parent is node, 'parent-link', n)


if __name__ == '__main__':
	main()
