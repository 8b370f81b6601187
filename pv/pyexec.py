"""Deductive verification of Python functions by symbolic execution.

The text that is verified is the AST of the function in /repo, parsed anew on
every run. Statements are executed symbolically, splitting paths at branches;
loops are cut by invariants given in a sidecar contract; calls are either
inlined (the callee's current AST is executed as well) or replaced by a
contract. Every claim becomes an Obligation (see vc.py) which must be
discharged by an SMT solver. Anything outside the supported subset raises
Unsupported: the function is then reported as outside reach.

Values: Python integers are mathematical integers. Objects live in a heap of
z3 arrays; a universal datatype V represents values stored in it.
"""
import os
import ast
import itertools
import z3
from . import vc
from .vc import Obligation, Unsupported

REPO = os.environ.get('VERIF_REPO', '/repo')

# --- logic -----------------------------------------------------------------
Str = z3.DeclareSort('Str')
_V = z3.Datatype('V')
_V.declare('none')
_V.declare('vbool', ('of_bool', z3.BoolSort()))
_V.declare('vint', ('of_int', z3.IntSort()))
_V.declare('vreal', ('of_real', z3.RealSort()))
_V.declare('vstr', ('of_str', Str))
_V.declare('vref', ('of_ref', z3.IntSort()))
_V.declare('vnil')
_V.declare('vcons', ('of_hd', _V), ('of_tl', _V))
V = _V.create()
V.b, V.i, V.r, V.s = V.of_bool, V.of_int, V.of_real, V.of_str
V.ref, V.hd, V.tl = V.of_ref, V.of_hd, V.of_tl
Int, Bool = z3.IntSort(), z3.BoolSort()
clsof = z3.Function('clsof', Int, Int)
idof = z3.Function('idof', V, Int)
pyeq = z3.Function('pyeq', V, V, Bool)   # == on values with an own __eq__
pylt = z3.Function('pylt', V, V, Bool)   # < on abstract values
_cnt = itertools.count()


def forall(vs, body, patterns=()):
	"""Universal quantifier; patterns that z3 does not accept are dropped."""
	ok = [p for p in patterns if not isinstance(p, z3.PatternRef)
			and not hasite(p)]
	ok += [p for p in patterns if isinstance(p, z3.PatternRef)
			and not any(hasite(p.arg(i)) for i in range(p.num_args()))]
	if ok:
		try:
			return z3.ForAll(vs, body, patterns=ok)
		except z3.Z3Exception:
			pass
	return z3.ForAll(vs, body)


def hasite(e, memo={}):
	key = e.get_id()
	if key in memo:
		return memo[key][0]
	res = z3.is_app(e) and (e.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND,
			z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ)
			or any(hasite(c) for c in e.children()))
	memo[key] = (res, e)
	return res


def fresh(sort, name='x'):
	return z3.Const('%s!%d' % (name, next(_cnt)), sort)


_literals = {}


def strlit(s):
	"""Constant for a string literal; different literals are distinct."""
	if s not in _literals:
		_literals[s] = z3.Const('str_%d_%s' % (len(_literals), ''.join(
				c for c in s if c.isalnum() and c.isascii())), Str)
	return _literals[s]


def background():
	"""Facts about literals."""
	lits = list(_literals.values())
	return [z3.Distinct(*lits)] if len(lits) > 1 else []


# --- values ----------------------------------------------------------------
class Val(object):
	pass


class SNone(Val):
	pass


class _E(Val):
	def __init__(self, e):
		self.e = e


class SInt(_E):
	def __init__(self, e):
		self.e = z3.IntVal(e) if isinstance(e, int) else e


class SBool(_E):
	def __init__(self, e):
		self.e = z3.BoolVal(e) if isinstance(e, bool) else e


class SReal(_E):
	pass


class SStr(_E):
	pass


class SDyn(_E):
	"""Value of unknown kind."""


class SRef(Val):
	def __init__(self, e, cls):
		self.e, self.cls = e, cls


class STup(Val):
	def __init__(self, items):
		self.items = list(items)


class SSlice(Val):
	def __init__(self, a, b, c):
		self.a, self.b, self.c = a, b, c


class SFunc(Val):
	def __init__(self, node, qual, mod, cls=None, frame=None):
		self.node, self.qual, self.mod = node, qual, mod
		self.cls, self.frame = cls, frame


class SBound(Val):
	def __init__(self, recv, name, cls=None):
		self.recv, self.name, self.cls = recv, name, cls


class SClass(Val):
	def __init__(self, name):
		self.name = name


class SName(Val):
	"""A builtin or imported name."""
	def __init__(self, name):
		self.name = name


class SRange(Val):
	def __init__(self, lo, hi, step):
		self.lo, self.hi, self.step = lo, hi, step


class SIter(Val):
	"""enumerate / zip / reversed over other iterables."""
	def __init__(self, kind, args, start=None):
		self.kind, self.args, self.start = kind, args, start


class SSeq(Val):
	"""An immutable sequence given by length and elements (a parameter)."""
	def __init__(self, n, get):
		self.n, self.get = n, get


class SSuper(Val):
	def __init__(self, recv, cls):
		self.recv, self.cls = recv, cls


class Exc(Val):
	"""An exception that is propagating."""
	def __init__(self, name, msg=''):
		self.name, self.msg = name, msg


def toV(v):
	if isinstance(v, (SDyn, SPure)):
		return v.e
	if isinstance(v, SNone):
		return V.none
	if isinstance(v, SInt):
		return V.vint(v.e)
	if isinstance(v, SBool):
		return V.vbool(v.e)
	if isinstance(v, SReal):
		return V.vreal(v.e)
	if isinstance(v, SStr):
		return V.vstr(v.e)
	if isinstance(v, SRef):
		return V.vref(v.e)
	if isinstance(v, STup):
		e = V.vnil
		for x in reversed(v.items):
			e = V.vcons(toV(x), e)
		return e
	raise Unsupported('value %s in the heap' % type(v).__name__)


KINDS = dict(int=lambda e: SInt(V.i(e)), bool=lambda e: SBool(V.b(e)),
		real=lambda e: SReal(V.r(e)), str=lambda e: SStr(V.s(e)),
		dyn=SDyn)
TESTERS = dict(int=V.is_vint, bool=V.is_vbool, real=V.is_vreal,
		str=V.is_vstr)


def typed(e, kind):
	"""Engine value for a V expression of a declared kind."""
	if kind in KINDS:
		return KINDS[kind](e)
	if kind == 'none':
		return SNone()
	if kind.startswith('tuple'):  # tuple:kind,kind
		items = []
		for k in kind[6:].split(','):
			items.append(typed(V.hd(e), k))
			e = V.tl(e)
		return STup(items)
	return SRef(V.ref(e), kind)


def kindof(v):
	for k, c in (('int', SInt), ('bool', SBool), ('real', SReal),
			('str', SStr), ('dyn', SDyn), ('none', SNone)):
		if isinstance(v, c):
			return k
	if isinstance(v, SRef):
		return v.cls
	if isinstance(v, STup):
		return 'tuple:' + ','.join(kindof(x) for x in v.items)
	return None


def kindfact(e, kind):
	"""What a declared kind says about a V expression."""
	if kind in TESTERS:
		return TESTERS[kind](e)
	if kind == 'dyn':
		return z3.BoolVal(True)
	if kind == 'none':
		return V.is_none(e)
	if kind.startswith('tuple'):
		facts = []
		for k in kind[6:].split(','):
			facts.append(V.is_vcons(e))
			facts.append(kindfact(V.hd(e), k))
			e = V.tl(e)
		return z3.And(facts + [V.is_vnil(e)])
	return z3.And(V.is_vref(e), V.ref(e) > 0)


# --- state -----------------------------------------------------------------
SORTS = {
	'llen': (Int, Int), 'lget': (Int, z3.ArraySort(Int, V)),
	'ddom': (Int, z3.ArraySort(V, Bool)), 'dmap': (Int, z3.ArraySort(V, V)),
	'dsize': (Int, Int), 'sdom': (Int, z3.ArraySort(V, Bool)),
	'ssize': (Int, Int), 'hmem': (Int, z3.ArraySort(Int, Bool)),
	'lseq': (Int, z3.SeqSort(V)),
	'dver': (Int, Int),  # ghost: version of a dictionary
	'hpos': (Int, Int),  # ghost: position of an entry in its heap
	# two-dimensional array of integers
	'mget': (Int, z3.ArraySort(Int, z3.ArraySort(Int, Int))),
	'mrows': (Int, Int), 'mcols': (Int, Int),
}


def fieldsort(name):
	if name in SORTS:
		return z3.ArraySort(*SORTS[name])
	return z3.ArraySort(Int, V)


class Heap(object):
	"""Immutable snapshot-able heap: field name -> array."""
	def __init__(self, fields=None, alloc=None):
		self.f = dict(fields or {})
		self.alloc = alloc

	def __getitem__(self, name):
		if name not in self.f:
			# the initial value of a field has a fixed name
			self.f[name] = z3.Const('h_%s' % name, fieldsort(name))
		return self.f[name]

	def __setitem__(self, name, val):
		self.f[name] = val

	def copy(self):
		return Heap(self.f, self.alloc)


class State(object):
	def __init__(self):
		self.frames = {}
		self.cur = None
		self.heap = Heap()
		self.path = []
		self.out = None     # ref of list of yielded values
		self.trail = []     # line numbers of decisions, for messages
		self.ghost = {}

	def fork(self):
		s = State.__new__(State)
		s.frames = {k: dict(v) for k, v in self.frames.items()}
		s.cur = self.cur
		s.heap = self.heap.copy()
		s.path = list(self.path)
		s.out = self.out
		s.trail = list(self.trail)
		s.ghost = dict(self.ghost)
		return s

	@property
	def env(self):
		return self.frames[self.cur]

	def assume(self, *facts):
		for f in facts:
			if not z3.is_true(f):
				self.path.append(f)


def hasquant(e, memo={}):
	key = e.get_id()
	if key in memo:
		return memo[key][0]
	res = z3.is_quantifier(e) or any(hasquant(c) for c in e.children())
	memo[key] = (res, e)
	return res


_checks = [0, 0.0]


def feasible(st, extra=None, full=False):
	"""False only if the path condition is contradictory.

	:param full: use quantified facts as well; otherwise a cheap check."""
	import time
	t = time.time()
	s = z3.Solver()
	s.set('timeout', 3000 if full else 300)
	for f in st.path:
		if full or not hasquant(f):
			s.add(f)
	if extra is not None:
		s.add(extra)
	for f in background():
		s.add(f)
	res = s.check()
	_checks[0] += 1
	_checks[1] += time.time() - t
	return res != z3.unsat


# --- program text ----------------------------------------------------------
class Module(object):
	def __init__(self, path):
		self.path = path
		with open(os.path.join(REPO, path), encoding='utf8') as inp:
			self.tree = ast.parse(inp.read())
		self.classes, self.funcs, self.assigns, self.imports = {}, {}, {}, {}
		self.fallbacks = {}  # functions defined when an import fails
		for node in self.tree.body:
			self._top(node)

	def _top(self, node):
		if isinstance(node, ast.ClassDef):
			self.classes[node.name] = node
		elif isinstance(node, ast.FunctionDef):
			self.funcs[node.name] = node
		elif isinstance(node, ast.Assign):
			for t in node.targets:
				if isinstance(t, ast.Name):
					self.assigns[t.id] = node.value
				elif isinstance(t, ast.Tuple):
					for n, x in enumerate(t.elts):
						if isinstance(x, ast.Name):
							self.assigns[x.id] = (node.value, n)
		elif isinstance(node, (ast.Import, ast.ImportFrom)):
			for a in node.names:
				self.imports[a.asname or a.name.split('.')[0]] = (
						getattr(node, 'module', None), a.name)
		elif isinstance(node, (ast.Try, ast.If)):
			for x in node.body:
				self._top(x)
			for h in getattr(node, 'handlers', ()):
				for x in h.body:
					if isinstance(x, ast.FunctionDef):
						self.fallbacks[x.name] = x


EXCEPTIONS = {
	'IndexError': 'LookupError', 'KeyError': 'LookupError',
	'LookupError': 'Exception', 'ValueError': 'Exception',
	'TypeError': 'Exception', 'AttributeError': 'Exception',
	'AssertionError': 'Exception', 'StopIteration': 'Exception',
	'NotImplementedError': 'RuntimeError', 'RuntimeError': 'Exception',
	'UnboundLocalError': 'Exception', 'ZeroDivisionError': 'Exception',
	'Exception': 'BaseException', 'BaseException': None}


def subexc(name, base):
	while name is not None:
		if name == base:
			return True
		name = EXCEPTIONS.get(name, None)
	return False


class LoopSpec(object):
	"""Invariant of a loop.

	:param inv: function S -> list of (name, formula).
	:param modifies: heap fields changed by the loop: a name, or a pair
		(name, function S -> refs) when only these objects' fields change.
	:param kinds: kinds of local variables at the loop head, when these differ
		from the kind at loop entry; 'undef' for variables not yet assigned.
	:param ghost: function(S) called at the end of each iteration.
	:param lemmas: function S -> (claims, facts): the claims are proved before
		the loop and justify the facts (definitions of ghost functions).
	:param ghosts: {name: (init, update)} ghost variables, st.ghost[name];
		init(S) and update(S) give the terms at loop entry and at the end of
		an iteration (update sees the values of the iteration).
	:param forget: drop quantified facts at the loop head, except for those of
		the precondition; what is needed must be part of the invariant."""
	def __init__(self, inv, modifies=(), kinds=None, unroll=None,
			ghost=None, lemmas=None, allocs=False, ghosts=None,
			forget=False):
		self.ghosts = ghosts or {}
		self.forget = forget
		self.inv, self.modifies = inv, modifies
		self.allocs = allocs
		self.kinds = kinds or {}
		self.unroll = unroll
		self.ghost = ghost
		self.lemmas = lemmas


class View(object):
	"""What an invariant or postcondition may refer to."""
	def __init__(self, eng, st, **kw):
		self.eng, self.st = eng, st
		self.h = st.heap
		self.__dict__.update(kw)

	def __getitem__(self, name):
		env = self.st.env
		if name not in env:
			raise Unsupported('contract refers to local %r, which does not '
					'exist' % name)
		return env[name]

	def e(self, name):
		v = self[name]
		if not hasattr(v, 'e'):
			raise Unsupported('local %r has an unexpected kind (%s)' % (name,
					type(v).__name__))
		return v.e

	def v(self, name):
		return toV(self[name])

	def name(self, e, name='t'):
		"""A constant equal to an expression (keeps formulas small)."""
		c = fresh(e.sort(), name)
		self.st.assume(c == e)
		return c

	def eng_int(self, v):
		return V.i(v.e) if isinstance(v, SDyn) else v.e

	def int(self, name):
		v = self[name]
		return V.i(v.e) if isinstance(v, SDyn) else self.e(name)

	def ref(self, name):
		v = self[name]
		return V.ref(v.e) if isinstance(v, SDyn) else self.e(name)


class Case(object):
	"""One case of a contract: precondition and postconditions.

	:param setup: function(eng, st) -> (args, kwargs) assumes the
		precondition in st.
	:param post: function(P) -> list of (name, formula); P is a View of the
		final state with attributes old (heap), result, args.
	:param raises: {exception name: function(P) -> list of (name, formula)}
		exceptions which may be raised; others must be impossible."""
	def __init__(self, name, setup, post=None, raises=None, axioms=(),
			generator=False):
		self.name, self.setup, self.post = name, setup, post
		self.raises = raises or {}
		self.axioms = axioms
		self.generator = generator


class Contract(object):
	def __init__(self, name, cases, timeout=None):
		self.name = name
		self.path, self.qual = name.split(':')
		self.cases = cases
		self.timeout = timeout


class Engine(object):
	"""Verifies functions.

	:param classes: names of classes that objects can have: name -> list of
		(path, class name) in method resolution order.
	:param attrs: (class, attribute) -> kind.
	:param callees: qualified name -> function(eng, st, args) -> generator of
		(st, value or Exc): contracts used instead of bodies.
	:param loops: (qualname, n) -> LoopSpec."""
	def __init__(self, classes=None, attrs=None, callees=None, loops=None,
			dynclasses=(), pure=None, names=None, listmode='array',
			maxpaths=3000, maxdepth=12, refeq='abstract', dynorder=None,
			abstractorder=False, dynarith=None, bits=None, fmtvalues=None,
			dictdefault=None):
		self.classes = classes or {}
		self.attrs = attrs or {}
		self.callees = callees or {}
		self.loops = loops or {}
		self.dynclasses = dynclasses
		self.nested = 0
		self.pure = pure or {}
		self.names = names or {}
		self.mods = {}
		self.listmode = listmode
		self.refeq, self.dynorder = refeq, dynorder
		self.abstractorder, self.dynarith = abstractorder, dynarith
		self.bits, self.fmtvalues = bits, fmtvalues
		self.dictdefault = dictdefault
		self.obs = []
		self.maxpaths = maxpaths
		self.maxdepth = maxdepth
		self.depth = 0
		self.npaths = 0
		self.classids = {}
		self.usedloops = set()
		self.curname = ''
		self.dictorder = None

	# --- program lookup
	def mod(self, path):
		if path not in self.mods:
			self.mods[path] = Module(path)
		return self.mods[path]

	def classid(self, name):
		if name not in self.classids:
			self.classids[name] = len(self.classids) + 1
		return z3.IntVal(self.classids[name])

	def isinst(self, ref, name):
		"""Formula: the object is an instance of the named class."""
		subs = [c for c, mro in self.classes.items()
				if any(m[1] == name for m in mro) or c == name]
		if not subs:
			subs = [name]
		return z3.Or([clsof(ref) == self.classid(c) for c in subs])

	def subclass(self, cls, name):
		return cls == name or any(m[1] == name
				for m in self.classes.get(cls, ()))

	def findmethod(self, cls, name, after=None):
		"""(module, class name, node) of a method or property."""
		mro = self.classes.get(cls, ())
		seen = after is None
		for path, c in mro:
			if not seen:
				seen = c == after
				continue
			node = self.mod(path).classes.get(c)
			if node is None:
				raise Unsupported('class %s not found in %s' % (c, path))
			for item in node.body:
				if (isinstance(item, ast.FunctionDef) and item.name == name):
					return self.mod(path), c, item
				if isinstance(item, ast.Assign) and any(
						isinstance(t, ast.Name) and t.id == name
						for t in item.targets):
					return self.mod(path), c, item
		return None

	# --- obligations
	def oblige(self, st, name, goal, where='', without=(), about=None):
		"""Add an obligation.

		:param without: leave out assumptions with these symbols.
		:param about: use only quantified assumptions with one of these."""
		path = st.path
		if without:
			path = [a for a in path if not vc.symbols(a) & set(without)]
		if about is not None:
			path = [a for a in path if not vc.hasquant(a) or vc.symbols(a)
					& set(about)]
		self.obs.append(Obligation(self.curname, name, path, goal,
				where=where, timeout=self.timeout))

	def obligeall(self, st, pairs, where=''):
		for name, goal in pairs:
			self.oblige(st, name, goal, where)

	# --- verification of one contract
	def verify(self, contract):
		self.timeout = contract.timeout
		mod = self.mod(contract.path)
		parts = contract.qual.split('.')
		cls = None
		if len(parts) == 2:
			cls = parts[0]
			cnode = mod.classes.get(cls)
			if cnode is None and cls in mod.funcs:
				cnode, cls = mod.funcs[cls], None  # nested function
			if cnode is None:
				raise Unsupported('no class %s' % cls)
			found = [x for x in cnode.body if isinstance(x, ast.FunctionDef)
					and x.name == parts[1]]
		else:
			found = [x[parts[0]] for x in (mod.fallbacks, mod.funcs)
					if parts[0] in x]
		if not found:
			raise Unsupported('no function %s' % contract.qual)
		node = found[-1]
		for case in contract.cases:
			self.curname = contract.name + (
					'/' + case.name if case.name else '')
			self.npaths = 0
			st = State()
			st.heap.alloc = z3.Const('alloc0', Int)
			st.assume(st.heap.alloc > 0)
			st.assume(*case.axioms)
			args, kwargs = case.setup(self, st)
			if case.generator:
				out = self.newlist(st)
				st.out = out.e
			old = st.heap.copy()
			self.entryheap = old
			self.entryargs = args
			self.npre = len(st.path)
			fn = SFunc(node, contract.qual, mod, cls)
			n = 0
			for s, res in self.callfunc(fn, args, kwargs, st, top=True):
				n += 1
				p = View(self, s, old=old, result=res, args=args,
						case=case)
				where = 'path %d %s' % (n, ','.join(map(str, s.trail[-12:])))
				if isinstance(res, Exc):
					if res.name in case.raises:
						self.obligeall(s, [('raises %s: %s' % (res.name, nm),
								g) for nm, g in case.raises[res.name](p)],
								where)
					else:
						self.oblige(s, 'does not raise %s (%s)' % (res.name,
								res.msg), z3.BoolVal(False), where)
				elif case.post is not None:
					self.obligeall(s, case.post(p), where)
			if n == 0:
				raise Unsupported('no path through %s' % self.curname)

	# --- calls
	def callfunc(self, fn, args, kwargs, st, top=False):
		"""Execute a function body; yields (state, value or Exc)."""
		if not top and fn.qual in self.callees:
			for x in self.callees[fn.qual](self, st, args, kwargs):
				yield x
			return
		if self.depth > self.maxdepth:
			raise Unsupported('inlining too deep at %s' % fn.qual)
		node = fn.node
		a = node.args
		env = {}
		names = [x.arg for x in a.posonlyargs + a.args]
		if len(args) > len(names) and a.vararg is None:
			yield st, Exc('TypeError', 'too many arguments for %s' % fn.qual)
			return
		for name, val in zip(names, args):
			env[name] = val
		if a.vararg is not None:
			env[a.vararg.arg] = STup(args[len(names):])
		if a.kwarg is not None:
			from . import pylib
			if any(x not in names + [y.arg for y in a.kwonlyargs] + ['**']
					for x in kwargs):
				raise Unsupported('** parameter')
			# a contract may supply the dictionary as argument **
			kwargs = dict(kwargs)
			env[a.kwarg.arg] = (kwargs.pop('**') if '**' in kwargs
					else pylib.newdict(self, st))
		for name, val in kwargs.items():
			if name not in names + [x.arg for x in a.kwonlyargs]:
				raise Unsupported('keyword argument %s' % name)
			env[name] = val
		defaults = dict(zip(names[::-1], a.defaults[::-1]))
		for x, d in zip(a.kwonlyargs, a.kw_defaults):
			names.append(x.arg)
			if d is not None:
				defaults[x.arg] = d
		frame = 'f%d' % next(_cnt)
		st.frames[frame] = env
		env['__parent__'] = fn.frame
		env['__fn__'] = fn
		caller = st.cur
		st.cur = frame
		for name in names:
			if name not in env:
				if name not in defaults:
					st.cur = caller
					yield st, Exc('TypeError', 'missing argument %s' % name)
					return
				vals = list(self.ev(defaults[name], st))
				if len(vals) != 1 or isinstance(vals[0][1], Exc):
					raise Unsupported('default argument')
				env = st.env
				env[name] = vals[0][1]
		isgen = any(isinstance(x, (ast.Yield, ast.YieldFrom))
				for x in _walkfn(node))
		if isgen and not top:
			raise Unsupported('call of generator %s' % fn.qual)
		self.depth += 1
		try:
			if isinstance(node, ast.Lambda):
				for s, v in self.ev(node.body, st):
					s.cur = caller
					yield s, v
				return
			for s, o in self.block(node.body, st):
				if not top:
					s.cur = caller
				if o is None:
					yield s, SNone()
				elif o[0] == 'return':
					yield s, o[1]
				elif o[0] == 'raise':
					yield s, o[1]
				else:
					raise Unsupported('%s outside loop' % o[0])
		finally:
			self.depth -= 1

	def callmethod(self, recv, name, args, kwargs, st, after=None):
		"""Call recv.name(*args)."""
		if isinstance(recv, SDyn):
			for s, r in self.narrow(recv, name, st):
				if isinstance(r, Exc):
					yield s, r
					continue
				for x in self.callmethod(r, name, args, kwargs, s):
					yield x
			return
		if isinstance(recv, SRef) and recv.cls in self.classes:
			found = self.findmethod(recv.cls, name, after)
			if found is None:
				yield st, Exc('AttributeError', name)
				return
			mod, cname, node = found
			if isinstance(node, ast.Assign):
				raise Unsupported('calling attribute %s' % name)
			fn = SFunc(node, '%s.%s' % (cname, name), mod, cname)
			decs = [d.id for d in node.decorator_list
					if isinstance(d, ast.Name)]
			if 'staticmethod' in decs:
				first = []
			elif 'classmethod' in decs:
				first = [SClass(recv.cls)]
			else:
				first = [recv]
			for x in self.callfunc(fn, first + list(args), kwargs, st):
				yield x
			return
		if name.startswith('__') and name.endswith('__'):
			for x in self.dunder(recv, name, args, st):
				yield x
			return
		key = (recv.cls if isinstance(recv, SRef)
				else type(recv).__name__, name)
		from . import pylib
		fn = (self.callees.get('%s.%s' % key) or pylib.METHODS.get(key)
				or self.pure.get(name))
		if fn is None:
			raise Unsupported('method %s of %s' % (name, key[0]))
		for x in fn(self, st, recv, list(args), kwargs):
			yield x

	def dunder(self, recv, name, args, st):
		if name == '__len__':
			return self.length(recv, st)
		if name == '__getitem__':
			return self.getitem(recv, args[0], st)
		if name == '__setitem__':
			return self.setitem(recv, args[0], args[1], st)
		if name == '__delitem__':
			return self.delitem(recv, args[0], st)
		if name == '__iter__':
			return iter([(st, recv)])
		if name == '__contains__':
			return self.contains(args[0], recv, st)
		raise Unsupported('%s of %s' % (name, type(recv).__name__))

	def narrow(self, val, attr, st):
		"""Resolve an attribute or method of a value of unknown class."""
		found = [cls for cls in self.dynclasses if self.hasattr(cls, attr)]
		if not found:
			if attr in self.pure:
				yield st, SPure(val.e)
				return
			raise Unsupported('attribute %s of a value of unknown kind' % attr)
		todo = [st]
		for cls in found:
			if not todo:
				break
			ok = z3.And(V.is_vref(val.e), self.isinst(V.ref(val.e), cls))
			rest = []
			for s, b in self.split(todo[0], ok):
				if b:
					yield s, SRef(V.ref(val.e), cls)
				else:
					rest.append(s)
			todo = rest
		for s in todo:
			yield s, Exc('AttributeError', attr)

	def hasattr(self, cls, attr):
		if (cls, attr) in self.attrs:
			return True
		if cls in ('list', 'dict', 'set', 'heapq'):
			from . import pylib
			return (cls, attr) in pylib.METHODS
		if cls not in self.classes:
			return any('%s.%s' % (cls, x) in self.callees
					for x in (attr, '*'))
		return self.findmethod(cls, attr) is not None

	def known(self, st, cond):
		"""Whether a condition follows from the path condition."""
		return not feasible(st, z3.Not(cond))

	def split(self, st, cond):
		"""Fork on a condition; infeasible sides are dropped."""
		cond = z3.simplify(cond)
		if z3.is_true(cond):
			yield st, True
			return
		if z3.is_false(cond):
			yield st, False
			return
		self.npaths += 1
		if self.npaths > self.maxpaths:
			raise Unsupported('too many paths')
		a, b = st.fork(), st
		if feasible(st, cond):
			a.assume(cond)
			yield a, True
		b.assume(z3.Not(cond))
		if feasible(b):
			yield b, False

	# --- statements
	def block(self, stmts, st):
		if not stmts:
			yield st, None
			return
		for s, o in self.stmt(stmts[0], st):
			if o is None:
				for x in self.block(stmts[1:], s):
					yield x
			else:
				yield s, o

	def stmt(self, node, st):
		m = getattr(self, 's_' + type(node).__name__, None)
		if m is None:
			raise Unsupported('statement %s (line %d)' % (
					type(node).__name__, node.lineno))
		return m(node, st)

	def s_Pass(self, node, st):
		yield st, None

	s_Global = s_Nonlocal = s_Pass

	def s_Expr(self, node, st):
		if isinstance(node.value, ast.Constant):
			yield st, None
			return
		for s, v in self.ev(node.value, st):
			yield s, (('raise', v) if isinstance(v, Exc) else None)

	def s_Return(self, node, st):
		if node.value is None:
			yield st, ('return', SNone())
			return
		for s, v in self.ev(node.value, st):
			yield s, (('raise', v) if isinstance(v, Exc) else ('return', v))

	def s_Assign(self, node, st):
		for s, v in self.ev(node.value, st):
			if isinstance(v, Exc):
				yield s, ('raise', v)
				continue
			for x in self.assignall(node.targets, v, s):
				yield x

	def assignall(self, targets, v, st):
		if not targets:
			yield st, None
			return
		for s, o in self.assign(targets[0], v, st):
			if o is not None:
				yield s, o
				continue
			for x in self.assignall(targets[1:], v, s):
				yield x

	def assign(self, target, v, st):
		if isinstance(target, ast.Name):
			if isinstance(v, SInt) and hasite(v.e):
				e = fresh(Int, target.id)
				st.assume(e == v.e)
				v = SInt(e)
			st.env[target.id] = v
			yield st, None
		elif isinstance(target, (ast.Tuple, ast.List)):
			for s, items in self.unpack(v, len(target.elts), st):
				if isinstance(items, Exc):
					yield s, ('raise', items)
					continue
				states = [(s, None)]
				for t, x in zip(target.elts, items):
					new = []
					for s1, o in states:
						if o is None:
							new.extend(self.assign(t, x, s1))
						else:
							new.append((s1, o))
					states = new
				for x in states:
					yield x
		elif isinstance(target, ast.Attribute):
			for s, r in self.ev(target.value, st):
				if isinstance(r, Exc):
					yield s, ('raise', r)
					continue
				for s1, o in self.setattr(r, target.attr, v, s):
					yield s1, (('raise', o) if isinstance(o, Exc) else None)
		elif isinstance(target, ast.Subscript):
			for s, vals in self.evs([target.value, target.slice], st):
				if isinstance(vals, Exc):
					yield s, ('raise', vals)
					continue
				for s1, o in self.setitem(vals[0], vals[1], v, s):
					yield s1, (('raise', o) if isinstance(o, Exc) else None)
		else:
			raise Unsupported('assignment to %s' % type(target).__name__)

	def unpack(self, v, n, st):
		if isinstance(v, STup):
			if len(v.items) == n:
				yield st, v.items
			else:
				yield st, Exc('ValueError', 'unpack')
			return
		if isinstance(v, SDyn):
			e, facts, items = v.e, [], []
			for _ in range(n):
				facts.append(V.is_vcons(e))
				items.append(SDyn(V.hd(e)))
				e = V.tl(e)
			facts.append(V.is_vnil(e))
			for s, b in self.split(st, z3.And(facts)):
				yield s, (items if b else Exc('ValueError', 'unpack'))
			return
		raise Unsupported('unpacking %s' % type(v).__name__)

	def s_AnnAssign(self, node, st):
		if node.value is None:
			yield st, None
			return
		for x in self.s_Assign(ast.Assign(targets=[node.target],
				value=node.value, lineno=node.lineno), st):
			yield x

	def s_AugAssign(self, node, st):
		load = ast.copy_location(_load(node.target), node)
		for s, vals in self.evs([load, node.value], st):
			if isinstance(vals, Exc):
				yield s, ('raise', vals)
				continue
			a, b = vals
			if (isinstance(a, SRef) and a.cls == 'list'
					and isinstance(node.op, ast.Add)):
				# in-place extension
				for s1, r in self.callmethod(a, 'extend', [b], {}, s):
					if isinstance(r, Exc):
						yield s1, ('raise', r)
						continue
					for x in self.assign(node.target, a, s1):
						yield x
				continue
			for s1, v in self.binop(node.op, a, b, s):
				if isinstance(v, Exc):
					yield s1, ('raise', v)
					continue
				for x in self.assign(node.target, v, s1):
					yield x

	def s_Delete(self, node, st):
		states = [(st, None)]
		for t in node.targets:
			new = []
			for s, o in states:
				if o is not None:
					new.append((s, o))
				elif isinstance(t, ast.Name):
					s.env.pop(t.id, None)
					new.append((s, None))
				elif isinstance(t, ast.Subscript):
					for s1, vals in self.evs([t.value, t.slice], s):
						if isinstance(vals, Exc):
							new.append((s1, ('raise', vals)))
							continue
						for s2, r in self.delitem(vals[0], vals[1], s1):
							new.append((s2, ('raise', r)
									if isinstance(r, Exc) else None))
				else:
					raise Unsupported('del %s' % type(t).__name__)
			states = new
		for x in states:
			yield x

	def s_If(self, node, st):
		for s, c in self.cond(node.test, st):
			if isinstance(c, Exc):
				yield s, ('raise', c)
				continue
			for s1, b in self.split(s, c):
				s1.trail.append(node.lineno if b else -node.lineno)
				for x in self.block(node.body if b else node.orelse, s1):
					yield x

	def s_Assert(self, node, st):
		for s, c in self.cond(node.test, st):
			if isinstance(c, Exc):
				yield s, ('raise', c)
				continue
			for s1, b in self.split(s, c):
				yield s1, (None if b else ('raise', Exc('AssertionError',
						'line %d' % node.lineno)))

	def s_Raise(self, node, st):
		if node.exc is None:
			cur = st.env.get('__exc__')
			if cur is None:
				raise Unsupported('raise without exception')
			yield st, ('raise', cur)
			return
		exc = node.exc
		if isinstance(exc, ast.Call):
			exc = exc.func
		if not isinstance(exc, ast.Name):
			raise Unsupported('raise of computed exception')
		yield st, ('raise', Exc(exc.id, 'line %d' % node.lineno))

	def s_Try(self, node, st):
		def final(s, o):
			if not node.finalbody:
				yield s, o
				return
			for s1, o1 in self.block(node.finalbody, s):
				yield s1, (o1 if o1 is not None else o)
		for s, o in self.block(node.body, st):
			if o is not None and o[0] == 'raise':
				for h in node.handlers:
					names = []
					if h.type is None:
						names = ['BaseException']
					elif isinstance(h.type, ast.Tuple):
						names = [x.id for x in h.type.elts]
					else:
						names = [getattr(h.type, 'id', None)]
					if any(subexc(o[1].name, n) for n in names):
						if h.name:
							s.env[h.name] = SNone()
						s.env['__exc__'] = o[1]
						for s1, o1 in self.block(h.body, s):
							for x in final(s1, o1):
								yield x
						break
				else:
					for x in final(s, o):
						yield x
			elif o is None and node.orelse:
				for s1, o1 in self.block(node.orelse, s):
					for x in final(s1, o1):
						yield x
			else:
				for x in final(s, o):
					yield x

	def s_FunctionDef(self, node, st):
		fn = st.env['__fn__']
		st.env[node.name] = SFunc(node, '%s.%s' % (fn.qual, node.name),
				fn.mod, fn.cls, st.cur)
		yield st, None

	def s_Import(self, node, st):
		for a in node.names:
			st.env[a.asname or a.name] = SName(a.asname or a.name)
		yield st, None

	s_ImportFrom = s_Import

	def s_Break(self, node, st):
		yield st, ('break', )

	def s_Continue(self, node, st):
		yield st, ('continue', )

	# --- loops
	def loopspec(self, node, st):
		fn = st.env['__fn__']
		loops = [x for x in _walkfn(fn.node)
				if isinstance(x, (ast.While, ast.For))]
		loops.sort(key=lambda x: (x.lineno, x.col_offset))
		n = [i for i, x in enumerate(loops) if x is node][0]
		spec = self.loops.get((fn.qual, n))
		if spec is not None:
			self.usedloops.add((fn.qual, n))
		return spec, fn.qual, n

	def s_While(self, node, st):
		spec, qual, n = self.loopspec(node, st)
		if spec is None:
			raise Unsupported('loop %d of %s (line %d) has no invariant' % (
					n, qual, node.lineno))

		def test(s, k):
			return self.cond(node.test, s)

		def enter(s, k):
			yield s, None
		return self.loop(node, st, spec, '%s loop %d' % (qual, n), test, enter,
				None)

	def s_For(self, node, st):
		for s, it in self.ev(node.iter, st):
			if isinstance(it, Exc):
				yield s, ('raise', it)
				continue
			for s1, it1 in self.iterable(it, s):
				if isinstance(it1, Exc):
					yield s1, ('raise', it1)
					continue
				for x in self.forloop(node, it1, s1):
					yield x

	def forloop(self, node, it, st):
		if isinstance(it, STup):
			for x in self.unrolled(node, it.items, st):
				yield x
			return
		spec, qual, n = self.loopspec(node, st)
		if spec is None:
			cnt = self.itercount(it, st)
			cnt = z3.simplify(cnt)
			if z3.is_int_value(cnt) and cnt.as_long() <= 8:
				items = [self.iterget(it, z3.IntVal(i), st)
						for i in range(cnt.as_long())]
				for x in self.unrolled(node, items, st):
					yield x
				return
			raise Unsupported('loop %d of %s (line %d) has no invariant' % (
					n, qual, node.lineno))

		def test(s, k):
			yield s, k < self.itercount(it, s)

		def enter(s, k):
			for x in self.assign(node.target, self.iterget(it, k, s), s):
				yield x
		for x in self.loop(node, st, spec, '%s loop %d' % (qual, n), test,
				enter, it):
			yield x

	def unrolled(self, node, items, st):
		if not items:
			for x in self.block(node.orelse, st):
				yield x
			return
		for s, o in self.assign(node.target, items[0], st):
			if o is not None:
				yield s, o
				continue
			for s1, o1 in self.block(node.body, s):
				if o1 is None or o1[0] == 'continue':
					for x in self.unrolled(node, items[1:], s1):
						yield x
				elif o1[0] == 'break':
					yield s1, None
				else:
					yield s1, o1

	def loop(self, node, st, spec, label, test, enter, it):
		fn = st.env['__fn__']
		entry = st.heap.copy()
		entryenv = dict(st.env)
		k0 = z3.IntVal(0)

		def view(s, k):
			return View(self, s, i=k, pre=entry, old=self.entryheap,
					preenv=entryenv, args=self.entryargs, it=it)
		if spec.lemmas is not None:
			claims, facts = spec.lemmas(view(st, k0))
			self.obligeall(st, [('%s: %s' % (label, nm), g)
					for nm, g in claims], 'line %d' % node.lineno)
			st.assume(*facts)
		for g, (init, _) in spec.ghosts.items():
			st.ghost[g] = init(view(st, k0))
		# 1. invariant holds on entry
		self.obligeall(st, [('%s: invariant on entry: %s' % (label, nm), g)
				for nm, g in spec.inv(view(st, k0))], 'line %d' % node.lineno)
		# 2. arbitrary iteration
		assigned = _assigned(node)
		body = st.fork()
		if spec.forget:
			n = self.npre
			body.path = body.path[:n] + [a for a in body.path[n:]
					if not vc.hasquant(a)]
		k = fresh(Int, 'k')
		body.assume(k >= 0)
		for g in spec.ghosts:
			body.ghost[g] = fresh(st.ghost[g].sort(), g)
		for name in sorted(assigned):
			kind = spec.kinds.get(name)
			if kind is None and name in body.env:
				kind = kindof(body.env[name])
				if kind is None:
					raise Unsupported('kind of %s at loop' % name)
			if kind is None or kind == 'undef':
				body.env.pop(name, None)
				continue
			e = fresh(V, name)
			body.assume(kindfact(e, kind))
			body.env[name] = typed(e, kind)
		if spec.allocs:
			alloc = fresh(Int, 'alloc')
			body.assume(alloc >= entry.alloc)
			body.heap.alloc = alloc
		modified = {}
		for m in spec.modifies:
			if isinstance(m, tuple):
				modified[m[0]] = m[1]
			else:
				modified[m] = None
		if 'ddom' in modified:
			modified['dver'] = None
		for f, refs in modified.items():
			new = fresh(fieldsort(f), 'h_' + f)
			body.heap[f] = new
			if refs is not None:
				body.assume(self.frame(entry, body.heap, f,
						refs(view(st, k0))))
		sizes = [f for f in ('llen', 'dsize', 'ssize') if f in modified]
		for f in sizes:
			r = z3.Int('r')
			body.assume(forall([r], body.heap[f][r] >= 0,
					patterns=[body.heap[f][r]]))
		if it is not None:
			body.assume(k <= self.itercount(it, body))
		if body.out is not None and 'llen' in modified:
			body.assume(body.heap['llen'][body.out] >= 0)
		body.assume(*[g for _, g in spec.inv(view(body, k))])
		head = body.heap.copy()
		for s, c in test(body, k):
			if isinstance(c, Exc):
				yield s, ('raise', c)
				continue
			for s1, b in self.split(s, c):
				s1.trail.append(node.lineno if b else -node.lineno)
				if not b:
					s1.ghost['exit ' + label] = k
					if node.orelse:
						for x in self.block(node.orelse, s1):
							yield x
					else:
						yield s1, None
					continue
				s1.ghost['iteration ' + label] = k
				for s2, o in enter(s1, k):
					if o is not None:
						yield s2, o
						continue
					for s3, o3 in self.block(node.body, s2):
						if o3 is None or o3[0] == 'continue':
							self.endbody(s3, spec, label, view, k, entry,
									head, modified, assigned, node)
						elif o3[0] == 'break':
							yield s3, None
						else:
							yield s3, o3

	def endbody(self, s, spec, label, view, k, entry, head, modified,
			assigned, node):
		for name in assigned:
			if name not in s.env:
				continue
			kind = spec.kinds.get(name)
			if kind is None:
				continue
			if kind not in ('dyn', 'undef') and kindof(s.env[name]) == 'dyn':
				e = s.env[name].e
				self.oblige(s, '%s: kind of %s' % (label, name),
						kindfact(e, kind), 'line %d' % node.lineno)
				s.env[name] = typed(e, kind)
			elif kind == 'dyn':
				s.env[name] = SDyn(toV(s.env[name]))
			elif kind != 'undef' and kindof(s.env[name]) != kind:
				raise Unsupported('%s: kind of %s is %s' % (label, name,
						kindof(s.env[name])))
		v = view(s, k + 1)
		v.head = head
		s.ghost.update({g: update(v) for g, (_, update)
				in spec.ghosts.items()})
		if not spec.allocs and not s.heap.alloc.eq(head.alloc):
			raise Unsupported('%s: the loop allocates' % label)
		for name in assigned:
			if name in v.preenv and name not in spec.kinds:
				if name in s.env and kindof(s.env[name]) != kindof(
						v.preenv[name]):
					raise Unsupported('%s: kind of %s changes (%s to %s)' % (
							label, name, kindof(v.preenv[name]),
							kindof(s.env[name])))
		if spec.ghost is not None:
			s.assume(*spec.ghost(v))
		self.obligeall(s, [('%s: invariant preserved: %s' % (label, nm), g)
				for nm, g in spec.inv(v)],
				'line %d path %s' % (node.lineno, ','.join(
				map(str, s.trail[-8:]))))
		for f in set(s.heap.f) | set(head.f):
			if f in modified:
				refs = modified[f]
				if refs is not None and not s.heap[f].eq(head[f]):
					self.oblige(s, '%s: frame of %s' % (label, f),
							self.frame(entry, s.heap, f,
							refs(view(s, k))), 'line %d' % node.lineno)
			elif not s.heap[f].eq(head[f]):
				# objects allocated by the body itself may differ
				r = z3.Int('r')
				self.oblige(s, '%s: frame of %s' % (label, f),
						forall([r], z3.Implies(r < head.alloc,
						s.heap[f][r] == head[f][r])),
						'line %d' % node.lineno)

	def frame(self, old, new, f, refs):
		r = z3.Int('r')
		return forall([r], z3.Implies(z3.And([r < old.alloc]
				+ [r != x for x in refs]), new[f][r] == old[f][r]),
				patterns=[new[f][r]])

	# --- iteration
	def iterable(self, it, st):
		if isinstance(it, (SRange, SIter, SSeq, STup)):
			yield st, it
		elif isinstance(it, SRef) and it.cls == 'list':
			yield st, it
		elif isinstance(it, SRef) and it.cls == 'dict':
			from . import pylib
			for x in pylib.d_keys(self, st, it, [], {}):
				yield x
		elif isinstance(it, SRef) and it.cls == 'set':
			from . import pylib
			n, arr = pylib.setelems(self, st, it.e)
			yield st, SSeq(n, lambda j: SDyn(arr[j]))
		elif isinstance(it, SRef) and it.cls + '.__iter__' in self.callees:
			for x in self.callees[it.cls + '.__iter__'](self, st, it, [], {}):
				yield x
		elif isinstance(it, SRef) and it.cls in self.classes:
			for s, r in self.callmethod(it, '__iter__', [], {}, st):
				if isinstance(r, Exc):
					yield s, r
				else:
					for x in self.iterable(r, s):
						yield x
		elif isinstance(it, SPure) and self.purehook('__iter__', it):
			for x in self.purehook('__iter__', it)(self, st, it, [], {}):
				yield x
		elif isinstance(it, SDyn):
			for s, r in self.narrow(it, '__iter__', st):
				if isinstance(r, Exc):
					yield s, Exc('TypeError', 'not iterable')
				else:
					for x in self.iterable(r, s):
						yield x
		else:
			raise Unsupported('iteration over %s' % kindof(it))

	def itercount(self, it, st):
		if isinstance(it, SRange):
			if it.step == 1:
				n = it.hi - it.lo
			elif it.step == -1:
				n = it.lo - it.hi
			else:
				raise Unsupported('range step')
			return z3.If(n > 0, n, z3.IntVal(0))
		if isinstance(it, SSeq):
			return it.n
		if isinstance(it, STup):
			return z3.IntVal(len(it.items))
		if isinstance(it, SIter):
			if it.kind in ('enumerate', 'reversed'):
				return self.itercount(it.args[0], st)
			if it.kind == 'zip':
				res = self.itercount(it.args[0], st)
				for x in it.args[1:]:
					n = self.itercount(x, st)
					res = z3.If(n < res, n, res)
				return res
		if isinstance(it, SRef) and it.cls == 'list':
			return st.heap['llen'][it.e]
		raise Unsupported('length of iterable')

	def iterget(self, it, k, st):
		if isinstance(it, SRange):
			return SInt(it.lo + k if it.step == 1 else it.lo - k)
		if isinstance(it, SSeq):
			return it.get(k)
		if isinstance(it, STup):
			i = z3.simplify(k)
			if z3.is_int_value(i):
				return it.items[i.as_long()]
		if isinstance(it, SIter):
			if it.kind == 'enumerate':
				return STup([SInt(k + it.start),
						self.iterget(it.args[0], k, st)])
			if it.kind == 'zip':
				return STup([self.iterget(x, k, st) for x in it.args])
			if it.kind == 'reversed':
				return self.iterget(it.args[0],
						self.itercount(it.args[0], st) - 1 - k, st)
		if isinstance(it, SRef) and it.cls == 'list':
			return self.loaded(st.heap['lget'][it.e][k], st)
		raise Unsupported('element of iterable')

	def loaded(self, e, st, kind='dyn'):
		"""A value read from the heap: references are allocated."""
		st.assume(z3.Implies(V.is_vref(e), z3.And(V.ref(e) > 0,
				V.ref(e) < st.heap.alloc)))
		if kind != 'dyn':
			st.assume(kindfact(e, kind))
		return typed(e, kind)

	# --- expressions
	def ev(self, node, st):
		"""Yields (state, value); the value may be Exc."""
		m = getattr(self, 'e_' + type(node).__name__, None)
		if m is None:
			raise Unsupported('expression %s (line %d)' % (
					type(node).__name__, node.lineno))
		return m(node, st)

	def evs(self, nodes, st):
		if not nodes:
			yield st, []
			return
		for s, v in self.ev(nodes[0], st):
			if isinstance(v, Exc):
				yield s, v
				continue
			for s1, rest in self.evs(nodes[1:], s):
				yield s1, (rest if isinstance(rest, Exc) else [v] + rest)

	def e_Constant(self, node, st):
		yield st, self.const(node.value)

	def const(self, c):
		if c is None:
			return SNone()
		if isinstance(c, bool):
			return SBool(c)
		if isinstance(c, int):
			return SInt(c)
		if isinstance(c, str):
			return SStr(strlit(c))
		if isinstance(c, float):
			return SReal(z3.RealVal(repr(c)))
		raise Unsupported('constant %r' % (c, ))

	def e_Name(self, node, st):
		yield st, self.lookup(node.id, st)

	def lookup(self, name, st):
		frame = st.cur
		while frame is not None:
			env = st.frames[frame]
			if name in env:
				return env[name]
			frame = env.get('__parent__')
		fn = st.env['__fn__']
		if name in self.names:
			return self.names[name]
		# assigned in this function, but not on this path
		if name in _assigned(fn.node):
			return Exc('UnboundLocalError', name)
		if name in self.classes:
			return SClass(name)
		mod = fn.mod
		return self.modname(mod, name)

	def modname(self, mod, name, depth=0):
		if name in mod.funcs:
			return SFunc(mod.funcs[name], name, mod)
		if name in mod.classes:
			return SClass(name)
		if name in mod.assigns:
			val = mod.assigns[name]
			if isinstance(val, ast.Constant):
				return self.const(val.value)
			if isinstance(val, tuple) and isinstance(val[0], ast.Call) and (
					getattr(val[0].func, 'id', '') == 'range'):
				return SInt(val[1])
			if isinstance(val, tuple) and isinstance(val[0], ast.Name):
				return self.modconst(mod, val)
			values = constset(val)
			if values is not None:
				return SSet([self.const(x) for x in sorted(values)])
			return SName(name)
		if name in mod.imports and depth < 4:
			src, orig = mod.imports[name]
			if src is not None:
				path = 'discodop/%s.py' % src.split('.')[-1]
				if os.path.exists(os.path.join(REPO, path)):
					return self.modname(self.mod(path), orig, depth + 1)
			return SName(orig)
		return SName(name)

	def modconst(self, mod, val):
		src = mod.assigns.get(val[0].id)
		# WORD, LEMMA, ... = FIELDS = tuple(range(8))
		if (isinstance(src, ast.Call) and getattr(src.func, 'id', '')
				== 'tuple'):
			return SInt(val[1])
		raise Unsupported('module constant')

	def e_Tuple(self, node, st):
		for s, vals in self.evs(node.elts, st):
			yield s, (vals if isinstance(vals, Exc) else STup(vals))

	def e_List(self, node, st):
		for s, vals in self.evs(node.elts, st):
			if isinstance(vals, Exc):
				yield s, vals
				continue
			yield s, self.newlist(s, [toV(v) for v in vals])

	def newlist(self, st, items=(), n=None, arr=None):
		r = self.alloc(st, 'list')
		if self.listmode == 'seq':
			seq = z3.Empty(z3.SeqSort(V)) if arr is None else arr
			for x in items:
				seq = z3.Concat(seq, z3.Unit(x))
			st.heap['lseq'] = z3.Store(st.heap['lseq'], r, seq)
			return SRef(r, 'list')
		if arr is None:
			arr = fresh(z3.ArraySort(Int, V), 'arr')
			for i, x in enumerate(items):
				arr = z3.Store(arr, i, x)
			n = z3.IntVal(len(items))
		st.heap['llen'] = z3.Store(st.heap['llen'], r, n)
		st.heap['lget'] = z3.Store(st.heap['lget'], r, arr)
		return SRef(r, 'list')

	def alloc(self, st, cls):
		r = fresh(Int, 'new')
		st.assume(r == st.heap.alloc, clsof(r) == self.classid(cls))
		a = fresh(Int, 'alloc')
		st.assume(a == r + 1, r > 0)
		st.heap.alloc = a
		return r

	def e_Dict(self, node, st):
		if node.keys:
			raise Unsupported('dict display')
		r = self.alloc(st, 'dict')
		st.heap['ddom'] = z3.Store(st.heap['ddom'], r, z3.K(V, False))
		st.heap['dsize'] = z3.Store(st.heap['dsize'], r, 0)
		yield st, SRef(r, 'dict')

	def e_Set(self, node, st):
		for s, vals in self.evs(node.elts, st):
			if isinstance(vals, Exc):
				yield s, vals
				continue
			yield s, SSet([v for v in vals])

	def e_BinOp(self, node, st):
		for s, vals in self.evs([node.left, node.right], st):
			if isinstance(vals, Exc):
				yield s, vals
				continue
			for x in self.binop(node.op, vals[0], vals[1], s):
				yield x

	def binop(self, op, a, b, st):
		from . import pylib
		return pylib.binop(self, op, a, b, st)

	def e_UnaryOp(self, node, st):
		if isinstance(node.op, ast.Not):
			for s, c in self.cond(node.operand, st):
				yield s, (c if isinstance(c, Exc) else SBool(z3.Not(c)))
			return
		for s, v in self.ev(node.operand, st):
			if isinstance(v, Exc):
				yield s, v
			elif isinstance(node.op, ast.USub) and isinstance(v, (SInt,
					SReal)):
				yield s, type(v)(-v.e)
			elif isinstance(node.op, ast.USub) and isinstance(v, SDyn):
				for s1, w in self.asint(v, s):
					yield s1, w if isinstance(w, Exc) else SInt(-w.e)
			elif isinstance(node.op, ast.Invert) and isinstance(v, SInt):
				yield s, SInt(-v.e - 1)
			else:
				raise Unsupported('unary operator')

	def e_BoolOp(self, node, st):
		return self.boolop(node.op, node.values, st)

	def boolop(self, op, values, st):
		"""Short-circuit evaluation; yields the deciding value."""
		for s, v in self.ev(values[0], st):
			if isinstance(v, Exc) or len(values) == 1:
				yield s, v
				continue
			for s0, c in self.truth(v, s):
				if isinstance(c, Exc):
					yield s0, c
					continue
				for s1, b in self.split(s0, c):
					if b == isinstance(op, ast.Or):
						yield s1, v
					else:
						for x in self.boolop(op, values[1:], s1):
							yield x

	def e_IfExp(self, node, st):
		for s, c in self.cond(node.test, st):
			if isinstance(c, Exc):
				yield s, c
				continue
			for s1, b in self.split(s, c):
				for x in self.ev(node.body if b else node.orelse, s1):
					yield x

	def e_NamedExpr(self, node, st):
		for s, v in self.ev(node.value, st):
			if not isinstance(v, Exc):
				s.env[node.target.id] = v
			yield s, v

	def e_Lambda(self, node, st):
		fn = st.env['__fn__']
		yield st, SFunc(node, fn.qual + '.<lambda>', fn.mod, fn.cls, st.cur)

	def e_Yield(self, node, st):
		if st.out is None:
			raise Unsupported('yield in inlined function')
		for s, v in self.ev(node.value, st):
			if isinstance(v, Exc):
				yield s, v
				continue
			from . import pylib
			pylib.listappend(self, s, s.out, toV(v))
			yield s, SNone()

	def e_Attribute(self, node, st):
		for s, r in self.ev(node.value, st):
			if isinstance(r, Exc):
				yield s, r
				continue
			for x in self.getattr(r, node.attr, s):
				yield x

	def getattr(self, r, attr, st):
		if isinstance(r, SSuper):
			yield st, SBound(r.recv, attr, r.cls)
			return
		if isinstance(r, SDyn):
			for s, x in self.narrow(r, attr, st):
				if isinstance(x, Exc):
					yield s, x
				else:
					for y in self.getattr(x, attr, s):
						yield y
			return
		if isinstance(r, SNone):
			yield st, Exc('AttributeError', 'None.%s' % attr)
			return
		if isinstance(r, SPure) and 'get ' + attr in self.callees:
			for x in self.callees['get ' + attr](self, st, r):
				yield x
			return
		if isinstance(r, SFunc) and 'get %s.%s' % (r.qual, attr) in self.callees:
			for x in self.callees['get %s.%s' % (r.qual, attr)](self, st, r):
				yield x
			return
		if isinstance(r, SSlice) and attr in ('start', 'stop', 'step'):
			yield st, dict(start=r.a, stop=r.b, step=r.c)[attr]
			return
		if isinstance(r, SRef) and attr == '__class__':
			yield st, SClass(r.cls)
			return
		if isinstance(r, SRef) and r.cls in self.classes:
			if (r.cls, attr) in self.attrs:
				yield st, self.loaded(st.heap[attr][r.e], st,
						self.attrs[r.cls, attr])
				return
			found = self.findmethod(r.cls, attr)
			if found is None:
				raise Unsupported('attribute %s of %s' % (attr, r.cls))
			mod, cname, node = found
			if isinstance(node, ast.Assign):
				call = node.value
				if (isinstance(call, ast.Call)
						and getattr(call.func, 'id', '') == 'property'):
					f = call.args[0]
					if isinstance(f, ast.Lambda):
						fn = SFunc(f, '%s.%s' % (cname, attr), mod, cname)
					else:
						mod, cname, f = self.findmethod(r.cls, f.id)
						fn = SFunc(f, '%s.%s' % (cname, f.name), mod, cname)
					for x in self.callfunc(fn, [r], {}, st):
						yield x
					return
				raise Unsupported('class attribute %s' % attr)
			if any(isinstance(d, ast.Name) and d.id == 'property'
					for d in node.decorator_list):
				fn = SFunc(node, '%s.%s' % (cname, attr), mod, cname)
				for x in self.callfunc(fn, [r], {}, st):
					yield x
				return
			yield st, SBound(r, attr)
			return
		if isinstance(r, SClass) and r.name in self.classes:
			yield st, SBound(r, attr)
			return
		if isinstance(r, SName):
			yield st, SName('%s.%s' % (r.name, attr))
			return
		yield st, SBound(r, attr)

	def setattr(self, r, attr, v, st):
		if isinstance(r, SDyn):
			for s, x in self.narrow(r, attr, st):
				if isinstance(x, Exc):
					yield s, x
				else:
					for y in self.setattr(x, attr, v, s):
						yield y
			return
		if isinstance(r, SSlice) and attr in ('start', 'stop', 'step'):
			yield st, Exc('AttributeError', 'readonly attribute')
			return
		if isinstance(r, SRef) and r.cls in self.classes:
			kind = self.attrs.get((r.cls, attr))
			if kind is None:
				raise Unsupported('attribute %s of %s' % (attr, r.cls))
			if kind != 'dyn' and kindof(v) != kind:
				if isinstance(v, SDyn):
					self.oblige(st, 'kind of attribute %s' % attr,
							kindfact(v.e, kind))
				else:
					raise Unsupported('attribute %s gets a %s' % (attr,
							kindof(v)))
			hook = self.callees.get('set ' + attr)
			if hook is not None:
				hook(self, st, r, v)
			st.heap[attr] = z3.Store(st.heap[attr], r.e, toV(v))
			yield st, None
			return
		if isinstance(r, SNone):
			yield st, Exc('AttributeError', attr)
			return
		if isinstance(r, SPure) and 'set ' + attr in self.callees:
			self.callees['set ' + attr](self, st, r, v)
			yield st, None
			return
		raise Unsupported('setting attribute %s of %s' % (attr, kindof(r)
				or type(r).__name__))

	def e_Subscript(self, node, st):
		for s, vals in self.evs([node.value, node.slice], st):
			if isinstance(vals, Exc):
				yield s, vals
				continue
			for x in self.getitem(vals[0], vals[1], s):
				yield x

	def e_Slice(self, node, st):
		parts = [x if x is not None else ast.copy_location(
				ast.Constant(None), node)
				for x in (node.lower, node.upper, node.step)]
		for s, vals in self.evs(parts, st):
			yield s, (vals if isinstance(vals, Exc) else SSlice(*vals))

	def purehook(self, name, *vals):
		"""Contract for an operation on values of unknown classes."""
		for v in vals:
			if isinstance(v, SPure):
				fn = self.callees.get('%s.%s' % (type(v).__name__, name))
				if fn is not None:
					return fn
		return None

	def getitem(self, r, i, st):
		hook = self.purehook('__getitem__', r)
		if hook is not None:
			return hook(self, st, r, i)
		from . import pylib
		return pylib.getitem(self, r, i, st)

	def setitem(self, r, i, v, st):
		from . import pylib
		return pylib.setitem(self, r, i, v, st)

	def delitem(self, r, i, st):
		from . import pylib
		return pylib.delitem(self, r, i, st)

	def length(self, r, st):
		from . import pylib
		return pylib.length(self, r, st)

	def contains(self, x, r, st):
		from . import pylib
		return pylib.contains(self, x, r, st)

	def e_Compare(self, node, st):
		from . import pylib
		for s, vals in self.evs([node.left] + node.comparators, st):
			if isinstance(vals, Exc):
				yield s, vals
				continue
			states = [(s, z3.BoolVal(True))]
			for n, op in enumerate(node.ops):
				new = []
				for s1, acc in states:
					if isinstance(acc, Exc):
						new.append((s1, acc))
						continue
					for s2, c in pylib.compare(self, op, vals[n],
							vals[n + 1], s1):
						new.append((s2, c if isinstance(c, Exc)
								else z3.And(acc, c)))
				states = new
			for s1, acc in states:
				yield s1, (acc if isinstance(acc, Exc)
						else SBool(z3.simplify(acc)))

	def cond(self, node, st):
		"""Truth value of an expression: yields (state, Bool)."""
		for s, v in self.ev(node, st):
			if isinstance(v, Exc):
				yield s, v
			else:
				for x in self.truth(v, s):
					yield x

	def truth(self, v, st):
		from . import pylib
		return pylib.truth(self, v, st)

	def asint(self, v, st):
		"""Use a value as integer."""
		if isinstance(v, SInt):
			yield st, v
		elif isinstance(v, SBool):
			yield st, SInt(z3.If(v.e, z3.IntVal(1), z3.IntVal(0)))
		elif isinstance(v, SDyn):
			for s, b in self.split(st, V.is_vint(v.e)):
				yield s, (SInt(V.i(v.e)) if b
						else Exc('TypeError', 'not an integer'))
		else:
			yield st, Exc('TypeError', 'not an integer')

	def e_Call(self, node, st):
		from . import pylib
		f = node.func
		if isinstance(f, ast.Name) and f.id == 'super':
			yield st, SSuper(self.lookup('self', st), st.env['__fn__'].cls)
			return
		if any(k.arg is None for k in node.keywords):
			raise Unsupported('** argument')
		star = [isinstance(x, ast.Starred) for x in node.args]
		argnodes = [x.value if isinstance(x, ast.Starred) else x
				for x in node.args]
		if (isinstance(f, ast.Name) and f.id == 'next' and argnodes
				and isinstance(argnodes[0], ast.Call) and len(argnodes[0].args)
				== 1 and getattr(argnodes[0].func, 'id', '') == 'iter'
				and isinstance(argnodes[0].args[0], ast.GeneratorExp)):
			argnodes[0] = argnodes[0].args[0]
		# any(...) / all(...) / sum(...) / list(...) over a comprehension
		if (isinstance(f, ast.Name) and len(argnodes) >= 1
				and isinstance(argnodes[0], ast.GeneratorExp)
				and f.id not in st.env):
			for x in pylib.overgen(self, f.id, argnodes, node, st):
				yield x
			return
		for s, fn in self.ev(f, st):
			if isinstance(fn, Exc):
				yield s, fn
				continue
			for s1, vals in self.evs(argnodes + [k.value
					for k in node.keywords], s):
				if isinstance(vals, Exc):
					yield s1, vals
					continue
				args = []
				for v, isstar in zip(vals, star):
					if isstar:
						if not isinstance(v, STup):
							raise Unsupported('* argument')
						args.extend(v.items)
					else:
						args.append(v)
				kwargs = {k.arg: v for k, v in zip(node.keywords,
						vals[len(argnodes):])}
				for x in self.call(fn, args, kwargs, s1, node):
					yield x

	def call(self, fn, args, kwargs, st, node=None):
		from . import pylib
		if isinstance(fn, SFunc):
			return self.callfunc(fn, args, kwargs, st)
		if isinstance(fn, SBound):
			if isinstance(fn.recv, SClass):
				found = self.findmethod(fn.recv.name, fn.name)
				mod, cname, fnode = found
				f = SFunc(fnode, '%s.%s' % (cname, fn.name), mod, cname)
				decs = [d.id for d in fnode.decorator_list
						if isinstance(d, ast.Name)]
				first = [fn.recv] if 'classmethod' in decs else []
				return self.callfunc(f, first + args, kwargs, st)
			if isinstance(fn.recv, SRef) and fn.recv.cls in self.classes:
				return self.callmethod(fn.recv, fn.name, args, kwargs, st,
						after=fn.cls)
			return self.callmethod(fn.recv, fn.name, args, kwargs, st)
		if isinstance(fn, SClass):
			if fn.name in EXCEPTIONS:
				return iter([(st, SName(fn.name))])
			return self.construct(fn.name, args, kwargs, st)
		if isinstance(fn, SCallback):
			return fn.fn(self, st, args, kwargs)
		if isinstance(fn, SName):
			if fn.name in self.callees:
				return self.callees[fn.name](self, st, args, kwargs)
			f = pylib.BUILTINS.get(fn.name)
			if f is None:
				raise Unsupported('call of %s' % fn.name)
			return f(self, st, args, kwargs)
		raise Unsupported('call of %s' % type(fn).__name__)

	def construct(self, cls, args, kwargs, st):
		hook = self.callees.get('new ' + cls)
		if hook is not None:
			for x in hook(self, st, args, kwargs):
				yield x
			return
		if cls not in self.classes:
			raise Unsupported('constructing %s' % cls)
		r = SRef(self.alloc(st, cls), cls)
		for s, v in self.callmethod(r, '__init__', args, kwargs, st):
			yield s, (v if isinstance(v, Exc) else r)

	def e_JoinedStr(self, node, st):
		yield st, SStr(fresh(Str, 'fstring'))

	def e_ListComp(self, node, st):
		from . import pylib
		return pylib.listcomp(self, node, st)

	def e_GeneratorExp(self, node, st):
		from . import pylib
		return pylib.listcomp(self, node, st)

	def e_DictComp(self, node, st):
		from . import pylib
		return pylib.dictcomp(self, node, st)

	def e_SetComp(self, node, st):
		from . import pylib
		for s, r in pylib.listcomp(self, node, st):
			if isinstance(r, Exc):
				yield s, r
				continue
			for x in pylib.b_set(self, s, [r], {}):
				yield x


class SCallback(Val):
	"""A function parameter: fn(eng, st, args, kwargs) yields results."""
	def __init__(self, fn):
		self.fn = fn


class SPure(_E):
	"""A value on which only functions without effects are called."""


def constset(node):
	"""The strings of a set or frozenset defined at module level, or None."""
	if isinstance(node, ast.Set):
		if all(isinstance(x, ast.Constant) and isinstance(x.value, str)
				for x in node.elts):
			return {x.value for x in node.elts}
	elif isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
		a, b = constset(node.left), constset(node.right)
		if a is not None and b is not None:
			return a | b
	elif (isinstance(node, ast.Call) and getattr(node.func, 'id', '') in (
			'set', 'frozenset') and len(node.args) == 1
			and not node.keywords):
		arg = node.args[0]
		if isinstance(arg, ast.Constant) and isinstance(arg.value, str):
			return set(arg.value)
		return constset(arg)
	return None


class SSet(Val):
	def __init__(self, items):
		self.items = items


def _load(target):
	if isinstance(target, ast.Name):
		return ast.Name(target.id, ast.Load())
	if isinstance(target, ast.Attribute):
		return ast.Attribute(target.value, target.attr, ast.Load())
	return ast.Subscript(target.value, target.slice, ast.Load())


def _walkfn(node):
	"""Nodes of a function, without nested functions and classes."""
	body = node.body if isinstance(node.body, list) else [node.body]
	todo = list(body)
	while todo:
		x = todo.pop()
		if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
			continue
		yield x
		todo.extend(ast.iter_child_nodes(x))


def _assigned(node):
	"""Local names assigned in a statement or function."""
	names = set()
	body = []
	if isinstance(node, ast.Lambda):
		return names
	for part in ('body', 'orelse'):
		body.extend(getattr(node, part, []))
	if isinstance(node, ast.For):
		body.append(ast.Assign(targets=[node.target], value=ast.Constant(0)))
	todo = list(body)
	if isinstance(node, ast.While):
		todo.append(node.test)
	while todo:
		x = todo.pop()
		if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
			names.add(x.name)
			continue
		if isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp,
				ast.SetComp, ast.DictComp)):
			continue
		if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store,
				ast.Del)):
			names.add(x.id)
		if isinstance(x, ast.ExceptHandler) and x.name:
			names.add(x.name)
		todo.extend(ast.iter_child_nodes(x))
	return names
