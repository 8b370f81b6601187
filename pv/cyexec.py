"""Symbolic execution of C-level Cython functions with contracts.

Paths are enumerated; loops are cut with invariants; every call to a function
that has a contract is replaced by that contract; other functions from the
same sources are inlined.  Two arithmetic modes:

bv:  machine integers are bit-vectors with C conversion rules (LP64).
int: machine integers are mathematical integers, and the absence of overflow
     is itself an obligation at every operation.
"""
import z3
from . import cyfront, intbits
from .cyfront import CTYPES, kind
from .vc import Obligation, Unsupported

MAXUNROLL = 8


class CV(object):
	"""A C integer value."""
	def __init__(self, term, width, signed):
		self.term, self.width, self.signed = term, width, signed


class CB(object):
	"""A truth value."""
	def __init__(self, term):
		self.term = term


class CPtr(object):
	def __init__(self, arr, off=0):
		self.arr, self.off = arr, off


class CStruct(object):
	def __init__(self, fields):
		self.fields = fields


class CTypeName(object):
	def __init__(self, name):
		self.name = name


class Arr(object):
	"""Description of a memory object: element type, size (z3 or int)."""
	def __init__(self, name, width, signed, size):
		self.name, self.width, self.signed, self.size = (
				name, width, signed, size)


class State(object):
	def __init__(self, vars_, mem, pc):
		self.vars, self.mem, self.pc = vars_, mem, pc

	def copy(self):
		return State(dict(self.vars), dict(self.mem), list(self.pc))


class Env(object):
	"""What contracts see: parameters and locals by name, memory, old state."""
	def __init__(self, ex, state, old=None, result=None):
		self.ex, self.state, self.old, self.result = ex, state, old, result

	def __getitem__(self, name):
		name = self.ex.rename.get(name, name)
		if name not in self.state.vars:
			raise Unsupported('variable %s not found' % name)
		v = self.state.vars[name]
		return v.term if isinstance(v, (CV, CB)) else v

	def oldvar(self, name):
		"""Value of a parameter on entry."""
		return self.old.vars[self.ex.rename.get(name, name)].term

	def has(self, name):
		return self.ex.rename.get(name, name) in self.state.vars

	def mem(self, name):
		v = self.state.vars[self.ex.rename.get(name, name)]
		return self.state.mem[v.arr]

	def oldmem(self, name):
		v = self.old.vars[self.ex.rename.get(name, name)]
		return self.old.mem[v.arr]

	def at(self, name, i):
		return z3.Select(self.mem(name), i)

	def oldat(self, name, i):
		return z3.Select(self.oldmem(name), i)


class Contract(object):
	"""pre(env) / post(env) -> list of (name, formula); invs: per loop.

	:param setup: function(ex) -> (vars, mem, assumptions); when not given,
		fresh variables for all parameters.
	:param sizes: dict pointer parameter -> size (function of env or int)
	:param frame: list of pointer params that may be written.
	:param locals: names of local variables on the reviewed tree, in order of
		first binding; used to map renamed locals.
	"""
	def __init__(self, pre=None, post=None, invs=(), sizes=None, writes=(),
			mode='bv', locals=(), params=None, unroll=(), lemmas=None,
			variants=None, alias=None, timeout=None, fused=None, setup=None):
		self.pre, self.post, self.invs = pre, post, invs
		self.sizes, self.writes, self.mode = sizes or {}, writes, mode
		self.locals, self.params = locals, params
		self.unroll, self.lemmas = unroll, lemmas
		self.variants, self.alias = variants, alias
		self.timeout, self.fused, self.setup = timeout, fused, setup


def assigned(node, acc=None):
	"""Names of variables (and arrays by pointer name) assigned in a subtree."""
	acc = set() if acc is None else acc
	k = kind(node)
	if k in ('SingleAssignmentNode', 'InPlaceAssignmentNode'):
		t = node.lhs
		if kind(t) == 'NameNode':
			acc.add(t.name)
		else:
			while kind(t) in ('IndexNode', 'AttributeNode'):
				t = t.base if kind(t) == 'IndexNode' else t.obj
			if kind(t) == 'NameNode':
				acc.add('*' + t.name)
	elif k == 'CascadedAssignmentNode':
		for t in node.lhs_list:
			if kind(t) == 'NameNode':
				acc.add(t.name)
	elif k in ('ForInStatNode', 'ForFromStatNode'):
		if kind(node.target) == 'NameNode':
			acc.add(node.target.name)
	elif k == 'CVarDefNode':
		for d in node.declarators:
			if getattr(d, 'default', None) is not None:
				acc.add(cyfront.declname(d))
	elif k == 'SimpleCallNode':
		for a in node.args or []:
			if kind(a) == 'NameNode':
				acc.add('*' + a.name)
			elif kind(a) == 'AmpersandNode' and kind(a.operand) == 'NameNode':
				acc.add(a.operand.name)
	for attr in getattr(node, 'child_attrs', None) or []:
		c = getattr(node, attr, None)
		if c is None:
			continue
		for x in (c if isinstance(c, list) else [c]):
			if hasattr(x, 'child_attrs'):
				assigned(x, acc)
	return acc


def localnames(node, acc=None):
	"""Local variable names in order of first binding."""
	acc = [] if acc is None else acc
	k = kind(node)
	names = []
	if k == 'CVarDefNode':
		names = [cyfront.declname(d) for d in node.declarators]
	elif k in ('SingleAssignmentNode', 'InPlaceAssignmentNode'):
		if kind(node.lhs) == 'NameNode':
			names = [node.lhs.name]
	elif k in ('ForInStatNode', 'ForFromStatNode'):
		if kind(node.target) == 'NameNode':
			names = [node.target.name]
	for n in names:
		if n not in acc:
			acc.append(n)
	for attr in getattr(node, 'child_attrs', None) or []:
		c = getattr(node, attr, None)
		if c is None:
			continue
		for x in (c if isinstance(c, list) else [c]):
			if hasattr(x, 'child_attrs'):
				localnames(x, acc)
	return acc


class Exec(object):
	def __init__(self, funcs, contracts, macros, consts, qual='',
			ptrtypes=None):
		self.funcs, self.contracts = funcs, contracts
		self.macros, self.consts = macros, consts
		self.qual = qual
		self.obligations = []
		self.fresh = 0
		self.rename = {}
		self.loopno = 0
		self.arrs = {}
		self.types = {}
		self.fname = None
		self.inline = []
		self.fusedtype = None
		self.assumed = set()
		self.guard = []

	# ---- values -----------------------------------------------------------
	def sym(self, name, width, signed):
		self.fresh += 1
		nm = '%s!%d' % (name, self.fresh)
		if self.mode == 'bv':
			return CV(z3.BitVec(nm, width), width, signed)
		return CV(z3.Int(nm), width, signed)

	def rangeof(self, width, signed):
		return ((-(1 << (width - 1)), (1 << (width - 1)) - 1) if signed
				else (0, (1 << width) - 1))

	def inrange(self, v):
		if v.width is None:
			return z3.BoolVal(True)
		lo, hi = self.rangeof(v.width, v.signed)
		return z3.And(v.term >= lo, v.term <= hi)

	def const(self, n, width, signed):
		if self.mode == 'bv':
			return CV(z3.BitVecVal(n, width), width, signed)
		return CV(z3.IntVal(n), width, signed)

	def convert(self, v, width, signed, state=None, what='conversion'):
		if isinstance(v, CB):
			return CV(z3.If(v.term, self.const(1, width, signed).term,
					self.const(0, width, signed).term), width, signed)
		if not isinstance(v, CV):
			raise Unsupported('conversion of %r' % (v, ))
		if self.mode == 'int':
			if width is None:
				return CV(v.term, None, True)
			lo, hi = self.rangeof(width, signed)
			lo1, hi1 = ((lo - 1, hi + 1) if v.width is None
					else self.rangeof(v.width, v.signed))
			cst = z3.simplify(v.term)
			if z3.is_int_value(cst) and v.width is not None:
				n = cst.as_long()  # conversion of constants wraps
				if not signed:
					n %= 1 << width
				return CV(z3.IntVal(n), width, signed)
			if state is not None and (lo1 < lo or hi1 > hi):
				self.oblige(state, what + ' fits',
						z3.And(v.term >= lo, v.term <= hi))
			return CV(v.term, width, signed)
		if width == v.width:
			return CV(v.term, width, signed)
		if width < v.width:
			return CV(z3.Extract(width - 1, 0, v.term), width, signed)
		if v.signed:
			return CV(z3.SignExt(width - v.width, v.term), width, signed)
		return CV(z3.ZeroExt(width - v.width, v.term), width, signed)

	def promote(self, v):
		if isinstance(v, CB):
			return self.convert(v, 32, True)
		if v.width is not None and v.width < 32:
			return self.convert(v, 32, True)
		return v

	def usual(self, a, b, state=None):
		a, b = self.promote(a), self.promote(b)
		if a.width is None or b.width is None:
			return CV(a.term, None, True), CV(b.term, None, True), None, True
		if a.width == b.width:
			w, s = a.width, a.signed and b.signed
		elif a.width > b.width:
			w, s = a.width, a.signed
		else:
			w, s = b.width, b.signed
		return (self.convert(a, w, s, state), self.convert(b, w, s, state), w, s)

	def truth(self, v):
		if isinstance(v, CB):
			return v.term
		if isinstance(v, CV):
			return v.term != self.const(0, v.width, v.signed).term
		if isinstance(v, bool):
			return z3.BoolVal(v)
		raise Unsupported('truth of %r' % (v, ))

	def assume(self, state, facts):
		"""Add facts (under the current short-circuit guard) to a path."""
		state.pc.extend(z3.Implies(z3.And(*self.guard), g)
				if self.guard else g for g in facts)

	def oblige(self, state, name, goal, node=None):
		where = ''
		if node is not None and getattr(node, 'pos', None):
			where = 'line %d' % node.pos[1]
		self.obligations.append(Obligation(self.qual + self.fname, name,
				self.axioms + state.pc + self.guard, goal, where,
				timeout=self.contract.timeout))

	# ---- expressions ------------------------------------------------------
	def ev(self, e, st):
		k = kind(e)
		m = getattr(self, 'e_' + k, None)
		if m is None:
			raise Unsupported('expression %s' % k)
		return m(e, st)

	def e_IntNode(self, e, st):
		n = int(e.value.rstrip('uUlL'), 0)
		if e.unsigned:
			w = 64 if e.longness or n > 0xffffffff else 32
			return self.const(n, w, False)
		w = 64 if e.longness or not -2 ** 31 <= n < 2 ** 31 else 32
		return self.const(n, w, True)

	def e_BoolNode(self, e, st):
		return CB(z3.BoolVal(bool(e.value)))

	def e_NameNode(self, e, st):
		if e.name in st.vars:
			return st.vars[e.name]
		if e.name in self.macros:
			params, body = self.macros[e.name]
			if params is None:
				return self.ev(body, st)
		if e.name in self.consts:
			return self.const(self.consts[e.name], 32, True)
		if e.name in CTYPES or e.name == self.fusedname:
			return CTypeName(e.name)
		raise Unsupported('name %s' % e.name)

	fusedname = None

	def binop(self, op, a, b, st, node=None):
		if isinstance(a, CB):
			a = self.convert(a, 32, True)
		if isinstance(b, CB):
			b = self.convert(b, 32, True)
		if not isinstance(a, CV) or not isinstance(b, CV):
			raise Unsupported('operands of %s' % op)
		if op in ('<<', '>>'):
			a, b = self.promote(a), self.promote(b)
			w, s = a.width, a.signed
			if self.mode == 'int':
				amount = z3.simplify(b.term)
				if z3.is_int_value(amount) and amount.as_long() >= 0 and (
						w is None or amount.as_long() < w):
					n = amount.as_long()
					if op == '>>':
						return CV(a.term / z3.IntVal(2 ** n), w, s)
					r = z3.simplify(a.term * z3.IntVal(2 ** n))
					if w is not None:
						lo, hi = self.rangeof(w, s)
						self.oblige(st, 'no overflow in <<',
								z3.And(r >= lo, r <= hi), node)
					return CV(r, w, s)
				if op == '>>':
					self.oblige(st, 'shift of non-negative by valid amount',
							z3.And(a.term >= 0, b.term >= 0, b.term < (w or 2**31)),
							node)
					return CV(intbits.shr(a.term, b.term), w, s)
				raise Unsupported('<< by a variable in integer mode')
			amount = self.convert(b, 64, b.signed).term
			self.oblige(st, 'shift amount less than width',
					z3.ULT(amount, w), node)
			bb = self.convert(b, w, b.signed).term
			if op == '<<':
				return CV(a.term << bb, w, s)
			return CV((a.term >> bb) if s else z3.LShR(a.term, bb), w, s)
		a, b, w, s = self.usual(a, b, st)
		x, y = a.term, b.term
		if self.mode == 'int':
			if op in '+-*':
				r = x + y if op == '+' else x - y if op == '-' else x * y
				if w is None:
					return CV(r, w, s)
				lo, hi = self.rangeof(w, s)
				self.oblige(st, 'no overflow in %s' % op,
						z3.And(r >= lo, r <= hi), node)
				return CV(r, w, s)
			if op in ('//', '/', '%'):
				# C division truncates; restricted to non-negative operands
				self.oblige(st, 'division of non-negative by positive',
						z3.And(x >= 0, y > 0), node)
				return CV(x % y if op == '%' else x / y, w, s)
			if op == '&':
				self.oblige(st, 'operands of & not negative',
						z3.And(x >= 0, y >= 0), node)
				return CV(intbits.land(x, y), w, s)
			raise Unsupported('%s in integer mode' % op)
		if op in '+-*':
			if s:
				if op == '+':
					self.oblige(st, 'no signed overflow', z3.And(
							z3.BVAddNoOverflow(x, y, True),
							z3.BVAddNoUnderflow(x, y)), node)
				elif op == '-':
					self.oblige(st, 'no signed overflow', z3.And(
							z3.BVSubNoOverflow(x, y),
							z3.BVSubNoUnderflow(x, y, True)), node)
				else:
					self.oblige(st, 'no signed overflow', z3.And(
							z3.BVMulNoOverflow(x, y, True),
							z3.BVMulNoUnderflow(x, y)), node)
			r = x + y if op == '+' else x - y if op == '-' else x * y
		elif op == '&':
			r = x & y
		elif op == '|':
			r = x | y
		elif op == '^':
			r = x ^ y
		elif op in ('//', '/'):
			self.oblige(st, 'divisor not zero', y != 0, node)
			r = x / y if s else z3.UDiv(x, y)
		elif op == '%':
			self.oblige(st, 'divisor not zero', y != 0, node)
			r = z3.SRem(x, y) if s else z3.URem(x, y)
		else:
			raise Unsupported('operator %s' % op)
		return CV(z3.simplify(r) if z3.is_bv_value(z3.simplify(r)) else r, w, s)

	def e_binop(self, e, st):
		return self.binop(e.operator, self.ev(e.operand1, st),
				self.ev(e.operand2, st), st, e)

	e_IntBinopNode = e_AddNode = e_SubNode = e_MulNode = e_binop
	e_DivNode = e_ModNode = e_NumBinopNode = e_BitwiseOrNode = e_binop
	e_BinopNode = e_binop

	def e_UnaryMinusNode(self, e, st):
		a = self.promote(self.ev(e.operand, st))
		if self.mode == 'bv' and a.signed:
			self.oblige(st, 'no signed overflow', z3.BVSNegNoOverflow(a.term),
					e)
		return CV(-a.term, a.width, a.signed)

	def e_TildeNode(self, e, st):
		a = self.promote(self.ev(e.operand, st))
		if self.mode == 'int':
			if a.width is None or a.signed:
				raise Unsupported('~ of signed value in integer mode')
			return CV(z3.IntVal(2 ** a.width - 1) - a.term, a.width, False)
		return CV(~a.term, a.width, a.signed)

	def e_NotNode(self, e, st):
		return CB(z3.Not(self.truth(self.ev(e.operand, st))))

	def e_BoolBinopNode(self, e, st):
		a = self.ev(e.operand1, st)
		ta = self.truth(a)
		self.guard.append(ta if e.operator == 'and' else z3.Not(ta))
		try:
			tb = self.truth(self.ev(e.operand2, st))
		finally:
			self.guard.pop()
		return CB(z3.And(ta, tb) if e.operator == 'and' else z3.Or(ta, tb))

	def e_CondExprNode(self, e, st):
		c = self.truth(self.ev(getattr(e, 'condition', None) or e.test, st))
		self.guard.append(c)
		a = self.ev(e.true_val, st)
		self.guard.pop()
		self.guard.append(z3.Not(c))
		b = self.ev(e.false_val, st)
		self.guard.pop()
		if isinstance(a, CB) and isinstance(b, CB):
			return CB(z3.If(c, a.term, b.term))
		a, b, w, s = self.usual(a, b)
		return CV(z3.If(c, a.term, b.term), w, s)

	def compare(self, op, a, b, st):
		if op in ('is', 'is_not', 'is not'):
			if isinstance(a, CTypeName) and isinstance(b, CTypeName):
				x = self.fusedtype if a.name == self.fusedname else a.name
				y = self.fusedtype if b.name == self.fusedname else b.name
				return z3.BoolVal((x == y) == (op == 'is'))
			raise Unsupported('is')
		if isinstance(a, CPtr) or isinstance(b, CPtr):
			raise Unsupported('pointer comparison')
		a, b, w, s = self.usual(a, b)
		x, y = a.term, b.term
		if op == '==':
			return x == y
		if op == '!=':
			return x != y
		if self.mode == 'int' or s:
			return {'<': lambda: x < y, '<=': lambda: x <= y,
					'>': lambda: x > y, '>=': lambda: x >= y}[op]()
		return {'<': lambda: z3.ULT(x, y), '<=': lambda: z3.ULE(x, y),
				'>': lambda: z3.UGT(x, y), '>=': lambda: z3.UGE(x, y)}[op]()

	def e_PrimaryCmpNode(self, e, st):
		a, b = self.ev(e.operand1, st), self.ev(e.operand2, st)
		res = [self.compare(e.operator, a, b, st)]
		c = e.cascade
		while c is not None:
			n = self.ev(c.operand2, st)
			res.append(self.compare(c.operator, b, n, st))
			b, c = n, c.cascade
		return CB(z3.And(*res) if len(res) > 1 else res[0])

	def e_TypecastNode(self, e, st):
		if getattr(e, 'base_type', None) is None:
			raise Unsupported('cast')
		t, _ = cyfront.typename(e.base_type, e.declarator)
		if t == self.fusedname:
			t = self.fusedtype
		if t not in CTYPES:
			raise Unsupported('cast to %s' % t)
		w, s = CTYPES[t]
		return self.convert(self.ev(e.operand, st), w, s, st)

	def e_SizeofTypeNode(self, e, st):
		t, _ = cyfront.typename(e.base_type, e.declarator)
		if t.endswith('*'):
			return self.const(8, 64, False)
		return self.const(CTYPES[t][0] // 8, 64, False)

	def e_SizeofVarNode(self, e, st):
		o = e.operand
		if kind(o) == 'NameNode' and o.name in CTYPES:
			return self.const(CTYPES[o.name][0] // 8, 64, False)
		v = self.ev(o, st)
		return self.const(v.width // 8, 64, False)

	def deref(self, ptr, idx, st, node):
		arr = self.arrs[ptr.arr]
		i = self.convert(idx, 32, True, st) if self.mode == 'bv' else idx
		size = arr.size
		zero = self.const(0, 32, True).term
		self.oblige(st, 'index within bounds of %s' % ptr.arr, z3.And(
				i.term >= zero, i.term < size), node)
		return arr, i

	def e_IndexNode(self, e, st):
		base = self.ev(e.base, st)
		if isinstance(base, CStruct):  # pointer to struct: p[0]
			return base
		if isinstance(base, CPtr):
			arr, i = self.deref(base, self.ev(e.index, st), st, e)
			return CV(z3.Select(st.mem[base.arr], i.term), arr.width,
					arr.signed)
		raise Unsupported('index')

	def e_AttributeNode(self, e, st):
		base = self.ev(e.obj, st)
		if isinstance(base, CStruct):
			if e.attribute in base.fields:
				return base.fields[e.attribute]
		raise Unsupported('attribute %s' % e.attribute)

	def e_AmpersandNode(self, e, st):
		raise Unsupported('address of')

	def e_SimpleCallNode(self, e, st):
		f = e.function
		if kind(f) != 'NameNode':
			raise Unsupported('call of %s' % kind(f))
		name = f.name
		args = e.args or []
		if name in self.macros and self.macros[name][0] is not None:
			params, body = self.macros[name]
			inner = State(dict(zip(params, [self.ev(a, st) for a in args])),
					st.mem, st.pc)
			return self.ev(body, inner)
		vals = [self.ev(a, st) for a in args]
		if name in self.intrinsics:
			return self.intrinsics[name](self, vals, st, e)
		if name in self.contracts and self.contracts[name] is not None:
			return self.bycontract(name, vals, st, e)
		if name in self.funcs:
			return self.inlinecall(name, vals, st, e)
		raise Unsupported('call of %s' % name)

	intrinsics = {}

	def bycontract(self, name, vals, st, node):
		"""Replace a call with the callee's contract."""
		c = self.contracts[name]
		f = self.funcs[name]
		if c.writes:
			raise Unsupported('call of mutating function %s' % name)
		self.assumed.add(name)
		variant = None
		inner = State({}, st.mem, st.pc)
		for (pn, pt), v in zip(f.params, vals):
			if isinstance(v, (CV, CB)):
				if pt in CTYPES:
					w, s = CTYPES[pt]
				else:  # fused type: take that of the argument
					w, s = v.width, v.signed
				v = self.convert(v, w, s, st)
			inner.vars[pn] = v
		saved = self.rename
		self.rename = dict(zip(c.params or [], [p for p, _ in f.params]))
		env = Env(self, inner, inner)
		for n, g in (c.pre(env) if c.pre else []):
			self.oblige(st, 'precondition of %s: %s' % (name, n), g, node)
		if f.ret in CTYPES:
			w, s = CTYPES[f.ret]
			res = self.sym(name, w, s)
			env.result = res.term
			if self.mode == 'int':
				st.pc.append(self.inrange(res))
			st.pc.extend(z3.Implies(z3.And(*self.guard), g)
					if self.guard else g for _, g in c.post(env))
		else:
			raise Unsupported('call of void function')
		self.rename = saved
		return res

	def inlinecall(self, name, vals, st, node):
		if name in self.inline or len(self.inline) > 4:
			raise Unsupported('recursive call of %s' % name)
		f = self.funcs[name]
		self.inline.append(name)
		inner = State({}, st.mem, st.pc)
		for (pn, pt), v in zip(f.params, vals):
			if isinstance(v, (CV, CB)) and pt in CTYPES:
				v = self.convert(v, *CTYPES[pt], st)
			inner.vars[pn] = v
		outs = self.block(f.body, inner)
		self.inline.pop()
		rets = [(s, o[1]) for s, o in outs if o and o[0] == 'ret']
		if len(rets) != len(outs):
			raise Unsupported('inlined function %s without result' % name)
		if f.ret not in CTYPES:
			raise Unsupported('inlined %s' % name)
		w, s_ = CTYPES[f.ret]
		n = len(st.pc)
		res = None
		for s, v in rets[::-1]:
			v = self.convert(v, w, s_, s)
			cond = z3.And(*s.pc[n:]) if len(s.pc) > n else z3.BoolVal(True)
			res = v.term if res is None else z3.If(cond, v.term, res)
		return CV(res, w, s_)

	# ---- statements: return list of (state, outcome) ----------------------
	def block(self, node, st):
		k = kind(node)
		if k == 'StatListNode':
			outs = [(st, None)]
			for s in node.stats:
				nxt = []
				for st1, o in outs:
					if o is None:
						nxt.extend(self.block(s, st1))
					else:
						nxt.append((st1, o))
				outs = nxt
			return outs
		m = getattr(self, 's_' + k, None)
		if m is None:
			raise Unsupported('statement %s' % k)
		return m(node, st)

	def s_PassStatNode(self, n, st):
		return [(st, None)]

	def s_ExprStatNode(self, n, st):
		k = kind(n.expr)
		if k in ('UnicodeNode', 'StringNode', 'BytesNode', 'IntNode',
				'NoneNode', 'BoolNode', 'EllipsisNode', 'FloatNode'):
			return [(st, None)]
		self.ev(n.expr, st)
		return [(st, None)]

	def s_AssertStatNode(self, n, st):
		c = self.truth(self.ev(getattr(n, 'condition', None) or n.cond, st))
		self.oblige(st, 'assertion', c, n)
		st.pc.append(c)
		return [(st, None)]

	def s_CVarDefNode(self, n, st):
		for d in n.declarators:
			t, dd = cyfront.typename(n.base_type, d)
			name = cyfront.declname(d)
			if t == self.fusedname:
				t = self.fusedtype
			self.types[name] = t
			init = getattr(dd, 'default', None) or getattr(d, 'default', None)
			if init is not None:
				self.assign(name, self.ev(init, st), st)
			elif t in CTYPES:
				v = self.sym(name + '_uninit', *CTYPES[t])
				st.vars[name] = v
				if self.mode == 'int':
					st.pc.append(self.inrange(v))
		return [(st, None)]

	def assign(self, name, v, st):
		t = self.types.get(name)
		if t is None and self.mode == 'int' and isinstance(v, (CV, CB)):
			t = 'object'  # an undeclared local holds a Python object
		if t in CTYPES and isinstance(v, (CV, CB)):
			v = self.convert(v, *CTYPES[t], st, 'assignment to %s' % name)
		st.vars[name] = v

	def store(self, lhs, v, st, node):
		k = kind(lhs)
		if k == 'NameNode':
			self.assign(lhs.name, v, st)
		elif k == 'IndexNode':
			base = self.ev(lhs.base, st)
			if not isinstance(base, CPtr):
				raise Unsupported('store')
			arr, i = self.deref(base, self.ev(lhs.index, st), st, node)
			v = self.convert(v, arr.width, arr.signed, st)
			st.mem[base.arr] = z3.Store(st.mem[base.arr], i.term, v.term)
		else:
			raise Unsupported('store to %s' % k)

	def s_SingleAssignmentNode(self, n, st):
		self.store(n.lhs, self.ev(n.rhs, st), st, n)
		return [(st, None)]

	def s_CascadedAssignmentNode(self, n, st):
		v = self.ev(n.rhs, st)
		for lhs in n.lhs_list:
			self.store(lhs, v, st, n)
		return [(st, None)]

	def s_InPlaceAssignmentNode(self, n, st):
		v = self.binop(n.operator, self.ev(n.lhs, st), self.ev(n.rhs, st),
				st, n)
		self.store(n.lhs, v, st, n)
		return [(st, None)]

	def s_ReturnStatNode(self, n, st):
		v = None if n.value is None else self.ev(n.value, st)
		return [(st, ('ret', v))]

	def s_BreakStatNode(self, n, st):
		return [(st, ('break', ))]

	def s_ContinueStatNode(self, n, st):
		return [(st, ('cont', ))]

	def s_IfStatNode(self, n, st):
		outs = []
		cur = st
		for c in n.if_clauses:
			cond = z3.simplify(self.truth(self.ev(c.condition, cur)))
			if z3.is_true(cond):
				return outs + self.block(c.body, cur)
			if z3.is_false(cond):
				continue
			a = cur.copy()
			a.pc.append(cond)
			outs.extend(self.block(c.body, a))
			cur.pc.append(z3.Not(cond))
		if n.else_clause is not None:
			outs.extend(self.block(n.else_clause, cur))
		else:
			outs.append((cur, None))
		return outs

	def invariants(self, ordinal):
		invs = self.contract.invs
		if not self.inline and ordinal < len(invs):
			return invs[ordinal]
		raise Unsupported('loop %d without invariant' % ordinal)

	def havoc(self, names, st):
		for nm in names:
			if nm.startswith('*'):
				p = st.vars.get(nm[1:])
				if isinstance(p, CPtr):
					self.fresh += 1
					old = st.mem[p.arr]
					st.mem[p.arr] = z3.Const('%s!%d' % (p.arr, self.fresh),
							old.sort())
			elif nm in st.vars and isinstance(st.vars[nm], (CV, CB)):
				old = st.vars[nm]
				if isinstance(old, CB):
					self.fresh += 1
					st.vars[nm] = CB(z3.Bool('%s!%d' % (nm, self.fresh)))
				else:
					st.vars[nm] = self.sym(nm, old.width, old.signed)
					if self.mode == 'int':
						st.pc.append(self.inrange(st.vars[nm]))

	def cutloop(self, node, st, cond, body, names, ordinal, step=None):
		"""Generic loop rule; cond(st) -> formula; body(st) -> outcomes."""
		inv = self.invariants(ordinal)
		entry = st.copy()

		def check(s, stage):
			for nm, g in inv(LoopEnv(self, s, self.old, entry)):
				self.oblige(s, 'loop %d invariant %s: %s' % (ordinal, stage,
						nm), g, node)
		check(st, 'holds on entry')
		h = st.copy()
		self.havoc(names, h)
		h.pc.extend(g for _, g in inv(LoopEnv(self, h, self.old, entry)))
		exit_ = h.copy()
		c = cond(h)
		cx = cond(exit_, False)
		outs = []
		h.pc.append(c)
		exit_.pc.append(z3.Not(cx))
		for s, o in body(h):
			if o is None or o[0] == 'cont':
				if step:
					step(s)
				check(s, 'is preserved')
			elif o[0] == 'break':
				outs.append((s, None))
			else:
				outs.append((s, o))
		outs.append((exit_, None))
		return outs

	def s_WhileStatNode(self, n, st):
		if n.else_clause is not None:
			raise Unsupported('while-else')
		ordinal = self.loopno
		self.loopno += 1

		def cond(s, record=True):
			if n.condition is None:
				return z3.BoolVal(True)
			k = len(self.obligations)
			r = self.truth(self.ev(n.condition, s))
			if not record:
				del self.obligations[k:]
			return r
		return self.cutloop(n, st, cond, lambda s: self.block(n.body, s),
				assigned(n.body), ordinal)

	def s_ForInStatNode(self, n, st):
		it = n.iterator.sequence
		if (kind(it) != 'SimpleCallNode' or kind(it.function) != 'NameNode'
				or it.function.name != 'range'
				or kind(n.target) != 'NameNode' or n.else_clause is not None):
			raise Unsupported('for loop')
		args = [self.ev(a, st) for a in it.args]
		if len(args) == 1:
			lo, hi = self.const(0, 32, True), args[0]
		elif len(args) == 2:
			lo, hi = args
		else:
			raise Unsupported('range with step')
		lo, hi = self.convert(lo, 32, True, st), self.convert(hi, 32, True, st)
		name = n.target.name
		slo, shi = z3.simplify(lo.term), z3.simplify(hi.term)
		conc = (lambda t: t.as_signed_long() if z3.is_bv_value(t)
				else t.as_long() if z3.is_int_value(t) else None)
		if conc(slo) is not None and conc(shi) is not None and (
				conc(shi) - conc(slo) <= MAXUNROLL):
			outs = [(st, None)]
			for i in range(conc(slo), conc(shi)):
				nxt = []
				for s, o in outs:
					if o is None:
						self.assign(name, self.const(i, 32, True), s)
						nxt.extend((s1, None if o1 and o1[0] == 'cont' else o1)
								for s1, o1 in self.block(n.body, s))
					else:
						nxt.append((s, o))
				outs = nxt
			return [(s, None if o and o[0] == 'break' else o) for s, o in outs]
		ordinal = self.loopno
		self.loopno += 1
		# ghost iteration counter: value of target at the next iteration
		ghost = '%s@next' % name
		st.vars[ghost] = lo
		one = self.const(1, 32, True).term
		body = n.body

		def cond(s, record=True):
			return s.vars[ghost].term < hi.term

		def run(s):
			self.assign(name, s.vars[ghost], s)
			return self.block(body, s)

		def step(s):
			s.vars[ghost] = CV(s.vars[ghost].term + one, 32, True)
		if name not in st.vars:
			st.vars[name] = self.sym(name + '_uninit', 32, True)
		# the bounds of the counter hold by construction of range
		h0 = lambda s: z3.And(lo.term <= s.vars[ghost].term,
				z3.Or(s.vars[ghost].term <= hi.term,
					s.vars[ghost].term == lo.term))
		inv0 = self.invariants(ordinal)
		contract = self.contract
		self.contract = c2 = Contract(**contract.__dict__)
		c2.invs = list(contract.invs)
		c2.invs[ordinal] = lambda env: (
				[('counter within range', h0(env.state))] + list(inv0(env)))
		try:
			return self.cutloop(n, st, cond, run,
					assigned(body) | {name, ghost}, ordinal, step)
		finally:
			self.contract = contract

	# ---- verify one function ----------------------------------------------
	def verify(self, name, contract, variant=None):
		f = self.funcs.get(name)
		if f is None:
			raise Unsupported('function %s not found' % name)
		self.contract, self.mode = contract, contract.mode
		self.fname = name + ('' if variant is None else '[%s]' % variant)
		self.loopno, self.types, self.arrs = 0, {}, {}
		self.axioms = []
		self.inline = []
		self.fusedname = contract.fused
		self.fusedtype = variant if contract.fused else None
		self.rename = dict(zip(contract.params or [],
				[p for p, _ in f.params]))
		cur = [n for n in localnames(f.body)
				if n not in [p for p, _ in f.params]]
		missing = [n for n in contract.locals if n not in cur]
		extra = [n for n in cur if n not in contract.locals]
		if missing and len(missing) == len(extra):
			self.rename.update(zip(missing, extra))
		st = State({}, {}, [])
		if contract.setup is not None:
			contract.setup(self, f, st, variant)
		for pn, pt in f.params:
			if pn in st.vars:
				continue
			if pt == contract.fused and contract.fused:
				pt = variant
			self.types[pn] = pt
			if pt in CTYPES:
				v = self.sym(pn, *CTYPES[pt])
				st.vars[pn] = v
				if self.mode == 'int':
					st.pc.append(self.inrange(v))
			elif pt.endswith('*') and pt[:-1].strip() in CTYPES:
				w, s = CTYPES[pt[:-1].strip()]
				role = next((r for r, a in self.rename.items() if a == pn), pn)
				target = pn
				if variant and not contract.fused and contract.alias:
					target = contract.alias[variant].get(role, pn)
					target = self.rename.get(target, target)
				st.vars[pn] = CPtr(target)
				if target == pn:
					idxsort = (z3.BitVecSort(32) if self.mode == 'bv'
							else z3.IntSort())
					esort = (z3.BitVecSort(w) if self.mode == 'bv'
							else z3.IntSort())
					st.mem[pn] = z3.Array(pn + '!mem', idxsort, esort)
					self.arrs[pn] = Arr(pn, w, s, None)
			else:
				raise Unsupported('parameter type %s' % pt)
		self.old = st.copy()
		env = Env(self, st, self.old)
		for pn, arr in self.arrs.items():
			if arr.size is None:
				role = next((r for r, a in self.rename.items() if a == pn), pn)
				size = contract.sizes.get(role, 1)
				arr.size = size(env) if callable(size) else self.const(
						size, 32, True).term
		if contract.lemmas:
			self.axioms = list(contract.lemmas(env))
		pre = [g for _, g in (contract.pre(env) if contract.pre else [])]
		st.pc.extend(pre)
		self.old = st.copy()
		outs = self.block(f.body, st)
		n = 0
		for s, o in outs:
			if o is not None and o[0] == 'ret':
				v = o[1]
			elif o is None:
				v = None
			else:
				raise Unsupported('outcome %r' % (o, ))
			e = Env(self, s, self.old)
			if f.ret in CTYPES:
				if v is None:
					raise Unsupported('no return value')
				e.result = self.convert(v, *CTYPES[f.ret], s,
						'return value').term
			for nm, g in contract.post(e):
				self.oblige(s, 'postcondition: ' + nm, g)
				n += 1
			for arrname in self.arrs:
				role = next((r for r, a in self.rename.items()
						if a == arrname), arrname)
				if role not in contract.writes:
					self.oblige(s, 'frame: %s unchanged' % role,
							s.mem[arrname] == self.old.mem[arrname])
		if not n:
			raise Unsupported('no postcondition obligations')
		return self.obligations


class LoopEnv(Env):
	"""Environment of loop invariants: also gives access to loop entry."""
	def __init__(self, ex, state, old, entry):
		super().__init__(ex, state, old)
		self.entry = Env(ex, entry, old)

	def next(self, name):
		"""Value of a for-loop target at the next iteration."""
		return self.state.vars['%s@next' % self.ex.rename.get(name, name)].term
