"""Semantics of Python's built-in types and functions for pyexec.

Trusted: these definitions state what the built-in operations do.
"""
import ast
import z3
from .vc import Unsupported
from . import pyexec as X
from .pyexec import (V, Int, Bool, SNone, SInt, SBool, SReal, SStr, SDyn, SRef,
		STup, SSlice, SFunc, SBound, SClass, SName, SRange, SIter, SSeq, SSet,
		Exc, toV, fresh, kindof)

I0, I1 = z3.IntVal(0), z3.IntVal(1)


# --- equality, order, truth --------------------------------------------------
def eqterm(eng, st, a, b):
	"""Equality of two values with an own __eq__ (depends on labels and
	children lists of the current heap)."""
	return eng.pyeq(st, a, b)


def _py_eq(eng, st, a, b):
	f = z3.Function('py_eq', V, V, st.heap['llen'].sort(),
			st.heap['lget'].sort(), st.heap['label'].sort(), Bool)
	return f(a, b, st.heap['llen'], st.heap['lget'], st.heap['label'])


def valeq(eng, st, a, b):
	"""Formula for a == b on V expressions."""
	isnum = lambda e: z3.Or(V.is_vint(e), V.is_vbool(e))
	num = lambda e: z3.If(V.is_vint(e), V.i(e), z3.If(V.b(e), I1, I0))
	refs = z3.And(V.is_vref(a), V.is_vref(b))
	res = z3.If(z3.And(isnum(a), isnum(b)), num(a) == num(b), a == b)
	if eng.refeq == 'identity':
		return res
	if callable(eng.refeq):
		return z3.If(refs, eng.refeq(eng, st, a, b), res)
	return z3.If(refs, _py_eq(eng, st, a, b), res)


def eqid(eng, st, a, b):
	"""Formula for (a is b or a == b): comparison used by list methods."""
	return z3.Or(a == b, valeq(eng, st, a, b))


def compare(eng, op, a, b, st):
	if isinstance(op, (ast.In, ast.NotIn)):
		for s, c in contains(eng, a, b, st):
			yield s, (c if isinstance(c, Exc) or isinstance(op, ast.In)
					else z3.Not(c))
		return
	if isinstance(op, (ast.Is, ast.IsNot)):
		c = identical(a, b)
		yield st, (c if isinstance(op, ast.Is) else z3.Not(c))
		return
	if isinstance(op, (ast.Eq, ast.NotEq)) and eng.purehook('__eq__', a, b):
		for s, c in eng.purehook('__eq__', a, b)(eng, st, a, b):
			yield s, (c if isinstance(op, ast.Eq) else z3.Not(c))
		return
	if isinstance(op, (ast.Eq, ast.NotEq)):
		# user defined __eq__
		if (isinstance(a, SRef) and a.cls in eng.classes
				and eng.findmethod(a.cls, '__eq__') and eng.refeq == 'method'):
			for s, v in eng.callmethod(a, '__eq__', [b], {}, st):
				if isinstance(v, Exc):
					yield s, v
					continue
				for s1, c in truth(eng, v, s):
					yield s1, (c if isinstance(c, Exc)
							or isinstance(op, ast.Eq) else z3.Not(c))
			return
		c = equal(eng, a, b, st)
		yield st, (c if isinstance(op, ast.Eq) else z3.Not(c))
		return
	# ordering
	if isinstance(a, SRef) and a.cls in eng.classes:
		name = {ast.Lt: '__lt__', ast.LtE: '__le__', ast.Gt: '__gt__',
				ast.GtE: '__ge__'}[type(op)]
		for s, v in eng.callmethod(a, name, [b], {}, st):
			if isinstance(v, Exc):
				yield s, v
				continue
			for x in truth(eng, v, s):
				yield x
		return
	if isinstance(a, STup) and isinstance(b, STup) and len(a.items) == len(
			b.items) and a.items:
		# lexicographic
		for s, c in compare(eng, ast.Eq(), a.items[0], b.items[0], st):
			if len(a.items) == 1:
				for x in compare(eng, op, a.items[0], b.items[0], s):
					yield x
				return
			strict = {ast.Lt: ast.Lt(), ast.LtE: ast.Lt(), ast.Gt: ast.Gt(),
					ast.GtE: ast.Gt()}[type(op)]
			for s1, c1 in compare(eng, strict, a.items[0], b.items[0], s):
				for s2, c2 in compare(eng, op, STup(a.items[1:]),
						STup(b.items[1:]), s1):
					yield s2, z3.Or(c1, z3.And(c, c2))
		return
	num = _numeric(a, b)
	if num is None:
		if isinstance(a, SNone) or isinstance(b, SNone):
			yield st, Exc('TypeError', 'comparison with None')
			return
		if isinstance(a, SDyn) or isinstance(b, SDyn):
			other = b if isinstance(a, SDyn) else a
			kind = eng.dynorder or ('int' if isinstance(other, (SInt, SBool))
					else None)
			if kind is None and not eng.abstractorder and all(
					eng.known(st, V.is_vint(x.e)) for x in (a, b)
					if isinstance(x, SDyn)):
				kind = 'int'
			if kind == 'int':
				for s, x in eng.asint(a, st):
					if isinstance(x, Exc):
						yield s, x
						continue
					for s1, y in eng.asint(b, s):
						if isinstance(y, Exc):
							yield s1, y
						else:
							yield s1, _cmp(op, x.e, y.e)
				return
			va, vb = toV(a), toV(b)
			if kind == 'abstract' or kind is None and eng.abstractorder:
				lt = (eng.abstractorder if callable(eng.abstractorder)
						else X.pylt)
				yield st, {ast.Lt: lt(va, vb), ast.Gt: lt(vb, va),
						ast.LtE: z3.Not(lt(vb, va)),
						ast.GtE: z3.Not(lt(va, vb))}[type(op)]
				return
		if isinstance(a, SStr) and isinstance(b, SStr) and eng.abstractorder:
			va, vb = toV(a), toV(b)
			lt = X.pylt
			yield st, {ast.Lt: lt(va, vb), ast.Gt: lt(vb, va),
					ast.LtE: z3.Not(lt(vb, va)),
					ast.GtE: z3.Not(lt(va, vb))}[type(op)]
			return
		raise Unsupported('ordering of %s and %s' % (kindof(a), kindof(b)))
	yield st, _cmp(op, *num)


def _cmp(op, x, y):
	return {ast.Lt: x < y, ast.Gt: x > y, ast.LtE: x <= y,
			ast.GtE: x >= y}[type(op)]


def _numeric(a, b):
	def num(v):
		if isinstance(v, SInt):
			return v.e, False
		if isinstance(v, SBool):
			return z3.If(v.e, I1, I0), False
		if isinstance(v, SReal):
			return v.e, True
		return None
	x, y = num(a), num(b)
	if x is None or y is None:
		return None
	if x[1] != y[1]:
		return (x[0] if x[1] else z3.ToReal(x[0]),
				y[0] if y[1] else z3.ToReal(y[0]))
	return x[0], y[0]


def identical(a, b):
	if isinstance(a, SRef) and isinstance(b, SRef):
		return a.e == b.e
	if isinstance(a, SNone) and isinstance(b, SNone):
		return z3.BoolVal(True)
	for x, y in ((a, b), (b, a)):
		if isinstance(x, SNone):
			if isinstance(y, SDyn):
				return V.is_none(y.e)
			return z3.BoolVal(False)
	if isinstance(a, SClass) and isinstance(b, SClass):
		return z3.BoolVal(a.name == b.name)
	va, vb = toV(a), toV(b)
	exact = z3.Or(V.is_vref(va), V.is_none(va), V.is_vbool(va))
	# equal numbers and strings may or may not be the same object
	return z3.And(va == vb, z3.Or(exact, fresh(Bool, 'same')))


def equal(eng, a, b, st):
	num = _numeric(a, b)
	if num is not None:
		return num[0] == num[1]
	if isinstance(a, STup) and isinstance(b, STup):
		if len(a.items) != len(b.items):
			return z3.BoolVal(False)
		return z3.And([z3.BoolVal(True)] + [equal(eng, x, y, st)
				for x, y in zip(a.items, b.items)])
	if isinstance(a, SSeq) or isinstance(b, SSeq):
		if isinstance(b, SSeq):
			a, b = b, a
		if isinstance(b, STup):
			return z3.And([a.n == len(b.items)] + [
					equal(eng, a.get(z3.IntVal(i)), y, st)
					for i, y in enumerate(b.items)])
		raise Unsupported('== of sequences')
	if isinstance(a, SSlice) or isinstance(b, SSlice):
		return z3.BoolVal(False)
	if isinstance(a, SNone) or isinstance(b, SNone):
		return identical(a, b)
	if type(a) is not type(b) and not any(isinstance(x, (SDyn, SRef))
			for x in (a, b)):
		return z3.BoolVal(False)
	if isinstance(a, SStr) and isinstance(b, SStr):
		return a.e == b.e
	return valeq(eng, st, toV(a), toV(b))


def truth(eng, v, st):
	hook = eng.purehook('__bool__', v)
	if hook is not None:
		for x in hook(eng, st, v, [], {}):
			yield x
		return
	if isinstance(v, SBool):
		yield st, v.e
	elif isinstance(v, SInt):
		yield st, v.e != 0
	elif isinstance(v, SReal):
		yield st, v.e != 0
	elif isinstance(v, SNone):
		yield st, z3.BoolVal(False)
	elif isinstance(v, STup):
		yield st, z3.BoolVal(bool(v.items))
	elif isinstance(v, SSeq):
		yield st, v.n > 0
	elif isinstance(v, SStr):
		yield st, v.e != X.strlit('')
	elif isinstance(v, SRange):
		yield st, eng.itercount(v, st) > 0
	elif isinstance(v, (SFunc, SBound, SClass)):
		yield st, z3.BoolVal(True)
	elif isinstance(v, SRef) and v.cls in eng.classes:
		for name in ('__bool__', '__len__'):
			if eng.findmethod(v.cls, name):
				for s, r in eng.callmethod(v, name, [], {}, st):
					if isinstance(r, Exc):
						yield s, r
						continue
					for x in truth(eng, r, s):
						yield x
				return
		yield st, z3.BoolVal(True)
	elif isinstance(v, SRef):
		for s, n in length(eng, v, st):
			yield s, (n if isinstance(n, Exc) else n.e != 0)
	elif isinstance(v, SDyn):
		ref = V.is_vref(v.e)
		for s, b in eng.split(st, ref):
			if not b:
				e = v.e
				yield s, z3.If(V.is_none(e), False, z3.If(V.is_vbool(e),
						V.b(e), z3.If(V.is_vint(e), V.i(e) != 0,
						z3.If(V.is_vreal(e), V.r(e) != 0, z3.If(V.is_vstr(e),
						V.s(e) != X.strlit(''), V.is_vcons(e))))))
				continue
			found = False
			for cls in eng.dynclasses:
				for s1, b1 in eng.split(s, eng.isinst(V.ref(v.e), cls)):
					if b1:
						for x in truth(eng, SRef(V.ref(v.e), cls), s1):
							yield x
					else:
						s, found = s1, True
				if not found:
					break
				found = False
			else:
				if eng.dynclasses and not X.feasible(s):
					continue
				yield s, fresh(Bool, 'truth')
	else:
		raise Unsupported('truth value of %s' % type(v).__name__)


def length(eng, v, st):
	hook = eng.purehook('__len__', v)
	if hook is not None:
		for x in hook(eng, st, v, [], {}):
			yield x
		return
	if isinstance(v, SRef) and v.cls in eng.classes:
		for x in eng.callmethod(v, '__len__', [], {}, st):
			yield x
	elif isinstance(v, SRef) and v.cls == 'list':
		n = listlen(eng, st, v.e)
		st.assume(n >= 0)
		yield st, SInt(n)
	elif isinstance(v, SRef) and v.cls == 'heapq':
		n = st.heap['llen'][v.e]
		st.assume(n >= 0)
		yield st, SInt(n)
	elif isinstance(v, SRef) and v.cls == 'dict':
		n = st.heap['dsize'][v.e]
		st.assume(n >= 0)
		yield st, SInt(n)
	elif isinstance(v, SRef) and v.cls == 'set':
		n = st.heap['ssize'][v.e]
		st.assume(n >= 0)
		yield st, SInt(n)
	elif isinstance(v, STup):
		yield st, SInt(len(v.items))
	elif isinstance(v, SSeq):
		st.assume(v.n >= 0)
		yield st, SInt(v.n)
	elif isinstance(v, (SRange, SIter)):
		yield st, SInt(eng.itercount(v, st))
	elif isinstance(v, SDyn):
		for s, r in eng.narrow(v, '__len__', st):
			if isinstance(r, Exc):
				yield s, Exc('TypeError', 'no len()')
			else:
				for x in length(eng, r, s):
					yield x
	elif isinstance(v, (SNone, SInt, SBool, SReal)):
		yield st, Exc('TypeError', 'no len()')
	elif isinstance(v, SStr):
		n = z3.Function('strlen', X.Str, Int)(v.e)
		st.assume(n >= 0, (n == 0) == (v.e == X.strlit('')))
		yield st, SInt(n)
	elif isinstance(v, SRef) and v.cls + '.__len__' in eng.callees:
		for x in eng.callees[v.cls + '.__len__'](eng, st, v, [], {}):
			yield x
	else:
		raise Unsupported('len of %s' % type(v).__name__)


def contains(eng, x, r, st):
	hook = eng.purehook('__contains__', r)
	if hook is not None:
		for y in hook(eng, st, r, x):
			yield y
		return
	if isinstance(r, (STup, SSet)):
		yield st, z3.Or([z3.BoolVal(False)] + [equal(eng, x, y, st)
				for y in r.items])
	elif isinstance(r, SRef) and r.cls == 'dict':
		yield st, st.heap['ddom'][r.e][toV(x)]
	elif isinstance(r, SRef) and r.cls == 'set':
		yield st, st.heap['sdom'][r.e][toV(x)]
	elif isinstance(r, SRef) and r.cls == 'list' and eng.listmode == 'array':
		j = fresh(Int, 'j')
		arr, n = st.heap['lget'][r.e], st.heap['llen'][r.e]
		yield st, z3.Exists([j], z3.And(0 <= j, j < n,
				eqid(eng, st, arr[j], toV(x))))
	elif isinstance(r, SSeq):
		j = fresh(Int, 'j')
		yield st, z3.Exists([j], z3.And(0 <= j, j < r.n,
				equal(eng, r.get(j), x, st)))
	elif isinstance(r, SRange) and isinstance(x, SInt) and r.step == 1:
		yield st, z3.And(r.lo <= x.e, x.e < r.hi)
	elif isinstance(r, SRef) and r.cls in eng.classes:
		if not eng.findmethod(r.cls, '__contains__'):
			raise Unsupported('in %s' % r.cls)
		for s, v in eng.callmethod(r, '__contains__', [x], {}, st):
			if isinstance(v, Exc):
				yield s, v
				continue
			for y in truth(eng, v, s):
				yield y
	elif isinstance(r, SStr) and isinstance(x, SStr):
		yield st, z3.Function('str_in', X.Str, X.Str, Bool)(x.e, r.e)
	elif isinstance(r, SDyn):
		for s, y in eng.narrow(r, '__contains__', st):
			if isinstance(y, Exc):
				yield s, Exc('TypeError', 'not iterable')
			else:
				for z in contains(eng, x, y, s):
					yield z
	else:
		raise Unsupported('in %s' % kindof(r))


# --- arithmetic ---------------------------------------------------------------
def binop(eng, op, a, b, st):
	if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor, ast.LShift,
			ast.RShift)):
		name = {ast.BitAnd: '__and__', ast.BitOr: '__or__'}.get(type(op))
		hook = eng.purehook(name, a, b) if name else None
		if hook is not None:
			for x in hook(eng, st, a, b):
				yield x
			return
		if eng.bits is not None and isinstance(a, SInt) and isinstance(b,
				SInt):
			for x in eng.bits(eng, op, a, b, st):
				yield x
			return
		if eng.bits is not None and isinstance(a, (SInt, SDyn)) and isinstance(
				b, (SInt, SDyn)):
			for s, x in eng.asint(a, st):
				if isinstance(x, Exc):
					yield s, x
					continue
				for s1, y in eng.asint(b, s):
					for z in ([(s1, y)] if isinstance(y, Exc) else
							eng.bits(eng, op, x, y, s1)):
						yield z
			return
		raise Unsupported('bit operation')
	if isinstance(op, ast.Add) and eng.purehook('__add__', a, b):
		for x in eng.purehook('__add__', a, b)(eng, st, a, b):
			yield x
		return
	if (isinstance(op, ast.Add) and isinstance(a, SRef) and a.cls
			in eng.classes and eng.findmethod(a.cls, '__add__')):
		for x in eng.callmethod(a, '__add__', [b], {}, st):
			yield x
		return
	hook = isinstance(op, (ast.Div, ast.Sub, ast.Mult)) and eng.purehook({
			ast.Div: '__truediv__', ast.Sub: '__sub__', ast.Mult: '__mul__'}[
			type(op)], a, b)
	if hook:
		for x in hook(eng, st, a, b):
			yield x
		return
	num = _numeric(a, b)
	if num is not None:
		x, y = num
		real = x.sort() == z3.RealSort()
		mk = SReal if real else SInt
		if isinstance(op, ast.Add):
			yield st, mk(x + y)
		elif isinstance(op, ast.Sub):
			yield st, mk(x - y)
		elif isinstance(op, ast.Mult):
			yield st, mk(x * y)
		elif isinstance(op, ast.Div):
			for s, z in eng.split(st, y == 0):
				if z:
					yield s, Exc('ZeroDivisionError', 'division')
				else:
					if not real:
						x, y = z3.ToReal(num[0]), z3.ToReal(num[1])
					yield s, SReal(x / y)
		elif isinstance(op, (ast.FloorDiv, ast.Mod)) and not real:
			for s, z in eng.split(st, y == 0):
				if z:
					yield s, Exc('ZeroDivisionError', 'division')
					continue
				# floor division; z3's div rounds so that 0 <= mod < |y|
				q = z3.If(z3.Or(y > 0, x % y == 0), x / y, x / y - 1)
				yield s, SInt(q if isinstance(op, ast.FloorDiv)
						else x - y * q)
		elif isinstance(op, ast.Pow) and not real and z3.is_int_value(
				z3.simplify(x)) and z3.simplify(x).as_long() == 2:
			from . import intbits as ib
			eng.oblige(st, 'exponent is not negative', y >= 0)
			yield st, SInt(ib.pow2(y))
		else:
			raise Unsupported('operator %s' % type(op).__name__)
		return
	if isinstance(op, ast.Add):
		if isinstance(a, SSeq) and isinstance(b, SSeq) and getattr(a, 'seq',
				None) is None and getattr(b, 'seq', None) is None:
			def get(j):
				x, y = a.get(j), b.get(j - a.n)
				e = z3.If(j < a.n, toV(x), toV(y))
				return SStr(V.s(e)) if isinstance(x, SStr) and isinstance(y,
						SStr) else SDyn(e)
			st.assume(a.n >= 0, b.n >= 0)
			yield st, SSeq(a.n + b.n, get)
			return
		if (isinstance(a, SDyn) and isinstance(b, SRef) and b.cls == 'list'
				or isinstance(b, SDyn) and isinstance(a, SRef)
				and a.cls == 'list') and 'list' in eng.dynclasses:
			x = a if isinstance(a, SDyn) else b
			for s, r in eng.narrow(x, 'append', st):
				if isinstance(r, Exc):
					yield s, r
				else:
					yield s, (concat(eng, s, r, b) if x is a
							else concat(eng, s, a, r))
			return
		if isinstance(a, STup) and isinstance(b, STup):
			yield st, STup(a.items + b.items)
			return
		if (isinstance(a, SRef) and isinstance(b, SRef) and a.cls == 'list'
				and b.cls == 'list'):
			yield st, concat(eng, st, a, b)
			return
		if isinstance(a, SStr) and isinstance(b, SStr):
			yield st, SStr(z3.Function('str_add', X.Str, X.Str, X.Str)(
					a.e, b.e))
			return
		if isinstance(a, SDyn) and isinstance(b, SDyn) and eng.known(st,
				z3.And(istuple(a.e), istuple(b.e))):
			yield st, tupcat(st, a, b)
			return
		if isinstance(a, (STup, SDyn)) and isinstance(b, (STup, SDyn)) and (
				isinstance(a, STup) or isinstance(b, STup)):
			# tuples; a value of unknown type must be one
			x = a if isinstance(a, SDyn) else b
			for s, ok in eng.split(st, istuple(x.e)):
				yield s, (tupcat(s, a, b) if ok
						else Exc('TypeError', 'concatenation'))
			return
	if isinstance(op, ast.Mult) and eng.listmode != 'seq':
		x, y = (a, b) if isinstance(a, SRef) else (b, a)
		if isinstance(x, SRef) and x.cls == 'list' and isinstance(y, SInt):
			yield st, repeated(eng, st, x, y.e)
			return
	if isinstance(a, SStr) and isinstance(op, ast.Mod):
		if eng.fmtvalues is not None:
			yield st, SStr(eng.fmtvalues(a.e, toV(b)))
		else:
			yield st, SStr(fresh(X.Str, 'formatted'))
		return
	for x, y in ((a, b), (b, a)):
		if isinstance(x, SDyn):
			if isinstance(y, (SInt, SBool, SDyn)) and eng.dynarith != 'real':
				for s, i in eng.asint(a, st):
					if isinstance(i, Exc):
						yield s, i
						continue
					for s1, k in eng.asint(b, s):
						if isinstance(k, Exc):
							yield s1, k
							continue
						for z in binop(eng, op, i, k, s1):
							yield z
				return
			if eng.dynarith == 'real' or isinstance(y, SReal):
				for s, i in asreal(eng, a, st):
					if isinstance(i, Exc):
						yield s, i
						continue
					for s1, k in asreal(eng, b, s):
						if isinstance(k, Exc):
							yield s1, k
							continue
						for z in binop(eng, op, i, k, s1):
							yield z
				return
	if isinstance(a, SNone) or isinstance(b, SNone):
		yield st, Exc('TypeError', 'operand None')
		return
	raise Unsupported('operator %s on %s and %s' % (type(op).__name__,
			kindof(a), kindof(b)))


def repeated(eng, st, r, k):
	"""list * int"""
	n, old = st.heap['llen'][r.e], st.heap['lget'][r.e]
	st.assume(n >= 0)
	k = z3.If(k > 0, k, z3.IntVal(0))
	if z3.is_int_value(z3.simplify(n)) and z3.simplify(n).as_long() == 1:
		return eng.newlist(st, n=k, arr=z3.K(Int, z3.simplify(old[0])))
	arr, j = fresh(z3.ArraySort(Int, V), 'repeated'), z3.Int('j')
	st.assume(X.forall([j], z3.Implies(z3.And(0 <= j, j < n * k), arr[j]
			== old[j % n]), patterns=[arr[j]]))
	return eng.newlist(st, n=n * k, arr=arr)


def istuple(e):
	return z3.Or(V.is_vnil(e), V.is_vcons(e))


TUPCAT = z3.Function('tupcat', V, V, V)


def tupcataxioms():
	"""Concatenation of tuples: definition and lemmas (by induction)."""
	a, b, c, h = z3.Consts('a b c h', V)
	return [X.forall([b], TUPCAT(V.vnil, b) == b, patterns=[TUPCAT(V.vnil,
			b)]),
		X.forall([h, a, b], TUPCAT(V.vcons(h, a), b) == V.vcons(h, TUPCAT(a,
			b)), patterns=[TUPCAT(V.vcons(h, a), b)]),
		X.forall([a, b, c], z3.Implies(z3.And(istuple(a), istuple(b)),
			TUPCAT(TUPCAT(a, b), c) == TUPCAT(a, TUPCAT(b, c))),
			patterns=[TUPCAT(TUPCAT(a, b), c)]),
		X.forall([a], z3.Implies(istuple(a), TUPCAT(a, V.vnil) == a),
			patterns=[TUPCAT(a, V.vnil)]),
		X.forall([a, b], z3.Implies(z3.And(istuple(a), istuple(b)), istuple(
			TUPCAT(a, b))), patterns=[TUPCAT(a, b)])]


def tupcat(st, a, b):
	if isinstance(a, STup):
		res = toV(b)
		for x in reversed(a.items):
			res = V.vcons(toV(x), res)
		return SDyn(res)
	st.assume(*tupcataxioms())
	return SDyn(TUPCAT(a.e, toV(b)))


def asreal(eng, v, st):
	num = _numeric(v, SReal(z3.RealVal(0)))
	if num is not None:
		yield st, SReal(num[0])
		return
	if isinstance(v, SDyn):
		ok = z3.Or(V.is_vreal(v.e), V.is_vint(v.e))
		for s, b in eng.split(st, ok):
			yield s, (SReal(z3.If(V.is_vreal(v.e), V.r(v.e),
					z3.ToReal(V.i(v.e)))) if b
					else Exc('TypeError', 'not a number'))
		return
	yield st, Exc('TypeError', 'not a number')


# --- lists ----------------------------------------------------------------
def listlen(eng, st, r):
	if eng.listmode == 'seq':
		return z3.Length(st.heap['lseq'][r])
	return st.heap['llen'][r]


def setlist(st, r, n, arr):
	st.heap['llen'] = z3.Store(st.heap['llen'], r, n)
	st.heap['lget'] = z3.Store(st.heap['lget'], r, arr)


def newarray(st, name, fwd, back=()):
	"""A fresh array A with A[j] == fwd(j) for all j.

	:param back: pairs (array, function j -> formula over A and array[j]),
		implied by the former but instantiated on reads from the old array."""
	arr = fresh(z3.ArraySort(Int, V), name)
	j = z3.Int('j')
	st.assume(X.forall([j], arr[j] == fwd(j), patterns=[arr[j]]))
	for old, fn in back:
		st.assume(X.forall([j], fn(arr, j), patterns=[old[j]]))
	return arr


def listappend(eng, st, r, x):
	if eng.listmode == 'seq':
		seq = st.heap['lseq'][r]
		st.heap['lseq'] = z3.Store(st.heap['lseq'], r,
				z3.Concat(seq, z3.Unit(x)))
		return
	n = st.heap['llen'][r]
	st.assume(n >= 0)
	setlist(st, r, n + 1, z3.Store(st.heap['lget'][r], n, x))


def elements(eng, v, st):
	"""(n, function j -> V expr, array or None) for a sequence value."""
	if isinstance(v, STup):
		items = [toV(x) for x in v.items]

		def get(j):
			e = V.none
			for i in range(len(items) - 1, -1, -1):
				e = z3.If(j == i, items[i], e)
			return e
		return z3.IntVal(len(items)), get, None
	if isinstance(v, SSeq):
		st.assume(v.n >= 0)
		return v.n, lambda j: toV(v.get(j)), getattr(v, 'arr', None)
	if isinstance(v, SRef) and v.cls == 'list':
		if eng.listmode == 'seq':
			raise Unsupported('sequence list')
		arr, n = st.heap['lget'][v.e], st.heap['llen'][v.e]
		st.assume(n >= 0)
		return n, lambda j: arr[j], arr
	if isinstance(v, SRange):
		return eng.itercount(v, st), lambda j: toV(eng.iterget(v, j, st)), None
	if isinstance(v, SIter):
		return eng.itercount(v, st), lambda j: toV(
				eng.iterget(v, j, st)), None
	raise Unsupported('elements of %s' % kindof(v))


def elementarray(eng, v, st):
	"""As elements(), but get(j) is always an array read (a good pattern)."""
	n, get, arr = elements(eng, v, st)
	if arr is None:
		arr = fresh(z3.ArraySort(Int, V), 'elems')
		j = z3.Int('j')
		st.assume(X.forall([j], z3.Implies(z3.And(0 <= j, j < n),
				arr[j] == get(j)), patterns=[arr[j]]))
	return n, lambda j: arr[j], arr


def m_append(eng, st, recv, args, kwargs):
	listappend(eng, st, recv.e, toV(args[0]))
	yield st, SNone()


def m_extend(eng, st, recv, args, kwargs):
	for s, it in eng.iterable(args[0], st):
		if isinstance(it, Exc):
			yield s, it
			continue
		if eng.listmode == 'seq':
			s.heap['lseq'] = z3.Store(s.heap['lseq'], recv.e, z3.Concat(
					s.heap['lseq'][recv.e], seqof(eng, it, s)))
			yield s, SNone()
			continue
		if isinstance(it, STup):
			for x in it.items:
				listappend(eng, s, recv.e, toV(x))
			yield s, SNone()
			continue
		m, get, src = elements(eng, it, s)
		n, old = s.heap['llen'][recv.e], s.heap['lget'][recv.e]
		s.assume(n >= 0)
		back = [(old, lambda A, j: z3.Implies(j < n, A[j] == old[j]))]
		if src is not None:
			back.append((src, lambda A, j: z3.Implies(z3.And(0 <= j, j < m),
					A[n + j] == src[j])))
		arr = newarray(s, 'ext', lambda j: z3.If(j < n, old[j], get(j - n)),
				back)
		setlist(s, recv.e, n + m, arr)
		yield s, SNone()


def seqof(eng, it, st):
	if isinstance(it, SRef) and it.cls == 'list':
		return st.heap['lseq'][it.e]
	if isinstance(it, STup):
		seq = z3.Empty(z3.SeqSort(V))
		for x in it.items:
			seq = z3.Concat(seq, z3.Unit(toV(x)))
		return seq
	if isinstance(it, SSeq) and getattr(it, 'seq', None) is not None:
		return it.seq
	raise Unsupported('sequence of %s' % kindof(it))


def m_insert(eng, st, recv, args, kwargs):
	for s, i in eng.asint(args[0], st):
		if isinstance(i, Exc):
			yield s, i
			continue
		x = toV(args[1])
		if eng.listmode == 'seq':
			raise Unsupported('insert')
		n, old = s.heap['llen'][recv.e], s.heap['lget'][recv.e]
		s.assume(n >= 0)
		k = fresh(Int, 'at')
		neg = z3.If(i.e + n < 0, I0, i.e + n)
		s.assume(k == z3.If(i.e < 0, neg, z3.If(i.e > n, n, i.e)))
		arr = newarray(s, 'ins', lambda j: z3.If(j < k, old[j],
				z3.If(j == k, x, old[j - 1])),
				[(old, lambda A, j: z3.If(j < k, A[j] == old[j],
					A[j + 1] == old[j]))])
		setlist(s, recv.e, n + 1, arr)
		yield s, SNone()


def inrange(eng, st, r, i):
	"""Yields (state, index or Exc) for a list index."""
	n = listlen(eng, st, r)
	st.assume(n >= 0)
	for s, neg in eng.split(st, i < 0):
		k = i + n if neg else i
		k = z3.simplify(k)
		for s1, ok in eng.split(s, z3.And(0 <= k, k < n)):
			yield s1, (k if ok else Exc('IndexError', 'list index'))


def delat(st, r, k):
	n, old = st.heap['llen'][r], st.heap['lget'][r]
	arr = newarray(st, 'del', lambda j: z3.If(j < k, old[j], old[j + 1]),
			[(old, lambda A, j: z3.If(j < k, A[j] == old[j],
				z3.Implies(j > k, A[j - 1] == old[j])))])
	setlist(st, r, n - 1, arr)


def m_pop(eng, st, recv, args, kwargs):
	arg = args[0] if args else SInt(-1)
	for s, i in eng.asint(arg, st):
		if isinstance(i, Exc):
			yield s, i
			continue
		for s1, k in inrange(eng, s, recv.e, i.e):
			if isinstance(k, Exc):
				yield s1, k
				continue
			if eng.listmode == 'seq':
				seq = s1.heap['lseq'][recv.e]
				n = z3.Length(seq)
				val = eng.loaded(seq[k], s1)
				if not args:
					new = z3.SubSeq(seq, I0, n - 1)
					s1.assume(seq == z3.Concat(new, z3.Unit(seq[k])))
				else:
					new = z3.Concat(z3.SubSeq(seq, I0, k), z3.SubSeq(seq,
							k + 1, n - k - 1))
				s1.heap['lseq'] = z3.Store(s1.heap['lseq'], recv.e, new)
				yield s1, val
				continue
			val = eng.loaded(s1.heap['lget'][recv.e][k], s1)
			if not args:
				# the last element: other positions stay
				n = s1.heap['llen'][recv.e]
				s1.heap['llen'] = z3.Store(s1.heap['llen'], recv.e, n - 1)
			else:
				delat(s1, recv.e, k)
			yield s1, val


def findfirst(eng, st, recv, x):
	"""Yields (state, first index of element equal to x or Exc)."""
	n, arr = st.heap['llen'][recv.e], st.heap['lget'][recv.e]
	st.assume(n >= 0)
	j = z3.Int('j')
	a = st.fork()
	k = fresh(Int, 'found')
	a.assume(0 <= k, k < n, eqid(eng, a, arr[k], x))
	a.assume(X.forall([j], z3.Implies(z3.And(0 <= j, j < k),
			z3.Not(eqid(eng, a, arr[j], x))), patterns=[arr[j]]))
	if X.feasible(a):
		yield a, k
	st.assume(X.forall([j], z3.Implies(z3.And(0 <= j, j < n),
			z3.Not(eqid(eng, st, arr[j], x))), patterns=[arr[j]]))
	yield st, Exc('ValueError', 'not in list')


def m_index(eng, st, recv, args, kwargs):
	if eng.listmode == 'seq' or len(args) != 1:
		raise Unsupported('list.index')
	for s, k in findfirst(eng, st, recv, toV(args[0])):
		yield s, (k if isinstance(k, Exc) else SInt(k))


def m_remove(eng, st, recv, args, kwargs):
	if eng.listmode == 'seq':
		raise Unsupported('list.remove')
	for s, k in findfirst(eng, st, recv, toV(args[0])):
		if isinstance(k, Exc):
			yield s, k
			continue
		delat(s, recv.e, k)
		yield s, SNone()


def m_clear(eng, st, recv, args, kwargs):
	if eng.listmode == 'seq':
		st.heap['lseq'] = z3.Store(st.heap['lseq'], recv.e,
				z3.Empty(z3.SeqSort(V)))
	else:
		st.heap['llen'] = z3.Store(st.heap['llen'], recv.e, 0)
	yield st, SNone()


def m_copy(eng, st, recv, args, kwargs):
	for s, r in copylist(eng, recv, st):
		yield s, r


def copylist(eng, v, st):
	"""list(v)"""
	for s, it in eng.iterable(v, st):
		if isinstance(it, Exc):
			yield s, it
			continue
		if eng.listmode == 'seq':
			yield s, eng.newlist(s, arr=seqof(eng, it, s))
			continue
		if isinstance(it, STup):
			yield s, eng.newlist(s, [toV(x) for x in it.items])
			continue
		n, get, src = elements(eng, it, s)
		if src is not None:
			yield s, eng.newlist(s, n=n, arr=src)
			continue
		j = z3.Int('j')
		arr = fresh(z3.ArraySort(Int, V), 'copy')
		s.assume(X.forall([j], z3.Implies(z3.And(0 <= j, j < n),
				arr[j] == get(j)), patterns=[arr[j]]))
		yield s, eng.newlist(s, n=n, arr=arr)


def concat(eng, st, a, b):
	if eng.listmode == 'seq':
		return eng.newlist(st, arr=z3.Concat(st.heap['lseq'][a.e],
				st.heap['lseq'][b.e]))
	n, get1, src1 = elements(eng, a, st)
	m, get2, src2 = elements(eng, b, st)
	arr = newarray(st, 'cat', lambda j: z3.If(j < n, get1(j), get2(j - n)),
			[(src1, lambda A, j: z3.Implies(j < n, A[j] == src1[j])),
			(src2, lambda A, j: z3.Implies(0 <= j, A[n + j] == src2[j]))])
	return eng.newlist(st, n=n + m, arr=arr)


def slicebounds(eng, sl, n, st):
	"""Yields (state, a, b) with 0 <= a <= n, 0 <= b <= n."""
	def bound(v, default, s):
		if isinstance(v, SNone):
			yield s, default
			return
		if isinstance(v, SDyn):
			for s1, isnone in eng.split(s, V.is_none(v.e)):
				if isnone:
					yield s1, default
				else:
					for s2, i in eng.asint(v, s1):
						if isinstance(i, Exc):
							yield s2, i
						else:
							yield s2, clamp(i.e)
			return
		for s1, i in eng.asint(v, s):
			yield s1, (i if isinstance(i, Exc) else clamp(i.e))

	def clamp(i):
		return z3.If(i < 0, z3.If(i + n < 0, I0, i + n), z3.If(i > n, n, i))
	for s, a in bound(sl.a, I0, st):
		if isinstance(a, Exc):
			yield s, a, None
			continue
		for s1, b in bound(sl.b, n, s):
			if isinstance(b, Exc):
				yield s1, b, None
				continue
			x, y = fresh(Int, 'lo'), fresh(Int, 'hi')
			s1.assume(x == a, y == b)
			yield s1, x, y


def step(sl):
	c = sl.c
	if isinstance(c, SNone):
		return 1
	if isinstance(c, SInt):
		e = z3.simplify(c.e)
		if z3.is_int_value(e):
			return e.as_long()
	return None


def getslice(eng, recv, sl, st):
	k = step(sl)
	if k is None and isinstance(sl.c, (SInt, SDyn)):
		for s, c in eng.asint(sl.c, st):
			if isinstance(c, Exc):
				yield s, c
				continue
			for s1, one in eng.split(s, c.e == 1):
				if one:
					for x in getslice(eng, recv, SSlice(sl.a, sl.b, SNone()),
							s1):
						yield x
				else:
					raise Unsupported('slice step')
		return
	if k == -1 and isinstance(sl.b, SNone) and isinstance(sl.a, SInt) and (
			eng.listmode != 'seq'):
		# recv[a::-1]
		n, old = st.heap['llen'][recv.e], st.heap['lget'][recv.e]
		i, a = sl.a.e, fresh(Int, 'from')
		st.assume(n >= 0, a == z3.If(i < 0, z3.If(i + n < 0, -1, i + n), z3.If(
				i >= n, n - 1, i)))
		arr = newarray(st, 'rev', lambda j: old[a - j],
				[(old, lambda A, j: z3.Implies(j <= a, A[a - j] == old[j]))])
		yield st, eng.newlist(st, n=a + 1, arr=arr)
		return
	if k == -1 and isinstance(sl.a, SNone) and isinstance(sl.b, SNone):
		if eng.listmode == 'seq':
			rev = z3.Function('seq_rev', z3.SeqSort(V), z3.SeqSort(V))
			yield st, eng.newlist(st, arr=rev(st.heap['lseq'][recv.e]))
			return
		n, old = st.heap['llen'][recv.e], st.heap['lget'][recv.e]
		st.assume(n >= 0)
		arr = newarray(st, 'rev', lambda j: old[n - 1 - j],
				[(old, lambda A, j: A[n - 1 - j] == old[j])])
		yield st, eng.newlist(st, n=n, arr=arr)
		return
	if k != 1:
		raise Unsupported('slice step')
	n = listlen(eng, st, recv.e)
	st.assume(n >= 0)
	for s, a, b in slicebounds(eng, sl, n, st):
		if isinstance(a, Exc):
			yield s, a
			continue
		m = fresh(Int, 'cnt')
		s.assume(m == z3.If(b > a, b - a, I0))
		if eng.listmode == 'seq':
			yield s, eng.newlist(s, arr=z3.SubSeq(s.heap['lseq'][recv.e], a,
					m))
			continue
		old = s.heap['lget'][recv.e]
		arr = newarray(s, 'sub', lambda j: old[a + j],
				[(old, lambda A, j: z3.Implies(z3.And(a <= j, j < b),
					A[j - a] == old[j]))])
		yield s, eng.newlist(s, n=m, arr=arr)


def setslice(eng, recv, sl, v, st):
	"""recv[a:b] = v; v None for deletion."""
	if step(sl) != 1:
		c = sl.c
		if isinstance(c, (SInt, SDyn)) and step(sl) is None:
			for s, i in eng.asint(c, st):
				if isinstance(i, Exc):
					yield s, i
					continue
				for s1, one in eng.split(s, i.e == 1):
					if one:
						for x in setslice(eng, recv, SSlice(sl.a, sl.b,
								SNone()), v, s1):
							yield x
					else:
						raise Unsupported('slice step')
			return
		raise Unsupported('slice step')
	if eng.listmode == 'seq':
		raise Unsupported('slice assignment')
	n, old = st.heap['llen'][recv.e], st.heap['lget'][recv.e]
	st.assume(n >= 0)
	for s, a, b0 in slicebounds(eng, sl, n, st):
		if isinstance(a, Exc):
			yield s, a
			continue
		b = fresh(Int, 'end')
		s.assume(b == z3.If(b0 < a, a, b0))
		if v is None:
			m, get, src = I0, None, None
		else:
			its = list(eng.iterable(v, s))
			if len(its) != 1 or isinstance(its[0][1], Exc):
				raise Unsupported('slice assignment')
			s, it = its[0]
			m, get, src = elements(eng, it, s)

		def fwd(j, a=a, b=b, m=m, get=get):
			tail = z3.If(j < a, old[j], old[j - m + (b - a)])
			if get is None:
				return tail
			return z3.If(z3.And(a <= j, j < a + m), get(j - a), tail)
		back = [(old, lambda A, j: z3.And(z3.Implies(j < a, A[j] == old[j]),
				z3.Implies(j >= b, A[j - (b - a) + m] == old[j])))]
		if src is not None:
			back.append((src, lambda A, j: z3.Implies(z3.And(0 <= j, j < m),
					A[a + j] == src[j])))
		arr = newarray(s, 'splice', fwd, back)
		setlist(s, recv.e, n - (b - a) + m, arr)
		yield s, SNone()


def getitem(eng, r, i, st):
	if isinstance(r, SNone):
		yield st, Exc('TypeError', 'not subscriptable')
		return
	if isinstance(r, SDyn):
		for s, x in eng.narrow(r, '__getitem__', st):
			if isinstance(x, Exc):
				yield s, Exc('TypeError', 'not subscriptable')
			else:
				for y in getitem(eng, x, i, s):
					yield y
		return
	if isinstance(r, SRef) and r.cls in eng.classes:
		for x in eng.callmethod(r, '__getitem__', [i], {}, st):
			yield x
		return
	if isinstance(r, SNone):
		yield st, Exc('TypeError', 'None is not subscriptable')
		return
	if isinstance(r, SRef) and r.cls == 'list':
		if isinstance(i, SSlice):
			for x in getslice(eng, r, i, st):
				yield x
			return
		for s, k in eng.asint(i, st):
			if isinstance(k, Exc):
				yield s, k
				continue
			for s1, j in inrange(eng, s, r.e, k.e):
				if isinstance(j, Exc):
					yield s1, j
				elif eng.listmode == 'seq':
					yield s1, eng.loaded(s1.heap['lseq'][r.e][j], s1)
				else:
					yield s1, eng.loaded(s1.heap['lget'][r.e][j], s1)
		return
	if isinstance(r, SRef) and r.cls == 'dict':
		key = toV(i)
		for s, b in eng.split(st, st.heap['ddom'][r.e][key]):
			if b:
				yield s, eng.loaded(s.heap['dmap'][r.e][key], s)
			elif eng.dictdefault is not None:
				for x in eng.dictdefault(eng, s, r, key):
					yield x
			else:
				yield s, Exc('KeyError', 'key')
		return
	if isinstance(r, STup):
		if isinstance(i, SSlice):
			parts = []
			for p in (i.a, i.b, i.c):
				if isinstance(p, SNone):
					parts.append(None)
				elif isinstance(p, SInt) and z3.is_int_value(z3.simplify(
						p.e)):
					parts.append(z3.simplify(p.e).as_long())
				else:
					raise Unsupported('tuple slice')
			yield st, STup(r.items[slice(*parts)])
			return
		for s, k in eng.asint(i, st):
			if isinstance(k, Exc):
				yield s, k
				continue
			e = z3.simplify(k.e)
			if z3.is_int_value(e):
				k = e.as_long()
				if -len(r.items) <= k < len(r.items):
					yield s, r.items[k]
				else:
					yield s, Exc('IndexError', 'tuple')
				continue
			done = s
			n = len(r.items)
			for pos in range(n):
				nxt = None
				for s1, b in eng.split(done, z3.Or(e == pos, e == pos - n)):
					if b:
						yield s1, r.items[pos]
					else:
						nxt = s1
				if nxt is None:
					return
				done = nxt
			yield done, Exc('IndexError', 'tuple')
		return
	if isinstance(r, SSeq):
		if isinstance(i, SSlice):
			if step(i) != 1:
				raise Unsupported('slice of parameter sequence')
			st.assume(r.n >= 0)
			for s, a, b in slicebounds(eng, i, r.n, st):
				if isinstance(a, Exc):
					yield s, a
					continue
				yield s, SSeq(z3.If(b > a, b - a, I0),
						lambda j, a=a: r.get(a + j))
			return
		st.assume(r.n >= 0)
		for s, k in eng.asint(i, st):
			if isinstance(k, Exc):
				yield s, k
				continue
			for s1, neg in eng.split(s, k.e < 0):
				j = k.e + r.n if neg else k.e
				for s2, ok in eng.split(s1, z3.And(0 <= j, j < r.n)):
					yield s2, (r.get(j) if ok
							else Exc('IndexError', 'sequence'))
		return
	if isinstance(r, SRef) and r.cls == 'matrix':
		for s, ij in matrixindex(eng, r, i, st):
			yield s, (ij if isinstance(ij, Exc)
					else SInt(s.heap['mget'][r.e][ij[0]][ij[1]]))
		return
	raise Unsupported('subscript of %s' % kindof(r))


def matrixindex(eng, r, i, st):
	"""(row, column) of a two-dimensional array; negative numbers count from
	the end."""
	if not isinstance(i, STup) or len(i.items) != 2:
		raise Unsupported('index of matrix')
	for s, k in eng.asint(i.items[0], st):
		if isinstance(k, Exc):
			yield s, k
			continue
		for s1, m in eng.asint(i.items[1], s):
			if isinstance(m, Exc):
				yield s1, m
				continue
			todo = [(s1, [])]
			for x, f in ((k.e, 'mrows'), (m.e, 'mcols')):
				new = []
				for s2, done in todo:
					if isinstance(done, Exc):
						new.append((s2, done))
						continue
					n = s2.heap[f][r.e]
					for s3, neg in eng.split(s2, x < 0):
						j = x + n if neg else x
						for s4, ok in eng.split(s3, z3.And(0 <= j, j < n)):
							new.append((s4, done + [j] if ok else Exc(
									'IndexError', 'matrix')))
				todo = new
			for x in todo:
				yield x


def b_zeros(eng, st, args, kwargs):
	"""numpy.zeros((m, n), int)."""
	if (kwargs or len(args) != 2 or not isinstance(args[0], STup)
			or len(args[0].items) != 2 or not (isinstance(args[1], (X.SName,
			X.SClass)) and args[1].name == 'int')):
		raise Unsupported('zeros')
	for s, m in eng.asint(args[0].items[0], st):
		for s1, n in eng.asint(args[0].items[1], s):
			if isinstance(m, Exc) or isinstance(n, Exc):
				yield s1, (m if isinstance(m, Exc) else n)
				continue
			for s2, neg in eng.split(s1, z3.Or(m.e < 0, n.e < 0)):
				if neg:
					yield s2, Exc('ValueError', 'negative dimension')
					continue
				r = eng.alloc(s2, 'matrix')
				h = s2.heap
				h['mget'] = z3.Store(h['mget'], r, z3.K(Int, z3.K(Int,
						z3.IntVal(0))))
				h['mrows'] = z3.Store(h['mrows'], r, m.e)
				h['mcols'] = z3.Store(h['mcols'], r, n.e)
				yield s2, SRef(r, 'matrix')


def setitem(eng, r, i, v, st):
	if isinstance(r, SNone):
		yield st, Exc('TypeError', 'no item assignment')
		return
	if isinstance(r, SDyn):
		for s, x in eng.narrow(r, '__setitem__', st):
			if isinstance(x, Exc):
				yield s, Exc('TypeError', 'no item assignment')
			else:
				for y in setitem(eng, x, i, v, s):
					yield y
		return
	if isinstance(r, SRef) and r.cls in eng.classes:
		for x in eng.callmethod(r, '__setitem__', [i, v], {}, st):
			yield x
		return
	if isinstance(r, SRef) and r.cls == 'list':
		if isinstance(i, SSlice):
			for x in setslice(eng, r, i, v, st):
				yield x
			return
		if eng.listmode == 'seq':
			raise Unsupported('item assignment')
		for s, k in eng.asint(i, st):
			if isinstance(k, Exc):
				yield s, k
				continue
			for s1, j in inrange(eng, s, r.e, k.e):
				if not isinstance(j, Exc):
					s1.heap['lget'] = z3.Store(s1.heap['lget'], r.e, z3.Store(
							s1.heap['lget'][r.e], j, toV(v)))
				yield s1, (j if isinstance(j, Exc) else SNone())
		return
	if isinstance(r, SRef) and r.cls == 'dict':
		key = toV(i)
		h = st.heap
		dom = h['ddom'][r.e]
		h['dsize'] = z3.Store(h['dsize'], r.e, h['dsize'][r.e]
				+ z3.If(dom[key], I0, I1))
		h['ddom'] = z3.Store(h['ddom'], r.e, z3.Store(dom, key, True))
		mutated(st, r.e)
		h['dmap'] = z3.Store(h['dmap'], r.e, z3.Store(h['dmap'][r.e], key,
				toV(v)))
		yield st, SNone()
		return
	if isinstance(r, SRef) and r.cls == 'matrix':
		for s, ij in matrixindex(eng, r, i, st):
			if isinstance(ij, Exc):
				yield s, ij
				continue
			for s1, x in eng.asint(v, s):
				if not isinstance(x, Exc):
					m = s1.heap['mget']
					s1.heap['mget'] = z3.Store(m, r.e, z3.Store(m[r.e],
							ij[0], z3.Store(m[r.e][ij[0]], ij[1], x.e)))
				yield s1, (x if isinstance(x, Exc) else SNone())
		return
	raise Unsupported('item assignment to %s' % kindof(r))


def deldict(st, r, key):
	h = st.heap
	h['ddom'] = z3.Store(h['ddom'], r, z3.Store(h['ddom'][r], key, False))
	h['dsize'] = z3.Store(h['dsize'], r, h['dsize'][r] - 1)
	mutated(st, r)


def delitem(eng, r, i, st):
	if isinstance(r, SNone):
		yield st, Exc('TypeError', 'no item deletion')
		return
	if isinstance(r, SDyn):
		for s, x in eng.narrow(r, '__delitem__', st):
			if isinstance(x, Exc):
				yield s, Exc('TypeError', 'no item deletion')
			else:
				for y in delitem(eng, x, i, s):
					yield y
		return
	if isinstance(r, SRef) and r.cls in eng.classes:
		for x in eng.callmethod(r, '__delitem__', [i], {}, st):
			yield x
		return
	if isinstance(r, SRef) and r.cls == 'list':
		if isinstance(i, SSlice):
			for x in setslice(eng, r, i, None, st):
				yield x
			return
		if eng.listmode == 'seq':
			raise Unsupported('item deletion')
		for s, k in eng.asint(i, st):
			if isinstance(k, Exc):
				yield s, k
				continue
			for s1, j in inrange(eng, s, r.e, k.e):
				if not isinstance(j, Exc):
					delat(s1, r.e, j)
				yield s1, (j if isinstance(j, Exc) else SNone())
		return
	if isinstance(r, SRef) and r.cls == 'dict':
		key = toV(i)
		for s, b in eng.split(st, st.heap['ddom'][r.e][key]):
			if b:
				deldict(s, r.e, key)
			yield s, (SNone() if b else Exc('KeyError', 'key'))
		return
	raise Unsupported('item deletion from %s' % kindof(r))


# --- dictionaries and sets ----------------------------------------------------
def d_pop(eng, st, recv, args, kwargs):
	key = toV(args[0])
	for s, b in eng.split(st, st.heap['ddom'][recv.e][key]):
		if b:
			val = eng.loaded(s.heap['dmap'][recv.e][key], s)
			deldict(s, recv.e, key)
			yield s, val
		elif len(args) > 1:
			yield s, args[1]
		else:
			yield s, Exc('KeyError', 'key')


def d_get(eng, st, recv, args, kwargs):
	key = toV(args[0])
	for s, b in eng.split(st, st.heap['ddom'][recv.e][key]):
		if b:
			yield s, eng.loaded(s.heap['dmap'][recv.e][key], s)
		else:
			yield s, (args[1] if len(args) > 1 else SNone())


def d_setdefault(eng, st, recv, args, kwargs):
	key = toV(args[0])
	for s, b in eng.split(st, st.heap['ddom'][recv.e][key]):
		if b:
			yield s, eng.loaded(s.heap['dmap'][recv.e][key], s)
			continue
		for s1, _ in setitem(eng, recv, SDyn(key), args[1], s):
			yield s1, args[1]


def d_clear(eng, st, recv, args, kwargs):
	st.heap['ddom'] = z3.Store(st.heap['ddom'], recv.e, z3.K(V, False))
	st.heap['dsize'] = z3.Store(st.heap['dsize'], recv.e, 0)
	mutated(st, recv.e)
	yield st, SNone()


def s_add(eng, st, recv, args, kwargs):
	h, key = st.heap, toV(args[0])
	dom = h['sdom'][recv.e]
	h['ssize'] = z3.Store(h['ssize'], recv.e, h['ssize'][recv.e]
			+ z3.If(dom[key], I0, I1))
	h['sdom'] = z3.Store(h['sdom'], recv.e, z3.Store(dom, key, True))
	yield st, SNone()


def s_discard(eng, st, recv, args, kwargs):
	h, key = st.heap, toV(args[0])
	dom = h['sdom'][recv.e]
	h['ssize'] = z3.Store(h['ssize'], recv.e, h['ssize'][recv.e]
			- z3.If(dom[key], I1, I0))
	h['sdom'] = z3.Store(h['sdom'], recv.e, z3.Store(dom, key, False))
	yield st, SNone()


def dictkeys(eng, st, r):
	"""The keys of a dictionary in iteration order.

	The order depends on the history of the dictionary (ghost dver)."""
	h = st.heap
	f = z3.Function('dict_keys', Int, Int, h['ddom'].sort().range(),
			z3.ArraySort(Int, V))
	pos = z3.Function('dict_pos', Int, Int, h['ddom'].sort().range(), V, Int)
	args = r, h['dver'][r], h['ddom'][r]
	keys, n = f(*args), h['dsize'][r]
	j, k = z3.Int('j'), z3.Const('k', V)
	st.assume(n >= 0, X.forall([j], z3.Implies(z3.And(0 <= j, j < n),
			z3.And(h['ddom'][r][keys[j]], pos(*args, keys[j]) == j)),
			patterns=[keys[j]]),
			X.forall([k], z3.Implies(h['ddom'][r][k], z3.And(
			0 <= pos(*args, k), pos(*args, k) < n, keys[pos(*args, k)] == k)),
			patterns=[h['ddom'][r][k], pos(*args, k)]))
	return n, keys


def d_keys(eng, st, recv, args, kwargs):
	n, keys = dictkeys(eng, st, recv.e)
	yield st, SSeq(n, lambda j: SDyn(keys[j]))


def d_values(eng, st, recv, args, kwargs):
	n, keys = dictkeys(eng, st, recv.e)
	vals = st.heap['dmap'][recv.e]
	yield st, SSeq(n, lambda j: SDyn(vals[keys[j]]))


def d_items(eng, st, recv, args, kwargs):
	n, keys = dictkeys(eng, st, recv.e)
	vals = st.heap['dmap'][recv.e]
	yield st, SSeq(n, lambda j: STup([SDyn(keys[j]), SDyn(vals[keys[j]])]))


def mutated(st, r):
	"""The order of a dictionary may have changed."""
	st.heap['dver'] = z3.Store(st.heap['dver'], r, fresh(Int, 'dver'))


def b_iter(eng, st, args, kwargs):
	for s, it in eng.iterable(args[0], st):
		yield s, it


def i_bit_length(eng, st, recv, args, kwargs):
	from . import intbits as ib
	eng.oblige(st, 'bit_length of a non-negative integer', recv.e >= 0)
	st.assume(ib.blen(recv.e) >= 0)
	yield st, SInt(ib.blen(recv.e))


METHODS = {('SInt', 'bit_length'): i_bit_length, ('list', 'append'): m_append, ('list', 'extend'): m_extend,
	('list', 'insert'): m_insert, ('list', 'pop'): m_pop,
	('list', 'index'): m_index, ('list', 'remove'): m_remove,
	('list', 'clear'): m_clear, ('list', 'copy'): m_copy,
	('dict', 'pop'): d_pop, ('dict', 'get'): d_get,
	('dict', 'setdefault'): d_setdefault, ('dict', 'clear'): d_clear,
	('dict', 'keys'): d_keys, ('dict', 'values'): d_values,
	('dict', 'items'): d_items, ('set', 'add'): s_add, ('set', 'discard'): s_discard}
for _cls in ('list', 'dict', 'set', 'heapq'):
	for _name in ('__len__', '__getitem__', '__setitem__', '__delitem__',
			'__iter__', '__contains__'):
		METHODS.setdefault((_cls, _name), None)


# --- functions ----------------------------------------------------------------
def b_len(eng, st, args, kwargs):
	return length(eng, args[0], st)


def b_isinstance(eng, st, args, kwargs):
	x, t = args
	types = t.items if isinstance(t, STup) else [t]
	yield st, SBool(z3.simplify(z3.Or([isinst(eng, x, c) for c in types])))


PYKIND = {SInt: {'int'}, SBool: {'bool', 'int'}, SReal: {'float'},
	SStr: {'str'}, SNone: set(), STup: {'tuple'}, SSlice: {'slice'},
	SRange: {'range'}, SFunc: set(), SBound: set()}


def isinst(eng, x, c):
	name = c.name if isinstance(c, (SClass, SName)) else None
	if name is None:
		raise Unsupported('isinstance with computed type')
	name = name.split('.')[-1]
	if isinstance(x, SRef):
		if x.cls in eng.classes:
			return z3.BoolVal(eng.subclass(x.cls, name)) if not getattr(
					eng, 'openclasses', False) else eng.isinst(x.e, name)
		return z3.BoolVal(x.cls == name)
	if type(x) in PYKIND:
		return z3.BoolVal(name in PYKIND[type(x)])
	if isinstance(x, SSeq):
		return z3.BoolVal(name in getattr(x, 'types', ('list', )))
	if isinstance(x, SDyn):
		e = x.e
		basic = dict(int=z3.Or(V.is_vint(e), V.is_vbool(e)),
				bool=V.is_vbool(e), float=V.is_vreal(e), str=V.is_vstr(e),
				tuple=z3.Or(V.is_vnil(e), V.is_vcons(e)))
		if name in basic:
			return basic[name]
		if name in ('slice', 'range'):
			return z3.BoolVal(False)
		return z3.And(V.is_vref(e), eng.isinst(V.ref(e), name))
	raise Unsupported('isinstance of %s' % type(x).__name__)


def b_range(eng, st, args, kwargs):
	for a in args:
		if isinstance(a, SDyn):
			for s, vals in asints(eng, args, st):
				if isinstance(vals, Exc):
					yield s, vals
				else:
					for x in b_range(eng, s, vals, kwargs):
						yield x
			return
	stp = 1
	if len(args) == 3:
		e = z3.simplify(args[2].e)
		if not z3.is_int_value(e):
			raise Unsupported('range step')
		stp = e.as_long()
	if len(args) == 1:
		yield st, SRange(I0, args[0].e, 1)
	else:
		yield st, SRange(args[0].e, args[1].e, stp)


def asints(eng, args, st):
	if not args:
		yield st, []
		return
	for s, v in eng.asint(args[0], st):
		if isinstance(v, Exc):
			yield s, v
			continue
		for s1, rest in asints(eng, args[1:], s):
			yield s1, (rest if isinstance(rest, Exc) else [v] + rest)


def iterables(eng, args, st):
	if not args:
		yield st, []
		return
	for s, it in eng.iterable(args[0], st):
		if isinstance(it, Exc):
			yield s, it
			continue
		for s1, rest in iterables(eng, args[1:], s):
			yield s1, (rest if isinstance(rest, Exc) else [it] + rest)


def b_enumerate(eng, st, args, kwargs):
	start = kwargs.get('start', args[1] if len(args) > 1 else SInt(0))
	if isinstance(start, SDyn):
		for s, i in eng.asint(start, st):
			if isinstance(i, Exc):
				yield s, i
				continue
			for x in b_enumerate(eng, s, args[:1], dict(start=i)):
				yield x
		return
	for s, it in eng.iterable(args[0], st):
		if isinstance(it, STup):
			yield s, STup([STup([SInt(start.e + i), x])
					for i, x in enumerate(it.items)])
			continue
		yield s, (it if isinstance(it, Exc)
				else SIter('enumerate', [it], start.e))


def b_zip(eng, st, args, kwargs):
	for s, its in iterables(eng, args, st):
		if isinstance(its, Exc):
			yield s, its
		elif all(isinstance(x, STup) for x in its):
			yield s, STup([STup(list(t)) for t in zip(*[x.items
					for x in its])])
		else:
			yield s, SIter('zip', its)


def b_reversed(eng, st, args, kwargs):
	for s, it in eng.iterable(args[0], st):
		if isinstance(it, Exc):
			yield s, it
		elif isinstance(it, STup):
			yield s, STup(it.items[::-1])
		else:
			yield s, SIter('reversed', [it])


def b_id(eng, st, args, kwargs):
	v = args[0]
	if isinstance(v, SRef):
		yield st, SInt(v.e)
	else:
		e = toV(v)
		yield st, SInt(z3.If(V.is_vref(e), V.ref(e), X.idof(e)))


def extreme(op):
	def fn(eng, st, args, kwargs):
		if kwargs or len(args) < 2:
			if not kwargs and len(args) == 1 and isinstance(args[0], STup):
				for x in fn(eng, st, args[0].items, kwargs):
					yield x
				return
			raise Unsupported('min/max of an iterable')
		todo = [(st, args[0], list(args[1:]))]
		while todo:
			s, cur, rest = todo.pop()
			if not rest:
				yield s, cur
				continue
			b = rest[0]
			num = _numeric(cur, b)
			if num is not None and type(cur) is type(b):
				x, y = num
				c = y < x if op == 'min' else y > x
				todo.append((s, type(cur)(z3.If(c, y, x)), rest[1:]))
				continue
			for s1, c in compare(eng, ast.Lt() if op == 'min' else ast.Gt(),
					b, cur, s):
				if isinstance(c, Exc):
					yield s1, c
					continue
				for s2, bb in eng.split(s1, c):
					todo.append((s2, b if bb else cur, rest[1:]))
	return fn


def b_int(eng, st, args, kwargs):
	if not args:
		return iter([(st, SInt(0))])
	return eng.asint(args[0], st)


def b_bool(eng, st, args, kwargs):
	for s, c in truth(eng, args[0], st):
		yield s, (c if isinstance(c, Exc) else SBool(c))


def b_float(eng, st, args, kwargs):
	return asreal(eng, args[0], st)


def b_list(eng, st, args, kwargs):
	if not args:
		yield st, eng.newlist(st)
		return
	for x in copylist(eng, args[0], st):
		yield x


def b_tuple(eng, st, args, kwargs):
	if not args:
		yield st, STup([])
		return
	v = args[0]
	if isinstance(v, (STup, SSeq)):
		yield st, v
		return
	for s, it in eng.iterable(v, st):
		if isinstance(it, Exc):
			yield s, it
			continue
		n, get, _ = elements(eng, it, s)
		q = SSeq(n, lambda j, g=get: SDyn(g(j)))
		q.types = ('tuple', )
		yield s, q


def newset(eng, st):
	r = eng.alloc(st, 'set')
	st.heap['sdom'] = z3.Store(st.heap['sdom'], r, z3.K(V, False))
	st.heap['ssize'] = z3.Store(st.heap['ssize'], r, 0)
	return SRef(r, 'set')


def b_set(eng, st, args, kwargs):
	if not args:
		yield st, newset(eng, st)
		return
	for s, it in eng.iterable(args[0], st):
		if isinstance(it, Exc):
			yield s, it
			continue
		r = newset(eng, s)
		if isinstance(it, STup):
			for x in it.items:
				for _ in s_add(eng, s, r, [x], {}):
					pass
			yield s, r
			continue
		n, get, _ = elementarray(eng, it, s)
		j, x = z3.Int('j'), z3.Const('x', V)
		# bound positions of the members
		w = z3.Function('member!%d' % next(X._cnt), V, Int)
		dom = fresh(z3.ArraySort(V, Bool), 'dom')
		size = fresh(Int, 'size')
		s.assume(X.forall([j], z3.Implies(z3.And(0 <= j, j < n),
				dom[get(j)]), patterns=[get(j)]),
				X.forall([x], z3.Implies(dom[x], z3.And(0 <= w(x), w(x) < n,
				get(w(x)) == x)), patterns=[dom[x]]),
				0 <= size, size <= n, (size == 0) == (n == 0))
		s.heap['sdom'] = z3.Store(s.heap['sdom'], r.e, dom)
		s.heap['ssize'] = z3.Store(s.heap['ssize'], r.e, size)
		yield s, r


PSUM = z3.Function('sum_of', z3.ArraySort(Int, V), Int, Int)


def b_sum(eng, st, args, kwargs):
	"""Sum of integers; of a sequence of unknown length: PSUM(array, n)."""
	if len(args) != 1 or kwargs:
		raise Unsupported('sum with start')
	for s, it in eng.iterable(args[0], st):
		if isinstance(it, Exc):
			yield s, it
			continue
		if isinstance(it, STup):
			cur = [(s, SInt(0))]
			for x in it.items:
				cur = [z for s1, v in cur for z in ([(s1, v)]
						if isinstance(v, Exc) else
						binop(eng, ast.Add(), v, x, s1))]
			for z in cur:
				yield z
			continue
		n, get, arr = elementarray(eng, it, s)
		w = fresh(Int, 'notint')
		bad = s.fork()
		bad.assume(0 <= w, w < n, z3.Not(V.is_vint(get(w))))
		if X.feasible(bad, full=True):
			raise Unsupported('sum of other values than integers')
		s.assume(PSUM(arr, 0) == 0)
		s.ghost['sum'] = (arr, n)
		yield s, SInt(PSUM(arr, n))


def setelems(eng, st, r):
	"""The elements of a set in iteration order."""
	h = st.heap
	dom, n = h['sdom'][r], h['ssize'][r]
	key = ('setelems', dom.get_id(), n.get_id())
	f = z3.Function('set_elems', dom.sort(), z3.ArraySort(Int, V))
	pos = z3.Function('set_pos', dom.sort(), V, Int)
	arr = f(dom)
	j, k = z3.Int('j'), z3.Const('k', V)
	st.assume(n >= 0, X.forall([j], z3.Implies(z3.And(0 <= j, j < n),
			z3.And(dom[arr[j]], pos(dom, arr[j]) == j)), patterns=[arr[j]]),
			X.forall([k], z3.Implies(dom[k], z3.And(0 <= pos(dom, k),
			pos(dom, k) < n, arr[pos(dom, k)] == k)), patterns=[dom[k]]))
	return n, arr


def b_sorted(eng, st, args, kwargs):
	"""Sorted list of integers: an ordered permutation."""
	if kwargs or len(args) != 1:
		raise Unsupported('sorted with arguments')
	for s, it in eng.iterable(args[0], st):
		if isinstance(it, Exc):
			yield s, it
			continue
		n, get, _ = elementarray(eng, it, s)
		i, j = z3.Ints('i j')
		allint = fresh(Bool, 'ints')
		s.assume(z3.Implies(allint, X.forall([j], z3.Implies(z3.And(0 <= j,
				j < n), V.is_vint(get(j))), patterns=[get(j)])))
		w = fresh(Int, 'notint')
		s.assume(z3.Implies(z3.Not(allint), z3.And(0 <= w, w < n,
				z3.Not(V.is_vint(get(w))))))
		for s1, b in eng.split(s, allint):
			if not b:
				if X.feasible(s1, full=True):
					raise Unsupported('sorting other values than integers')
				continue
			arr = fresh(z3.ArraySort(Int, V), 'sorted')
			c = next(X._cnt)
			src = z3.Function('from!%d' % c, Int, Int)
			dst = z3.Function('to!%d' % c, Int, Int)
			s1.assume(X.forall([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(
				0 <= src(i), src(i) < n, dst(src(i)) == i, arr[i]
				== get(src(i)), V.is_vint(arr[i]))), patterns=[arr[i]]),
				X.forall([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(
				0 <= dst(j), dst(j) < n, src(dst(j)) == j, arr[dst(j)]
				== get(j))), patterns=[get(j)]),
				X.forall([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n),
				V.i(arr[i]) <= V.i(arr[j])), patterns=[z3.MultiPattern(
				arr[i], arr[j])]))
			s1.ghost['sorted'] = (src, dst, n)
			s1.ghost['sortedget'], s1.ghost['sortedarr'] = get, arr
			yield s1, eng.newlist(s1, n=n, arr=arr)


def newdict(eng, st):
	r = eng.alloc(st, 'dict')
	st.heap['ddom'] = z3.Store(st.heap['ddom'], r, z3.K(V, False))
	st.heap['dsize'] = z3.Store(st.heap['dsize'], r, 0)
	return SRef(r, 'dict')


def b_dict(eng, st, args, kwargs):
	if args or kwargs:
		raise Unsupported('dict of iterable')
	yield st, newdict(eng, st)


def b_defaultdict(eng, st, args, kwargs):
	yield st, newdict(eng, st)


def b_abs(eng, st, args, kwargs):
	for s, v in eng.asint(args[0], st):
		yield s, (v if isinstance(v, Exc) else SInt(
				z3.If(v.e < 0, -v.e, v.e)))


def b_slice(eng, st, args, kwargs):
	args = list(args)
	if len(args) == 1:
		args = [SNone(), args[0]]
	while len(args) < 3:
		args.append(SNone())
	yield st, SSlice(*args)


def b_callable(eng, st, args, kwargs):
	yield st, SBool(isinstance(args[0], (SFunc, SBound)))


BUILTINS = {'len': b_len, 'iter': b_iter, 'isinstance': b_isinstance, 'range': b_range,
	'enumerate': b_enumerate, 'zip': b_zip, 'reversed': b_reversed,
	'id': b_id, 'min': extreme('min'), 'max': extreme('max'), 'int': b_int,
	'bool': b_bool, 'float': b_float, 'list': b_list, 'tuple': b_tuple,
	'set': b_set, 'dict': b_dict, 'abs': b_abs, 'slice': b_slice,
	'defaultdict': b_defaultdict, 'callable': b_callable,
	'sorted': b_sorted, 'sum': b_sum, 'numpy.zeros': b_zeros}


# --- comprehensions -------------------------------------------------------
def freevars(e, seen, out):
	if e.get_id() in seen:
		return
	seen.add(e.get_id())
	if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
		out.add(e.decl().name())
	if z3.is_quantifier(e):
		freevars(e.body(), seen, out)
	for c in e.children():
		freevars(c, seen, out)


def element(eng, gen, body, it, st, j):
	"""Evaluate condition and body of a comprehension at a symbolic index j.

	Returns a list of (condition of path, keep, value) and side conditions."""
	s0 = st.fork()
	n0 = len(s0.path)
	before = next(X._cnt)
	frame = 'c%d' % next(X._cnt)
	s0.frames[frame] = {'__parent__': s0.cur, '__fn__': s0.env['__fn__']}
	s0.cur = frame
	s0.assume(0 <= j, j < eng.itercount(it, s0))
	res = []
	heapids = {f: a.get_id() for f, a in s0.heap.f.items()}
	alloc = s0.heap.alloc
	for s1, o in eng.assign(gen.target, eng.iterget(it, j, s0), s0):
		if o is not None:
			raise Unsupported('exception in comprehension')
		states = [(s1, True)]
		for c in gen.ifs:
			new = []
			for s2, keep in states:
				if not keep:
					new.append((s2, keep))
					continue
				for s3, cond in eng.cond(c, s2):
					if isinstance(cond, Exc):
						if not X.feasible(s3, full=True):
							continue
						raise Unsupported('exception in comprehension')
					for s4, b in eng.split(s3, cond):
						new.append((s4, b))
			states = new
		for s2, keep in states:
			if not keep:
				res.append((s2.path[n0:], False, None))
				continue
			if body is None:
				res.append((s2.path[n0:], True, None))
				continue
			eng.nested += 1
			values = list(eng.ev(body, s2))
			eng.nested -= 1
			for s3, v in values:
				if isinstance(v, Exc):
					if not X.feasible(s3, full=True):
						continue
					raise Unsupported('exception %s in comprehension'
							% v.name)
				if not s3.heap.alloc.eq(alloc):
					if not X.feasible(s3, full=True):
						continue
					raise Allocation('allocation in comprehension')
				for f, a in s3.heap.f.items():
					if f in heapids and a.get_id() != heapids[f]:
						raise Unsupported('side effect in comprehension')
				res.append((s3.path[n0:], True, v))
	consts = {}
	for conds, _, v in res:
		seen = set()
		for c in conds:
			freeconsts(c, seen, consts)
		if v is not None:
			for e in exprsof(v):
				freeconsts(e, seen, consts)
	sub = []
	for nm, c in consts.items():
		if '!' in nm and nm.rsplit('!', 1)[1].isdigit() and int(
				nm.rsplit('!', 1)[1]) > before and nm != str(j):
			# a value which exists for every j: a function of j
			f = z3.Function('sk_%s!%d' % (nm.split('!')[0], next(X._cnt)),
					Int, c.sort())
			sub.append((c, f(j)))
	out = Paths()
	out.skolem = bool(sub)
	for conds, keep, v in res:
		out.append(([z3.substitute(c, *sub) for c in conds], keep,
				substval(v, sub)) if sub else (conds, keep, v))
	return out


class Allocation(Unsupported):
	"""The body of a comprehension makes new objects."""


def alloccomp(eng, gen, elt, it, st, n):
	"""A comprehension of which each element allocates c new cells.

	Element j is evaluated in a heap in which the cells of the elements before
	it are allocated: alloc0 + c * j. These cells are not reachable from the
	cells before alloc0, nor are those changed, so that the elements do not
	depend on each other. Returns the array of values; changes the heap."""
	for c in (1, 2):
		s0 = st.fork()
		n0 = len(s0.path)
		before = next(X._cnt)
		j = z3.Int('jc!%d' % next(X._cnt))
		frame = 'c%d' % next(X._cnt)
		s0.frames[frame] = {'__parent__': s0.cur, '__fn__': s0.env['__fn__']}
		s0.cur = frame
		base = st.heap.alloc
		s0.assume(0 <= j, j < eng.itercount(it, s0))
		x = eng.iterget(it, j, s0)
		s0.heap = s0.heap.copy()
		s0.heap.alloc = base + c * j
		s0.assume(s0.heap.alloc > 0)
		found = []
		for s1, o in eng.assign(gen.target, x, s0):
			if o is not None:
				raise Unsupported('exception in comprehension')
			eng.nested += 1
			values = list(eng.ev(elt, s1))
			eng.nested -= 1
			found += [(s2, v) for s2, v in values if X.feasible(s2, full=True)]
		if len(found) != 1 or isinstance(found[0][1], Exc):
			raise Allocation('paths in comprehension with allocation')
		s1, v = found[0]
		conds = s1.path[n0:]
		check = s1.fork()
		check.assume(s1.heap.alloc != base + c * j + c)
		if not X.feasible(check, full=True):
			break
	else:
		raise Allocation('allocation in comprehension')
	r = z3.Int('r')
	changed = {f: a for f, a in s1.heap.f.items() if not a.eq(
			st.heap[f])}
	for f, a in changed.items():
		eng.oblige(s1, 'comprehension changes only new objects', X.forall([r],
				z3.Implies(z3.And(0 < r, r < base), a[r] == st.heap[f][r])))
	consts, seen = {}, set()
	for e in list(conds) + list(changed.values()) + [toV(v)]:
		freeconsts(e, seen, consts)
	sub = []
	for nm, e in consts.items():
		if '!' in nm and nm.rsplit('!', 1)[1].isdigit() and int(
				nm.rsplit('!', 1)[1]) > before and nm != str(j):
			f = z3.Function('sk_%s!%d' % (nm.split('!')[0], next(X._cnt)),
					Int, e.sort())
			sub.append((e, f(j)))
	sk = lambda e: z3.substitute(e, *sub) if sub else e
	arr = fresh(z3.ArraySort(Int, V), 'comp')
	new = {f: fresh(a.sort(), 'h_' + f) for f, a in changed.items()}
	facts = [sk(z3.And(list(conds))), arr[j] == sk(toV(v))]
	for f, a in changed.items():
		for o in range(c):
			facts.append(new[f][base + c * j + o] == sk(a)[base + c * j + o])
		st.assume(X.forall([r], z3.Implies(z3.And(0 < r, r < base), new[f][r]
				== st.heap[f][r]), patterns=[new[f][r]]))
	st.assume(X.forall([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(facts)),
			patterns=[arr[j]]))
	for f in changed:
		st.heap[f] = new[f]
	alloc = fresh(Int, 'alloc')
	st.assume(alloc == base + c * n)
	st.heap.alloc = alloc
	return arr


def allocfact(c):
	"""Is this the fact that a reference which was loaded is allocated?

	(Assumed for every value loaded, see Engine.loaded.)"""
	return (z3.is_implies(c) and c.arg(0).num_args() == 1 and c.arg(0).eq(
			V.is_vref(c.arg(0).arg(0))))


class Paths(list):
	"""Paths of the body of a comprehension."""
	skolem = False


def freeconsts(e, seen, out):
	if e.get_id() in seen:
		return
	seen.add(e.get_id())
	if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
		out[e.decl().name()] = e
	if z3.is_quantifier(e):
		freeconsts(e.body(), seen, out)
	for c in e.children():
		freeconsts(c, seen, out)


def exprsof(v):
	"""Expressions in a value."""
	if isinstance(v, SSeq):
		return [v.n, toV(v.get(z3.Int('probe')))]
	return [toV(v)]


def substval(v, sub):
	if v is None:
		return None
	if isinstance(v, SSeq):
		q = SSeq(z3.substitute(v.n, *sub), lambda k: SDyn(z3.substitute(
				toV(v.get(k)), *sub)))
		q.types = getattr(v, 'types', ('tuple', ))
		return q
	return SDyn(z3.substitute(toV(v), *sub))


def comprehension(eng, node, st):
	"""Common part: yields (state, iterable, gen)."""
	if len(node.generators) != 1:
		raise Unsupported('nested comprehension')
	gen = node.generators[0]
	for s, it in eng.ev(gen.iter, st):
		if isinstance(it, Exc):
			yield s, it, gen
			continue
		for s1, it1 in eng.iterable(it, s):
			yield s1, it1, gen


def unrollcomp(eng, gen, elt, items, st):
	"""Comprehension over a concrete tuple: list of (state, values)."""
	frame = 'c%d' % next(X._cnt)
	caller = st.cur
	st.frames[frame] = {'__parent__': st.cur, '__fn__': st.env['__fn__']}
	states = [(st, [])]
	for x in items:
		new = []
		for s, vals in states:
			if isinstance(vals, Exc):
				new.append((s, vals))
				continue
			s.cur = frame
			for s1, o in eng.assign(gen.target, x, s):
				if o is not None:
					new.append((s1, o[1]))
					continue
				conds = [(s1, True)]
				for c in gen.ifs:
					nxt = []
					for s2, keep in conds:
						if keep is not True:
							nxt.append((s2, keep))
							continue
						for s3, cc in eng.cond(c, s2):
							if isinstance(cc, Exc):
								nxt.append((s3, cc))
							else:
								nxt.extend(eng.split(s3, cc))
					conds = nxt
				for s2, keep in conds:
					if isinstance(keep, Exc):
						new.append((s2, keep))
					elif not keep:
						new.append((s2, vals))
					else:
						for s3, v in eng.ev(elt, s2):
							new.append((s3, v if isinstance(v, Exc)
									else vals + [v]))
		states = new
	for s, vals in states:
		s.cur = caller
		yield s, vals


def seqcomp(eng, node, st):
	"""A comprehension as an immutable sequence, without a new list."""
	def make(s, n, arr):
		q = SSeq(n, lambda j: SDyn(arr[j]))
		q.types = ('tuple', )
		q.arr = arr
		return q
	return listcomp(eng, node, st, make)


def listcomp(eng, node, st, make=None):
	for s, it, gen in comprehension(eng, node, st):
		if isinstance(it, Exc):
			yield s, it
			continue
		if isinstance(it, STup):
			for s1, vals in unrollcomp(eng, gen, node.elt, it.items, s):
				yield s1, (vals if isinstance(vals, Exc) else
						STup(vals) if make else
						eng.newlist(s1, [toV(v) for v in vals]))
			continue
		if (isinstance(gen.target, ast.Name) and isinstance(node.elt,
				ast.Name) and node.elt.id == gen.target.id and not gen.ifs and not make):
			for x in copylist(eng, it, s):
				yield x
			continue
		if eng.listmode == 'seq':
			raise Unsupported('comprehension')
		make = make or (lambda s, n, arr: eng.newlist(s, n=n, arr=arr))
		n = eng.itercount(it, s)
		j = z3.Int('jc!%d' % next(X._cnt))
		try:
			paths = element(eng, gen, node.elt, it, s, j)
		except Allocation:
			if gen.ifs or isinstance(make(s.fork(), n, z3.K(Int, V.none)),
					SSeq):
				raise
			arr = alloccomp(eng, gen, node.elt, it, s, n)
			yield s, make(s, n, arr)
			continue
		if (len(paths) == 1 and not gen.ifs and isinstance(paths[0][2],
				SSeq) and isinstance(make(s.fork(), n, z3.K(Int, V.none)),
				SSeq)):
			# sequence of sequences
			conds, _, v = paths[0]
			s.assume(X.forall([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(
					[z3.BoolVal(True)] + conds))))
			q = SSeq(n, lambda i, v=v, j=j: substval(v, [(j, i)]))
			q.types = ('tuple', )
			yield s, q
			continue
		arr = fresh(z3.ArraySort(Int, V), 'comp')
		if paths.skolem and gen.ifs:
			raise Unsupported('existential value in comprehension')
		if not gen.ifs:
			# the paths are exhaustive: no exception is possible
			facts = ([z3.And(conds + [arr[j] == toV(v)])
					for conds, _, v in paths] if len(paths) == 1 else
					[z3.Or([z3.And(conds + [arr[j] == toV(v)])
					for conds, _, v in paths])] if paths.skolem else
					[z3.Implies(z3.And([c for c in conds if not allocfact(c)]),
					arr[j] == toV(v)) for conds, _, v in paths])
			s.assume(X.forall([j], z3.Implies(z3.And(0 <= j, j < n),
					z3.And(facts)), patterns=[arr[j]]))
			yield s, make(s, n, arr)
			continue
		# filtered: strictly increasing map from new to old positions
		m = fresh(Int, 'kept')
		g = z3.Function('sel!%d' % next(X._cnt), Int, Int)
		inv = z3.Function('inv!%d' % next(X._cnt), Int, Int)
		i, i2 = z3.Int('i'), z3.Int('i2')
		s.assume(0 <= m, m <= n)
		sel = lambda e: [z3.substitute(e, (j, g(i)))][0]
		keep = z3.Or([z3.And([z3.BoolVal(True)] + conds)
				for conds, k, _ in paths if k] or [z3.BoolVal(False)])
		s.assume(X.forall([i], z3.Implies(z3.And(0 <= i, i < m), z3.And(
				[0 <= g(i), g(i) < n, inv(g(i)) == i, sel(keep)]
				+ [z3.Implies(sel(z3.And(conds)), arr[i] == sel(toV(v)))
					for conds, k, v in paths if k])),
				patterns=[arr[i], g(i)] if False else [g(i)]))
		s.assume(X.forall([i], z3.Implies(z3.And(0 <= i, i < m),
				arr[i] == arr[inv(g(i))]), patterns=[arr[i]]))
		s.assume(X.forall([i, i2], z3.Implies(z3.And(0 <= i, i < i2, i2 < m),
				g(i) < g(i2)), patterns=[z3.MultiPattern(g(i), g(i2))]))
		src = []
		if isinstance(it, SRef) and it.cls == 'list':
			src = [s.heap['lget'][it.e][j]]
		elif isinstance(it, SSeq) and getattr(it, 'arr', None) is not None:
			src = [it.arr[j]]
		elif isinstance(it, SSeq) and z3.is_select(toV(it.get(j))):
			src = [toV(it.get(j))]
		s.assume(X.forall([j], z3.Implies(z3.And(0 <= j, j < n, keep),
				z3.And([0 <= inv(j), inv(j) < m, g(inv(j)) == j] + [
				z3.Implies(z3.And(conds), arr[inv(j)] == toV(v))
				for conds, k, v in paths if k])),
				patterns=[inv(j)] + src))
		r = make(s, m, arr)
		s.ghost['comp'] = (g, inv, m)
		yield s, r


def dictcomp(eng, node, st):
	"""{key: value for ...}: the last value given for a key."""
	for s, it, gen in comprehension(eng, node, st):
		if isinstance(it, Exc):
			yield s, it
			continue
		if isinstance(it, STup):
			raise Unsupported('dictionary comprehension')
		n = fresh(Int, 'count')
		s.assume(n == eng.itercount(it, s))
		j, k = z3.Int('jc!%d' % next(X._cnt)), z3.Const('k', V)
		both = ast.Tuple([node.key, node.value], ast.Load())
		paths = element(eng, gen, both, it, s, j)
		kept = [(conds, v) for conds, keep, v in paths if keep]
		if paths.skolem or len(kept) != 1:
			raise Unsupported('value in dictionary comprehension')
		conds, v = kept[0]
		if gen.ifs:
			yield s, filteredmap(eng, s, n, j, conds, toV(v))
			continue
		keys = fresh(z3.ArraySort(Int, V), 'keys')
		vals = fresh(z3.ArraySort(Int, V), 'values')
		last = z3.Function('last!%d' % next(X._cnt), V, Int)
		r = newdict(eng, s)
		h = s.heap
		dom = fresh(h['ddom'].sort().range(), 'dom')
		dmap = fresh(h['dmap'].sort().range(), 'map')
		size = fresh(Int, 'size')
		pair = toV(v)
		s.assume(0 <= size, size <= n, z3.Implies(n > 0, size > 0),
			X.forall([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(conds + [
			keys[j] == V.hd(pair), vals[j] == V.hd(V.tl(pair)), dom[keys[j]],
			j <= last(keys[j])])), patterns=[keys[j], vals[j]]),
			X.forall([k], z3.Implies(dom[k], z3.And(0 <= last(k), last(k) < n,
			keys[last(k)] == k, dmap[k] == vals[last(k)])), patterns=[dom[k],
			dmap[k]]))
		src = [z3.simplify(x) for x in sourceterms(s, it, j)]
		if src:
			s.assume(X.forall([j], z3.Implies(z3.And(0 <= j, j < n), keys[j]
				== V.hd(pair)), patterns=src))
		h['ddom'] = z3.Store(h['ddom'], r.e, dom)
		h['dmap'] = z3.Store(h['dmap'], r.e, dmap)
		h['dsize'] = z3.Store(h['dsize'], r.e, size)
		mutated(s, r.e)
		s.ghost['dictcomp'] = (keys, vals, n, dom, dmap)
		yield s, r


def filteredmap(eng, s, n, j, conds, pair):
	"""The result of a dictionary comprehension with a condition."""
	k = z3.Const('k', V)
	last = z3.Function('last!%d' % next(X._cnt), V, Int)
	r = newdict(eng, s)
	h = s.heap
	dom = fresh(h['ddom'].sort().range(), 'dom')
	dmap = fresh(h['dmap'].sort().range(), 'map')
	size = fresh(Int, 'size')
	at = lambda e: z3.substitute(e, (j, last(k)))
	keep = z3.And([z3.BoolVal(True)] + conds)
	key, val = V.hd(pair), V.hd(V.tl(pair))
	s.assume(0 <= size, size <= n, X.forall([j], z3.Implies(z3.And(0 <= j,
		j < n, keep), z3.And(dom[key], j <= last(key), size > 0))),
		X.forall([k], z3.Implies(dom[k], z3.And(size > 0, 0 <= last(k),
		last(k) < n, at(keep), at(key) == k, dmap[k] == at(val))), patterns=[
		dom[k], dmap[k]]))
	h['ddom'] = z3.Store(h['ddom'], r.e, dom)
	h['dmap'] = z3.Store(h['dmap'], r.e, dmap)
	h['dsize'] = z3.Store(h['dsize'], r.e, size)
	mutated(s, r.e)
	return r


def sourceterms(st, it, j):
	"""Terms for element j of an iterable, to use in patterns."""
	if isinstance(it, SRef) and it.cls == 'list':
		return [st.heap['lget'][it.e][j]]
	if isinstance(it, SSeq) and getattr(it, 'arr', None) is not None:
		return [it.arr[j]]
	if isinstance(it, SIter):
		return [t for x in it.args for t in sourceterms(st, x, j)]
	if isinstance(it, SSeq):
		v = it.get(j)
		for x in (v.items if isinstance(v, STup) else [v]):
			if z3.is_select(toV(x)):
				return [toV(x)]
	return []


def firstof(eng, gexp, default, st):
	"""next(genexp[, default]): the first element that is kept."""
	for s, it, gen in comprehension(eng, gexp, st):
		if isinstance(it, Exc):
			yield s, it
			continue
		if isinstance(it, STup):
			raise Unsupported('next')
		n = eng.itercount(it, s)
		j = z3.Int('jn!%d' % next(X._cnt))
		paths = element(eng, gen, gexp.elt, it, s, j)
		if paths.skolem:
			raise Unsupported('existential value in comprehension')
		hit = z3.Or([z3.BoolVal(False)] + [z3.And([z3.BoolVal(True)] + conds)
				for conds, keep, _ in paths if keep])
		src = X.toV(eng.iterget(it, j, s))
		pat = [src] if z3.is_select(src) else []
		for conds, keep, v in paths:
			if not keep:
				continue
			a = s.fork()
			w = fresh(Int, 'first')
			a.assume(0 <= w, w < n, X.forall([j], z3.Implies(z3.And(0 <= j,
					j < w), z3.Not(hit)), patterns=pat))
			a.assume(*[z3.substitute(c, (j, w)) for c in conds])
			a.ghost['first'] = w
			if X.feasible(a):
				res = substval(v, [(j, w)])
				yield a, (typed(res.e, X.kindof(v)) if isinstance(res, SDyn)
						and not isinstance(v, SDyn) and X.kindof(v) else res)
		s.assume(X.forall([j], z3.Implies(z3.And(0 <= j, j < n),
				z3.Not(hit)), patterns=pat))
		if not X.feasible(s):
			continue
		if default:
			for x in eng.ev(default[0], s):
				yield x
		else:
			yield s, Exc('StopIteration', None)


def filtered(eng, st, it, cond):
	"""The elements of a sequence for which a function gives true."""
	frame = 'f%d' % next(X._cnt)
	st.frames[frame] = {'__parent__': st.cur, '__fn__': st.env['__fn__'],
			'__it': it, '__cond': cond}
	cur, st.cur = st.cur, frame
	node = ast.parse('[x for x in __it if __cond(x)]', mode='eval').body
	for s, r in seqcomp(eng, node, st):
		s.cur = cur
		yield s, r


def overgen(eng, name, argnodes, node, st):
	"""any/all/sum/list/... over a generator expression."""
	gexp = argnodes[0]
	if (name in ('list', 'tuple', 'sorted', 'set', 'sum', 'min', 'max', 'dict',
			'len') and len(argnodes) == 1 and 'gen ' + name not in
			eng.callees):
		if name == 'list':
			for x in listcomp(eng, gexp, st):
				yield x
			return
		if name == 'tuple' and eng.listmode != 'seq':
			for x in seqcomp(eng, gexp, st):
				yield x
			return
		if name == 'tuple':
			for s, r in listcomp(eng, gexp, st):
				if isinstance(r, Exc):
					yield s, r
					continue
				for x in b_tuple(eng, s, [r], {}):
					yield x
			return
		for s, r in (seqcomp if eng.nested else listcomp)(eng, gexp, st):
			for x in ([(s, r)] if isinstance(r, Exc) else
					eng.call(SName(name), [r], {}, s)):
				yield x
		return
	if name == 'next' and 'gen next' not in eng.callees:
		for x in firstof(eng, gexp, argnodes[1:], st):
			yield x
		return
	if name not in ('any', 'all'):
		hook = eng.callees.get('gen ' + name)
		if hook is not None:
			for x in hook(eng, st, gexp, argnodes[1:], node):
				yield x
			return
		raise Unsupported('%s of generator' % name)
	for s, it, gen in comprehension(eng, gexp, st):
		if isinstance(it, Exc):
			yield s, it
			continue
		if isinstance(it, STup):
			for s1, vals in unrollcomp(eng, gen, gexp.elt, it.items, s):
				if isinstance(vals, Exc):
					yield s1, vals
					continue
				conds, s2 = [], s1
				for v in vals:
					res = list(truth(eng, v, s2))
					if len(res) != 1 or isinstance(res[0][1], Exc):
						raise Unsupported('truth in generator')
					s2, c = res[0]
					conds.append(c)
				yield s2, SBool(z3.Or([z3.BoolVal(False)] + conds)
						if name == 'any' else z3.And([z3.BoolVal(True)]
						+ conds))
			continue
		n = eng.itercount(it, s)
		j = z3.Int('jg!%d' % next(X._cnt))
		wanted = []
		body = gexp.elt
		paths = element(eng, gen, body, it, s, j)
		if paths.skolem:
			s.assume(X.forall([j], z3.Implies(z3.And(0 <= j, j < n), z3.Or([
					z3.And([z3.BoolVal(True)] + conds)
					for conds, _, _ in paths]))))
		for conds, keep, v in paths:
			if not keep:
				continue
			t = list(truth(eng, v, s.fork()))
			if len(t) != 1 or isinstance(t[0][1], Exc):
				raise Unsupported('truth in generator')
			c = t[0][1] if name == 'any' else z3.Not(t[0][1])
			wanted.append(z3.And([z3.BoolVal(True)] + conds + [c]))
		hit = z3.Or([z3.BoolVal(False)] + wanted)
		a = s.fork()
		w = fresh(Int, 'witness')
		a.assume(0 <= w, w < n, z3.substitute(hit, (j, w)))
		if X.feasible(a):
			yield a, SBool(name == 'any')
		s.assume(X.forall([j], z3.Implies(z3.And(0 <= j, j < n),
				z3.Not(hit))))
		yield s, SBool(name != 'any')
