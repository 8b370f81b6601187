"""Front end for Cython sources: parse with Cython's own parser.

Functions are extracted from the files in /repo on every run; nothing is
dropped except docstrings and type declarations of exceptions/nogil.
``extract(path)`` returns {function name: CFunc}.
"""
import os
import re
import sys

CYTHONSITE = '/opt/venv/lib/python3.12/site-packages'
if CYTHONSITE not in sys.path:
	sys.path.append(CYTHONSITE)

from .vc import Unsupported

CTYPES = {  # name: (width, signed); LP64
		'bint': (32, True), 'int': (32, True), 'unsigned int': (32, False),
		'short': (16, True), 'char': (8, True), 'long': (64, True),
		'unsigned long': (64, False), 'size_t': (64, False),
		'uint8_t': (8, False), 'uint16_t': (16, False),
		'uint32_t': (32, False), 'uint64_t': (64, False),
		'int64_t': (64, True), 'int32_t': (32, True),
		'object': (None, True)}  # object: Python integers, integer mode


class CFunc(object):
	def __init__(self, name, params, ret, body, pos):
		self.name, self.params, self.ret = name, params, ret
		self.body, self.pos = body, pos

	def __repr__(self):
		return 'CFunc(%s, %r, %r)' % (self.name, self.params, self.ret)


def kind(node):
	return type(node).__name__


def parse(path):
	from Cython.Compiler.TreeFragment import parse_from_strings
	from Cython.Compiler import Errors
	with open(path, encoding='utf8') as inp:
		src = inp.read()
	level = 'module_pxd' if path.endswith('.pxd') else 'module'
	# textual include statements (constants.pxi etc.) are resolved here
	def incl(match):
		name = os.path.join(os.path.dirname(path), match.group(1))
		with open(name, encoding='utf8') as inp:
			return inp.read()
	src = re.sub(r'(?m)^include "([^"]+)"', incl, src)
	Errors.init_thread()
	return parse_from_strings(os.path.basename(path).replace('.', '_'), src,
			level=level)


def typename(base, declarator):
	"""Type of a declaration as a string, e.g., 'uint64_t *'; and name."""
	k = kind(base)
	if k == 'CSimpleBaseTypeNode':
		name = base.name
		if name == 'int' or name is None:
			long_, signed = getattr(base, 'longness', 0), base.signed
			name = {0: 'int', 1: 'long', 2: 'long', -1: 'short'}.get(
					long_, 'int')
			if not signed:
				name = 'unsigned ' + name
	elif k == 'TemplatedTypeNode':
		name = 'template'
	elif k == 'MemoryViewSliceTypeNode':
		name = 'memoryview'
	elif k == 'CConstOrVolatileTypeNode':
		return typename(base.base_type, declarator)
	else:
		name = k
	d = declarator
	suffix = ''
	while kind(d) in ('CPtrDeclaratorNode', 'CArrayDeclaratorNode',
			'CReferenceDeclaratorNode'):
		if kind(d) != 'CReferenceDeclaratorNode':
			suffix += '*'
		d = d.base
	if kind(d) == 'CFuncDeclaratorNode':
		inner = d.base
		while kind(inner) == 'CPtrDeclaratorNode':
			suffix += '*'
			inner = inner.base
		return name + suffix, inner
	return name + suffix, d


def declname(d):
	while hasattr(d, 'base'):
		d = d.base
	return getattr(d, 'name', '')


def _func(node, prefix=''):
	if kind(node) == 'CFuncDefNode':
		d = node.declarator
		ptr = ''
		while kind(d) == 'CPtrDeclaratorNode':
			ptr += '*'
			d = d.base
		ret, _ = typename(node.base_type, d)
		params = []
		for arg in d.args:
			t, dd = typename(arg.base_type, arg.declarator)
			nm = declname(dd)
			if not nm:  # an untyped argument: python object
				t, nm = 'object', arg.base_type.name
			if nm == 'self' or t == 'self':
				t, nm = 'object', 'self'
			params.append((nm, t))
		return CFunc(prefix + declname(d), params, ret + ptr, node.body, node.pos)
	params = []
	for arg in node.args:
		t, dd = typename(arg.base_type, arg.declarator)
		nm = declname(dd)
		if not nm:
			t, nm = 'object', arg.base_type.name
		params.append((nm, t))
	return CFunc(prefix + node.name, params, 'object', node.body, node.pos)


def extract(path):
	"""Collect all function definitions of a .pyx or .pxd file."""
	result = {}

	def walk(stats, prefix):
		for s in stats:
			k = kind(s)
			if k in ('CFuncDefNode', 'DefNode'):
				try:
					f = _func(s, prefix)
				except Exception as err:  # a declaration form not understood
					continue
				result[f.name] = f
			elif k in ('CClassDefNode', 'PyClassDefNode'):
				name = getattr(s, 'class_name', None) or getattr(s, 'name', '')
				body = s.body
				if body is not None:
					walk(getattr(body, 'stats', [body]), name + '.')
			elif k in ('StatListNode', 'CompilerDirectivesNode'):
				walk(getattr(s, 'stats', None) or [s.body], prefix)
	tree = parse(path)
	body = tree.body
	walk(getattr(body, 'stats', [body]), '')
	return result
