"""Parse the function-like macros of macros.h into Cython AST expressions.

The macro bodies are C expressions made of operators that Cython shares with
C, so they are parsed by Cython's expression parser after rewriting C-only
syntax; statement-like macros (assignments) are skipped (they are verified
with CBMC on the real header instead)."""
import re


def macros(path):
	from Cython.Compiler.TreeFragment import parse_from_strings
	res = {}
	with open(path) as inp:
		src = inp.read()
	src = re.sub(r'/\*.*?\*/', ' ', src, flags=re.S).replace('\\\n', ' ')
	for m in re.finditer(
			r'(?m)^\s*#define\s+(\w+)(\(([^)]*)\))?[ \t]+(.+)$', src):
		name, params, body = m.group(1), m.group(3), m.group(4).strip()
		if re.search(r'[|&^]=|(?<![=!<>])=(?!=)', body) or '?' in body:
			continue
		body = re.sub(r'(?<![/])/(?![/])', '//', body)
		body = body.replace('&&', ' and ').replace('||', ' or ')
		try:
			t = parse_from_strings('macro', 'x = %s\n' % body, level='module')
		except Exception:
			continue
		stat = t.body
		while hasattr(stat, 'stats'):
			stat = stat.stats[0]
		res[name] = (None if params is None else
				[p.strip() for p in params.split(',')], stat.rhs)
	return res
