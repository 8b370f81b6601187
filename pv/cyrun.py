"""Generate obligations for a set of contracts on one Cython source file."""
import os
from . import cyfront, cyexec, cmacro
from .vc import Unsupported

REPO = '/repo'


def run(path, contracts, intrinsics=None, qual='', consts=None, headers=(
		'discodop/macros.h', ), extra=()):
	"""Returns (obligations, outside): obligations of all functions that are
	within reach, and the reasons for those that are not."""
	obs, outside = [], []
	macros = {}
	try:
		funcs = {}
		for p in tuple(extra) + (path, ):
			funcs.update(cyfront.extract(os.path.join(REPO, p)))
		for h in headers:
			macros.update(cmacro.macros(os.path.join(REPO, h)))
	except Exception as err:  # pylint: disable=W0703
		return [], [dict(function='%s: all of %s' % (path, n),
				reason='front end: %s' % err) for n in contracts]
	for name, c in contracts.items():
		for variant in c.variants or [None]:
			ex = cyexec.Exec(funcs, contracts, macros, consts or {},
					qual=qual)
			# a function's own contract is not used for calls in its body
			# unless it is another function
			ex.intrinsics = dict(intrinsics or {})
			try:
				obs.extend(ex.verify(name, c, variant))
			except Unsupported as err:
				outside.append(dict(function='%s%s%s' % (qual, name,
						'' if variant is None else '[%s]' % variant),
						reason='unsupported: %s' % err))
			except Exception as err:  # pylint: disable=W0703
				outside.append(dict(function='%s%s' % (qual, name),
						reason='%s: %s' % (type(err).__name__, err)))
	return obs, outside
