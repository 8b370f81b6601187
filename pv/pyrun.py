"""Generate obligations for the contracts of a module on Python code in /repo."""
import traceback
from . import pyexec
from .vc import Unsupported


def run(mod, only=None):
	"""Verify all contracts of a contract module.

	:returns: (obligations, outside): the obligations of all functions that
		are within reach, and the reasons for those that are not."""
	obs, outside = [], []
	for make in mod.CONTRACTS:
		c = make()
		if only and not any(c.name == x or c.name.startswith(x + "/") for x in only):
			continue
		eng = mod.mk(c.name)
		try:
			eng.verify(c)
		except Unsupported as err:
			outside.append(dict(function=c.name,
					reason='unsupported: %s' % err))
			continue
		except Exception as err:  # pylint: disable=W0703
			# a contract refers to a variable, attribute or loop that is no
			# longer there: the contract does not apply to this code.
			frame = traceback.extract_tb(err.__traceback__)[-1]
			outside.append(dict(function=c.name, reason='%s: %s (%s:%d)' % (
					type(err).__name__, str(err)[:200],
					frame.filename.split('/')[-1], frame.lineno)))
			continue
		obs.extend(eng.obs)
	if not only and hasattr(mod, 'lemmas'):
		obs.extend(mod.lemmas())
	background = pyexec.background()
	for o in obs:
		o.assumptions.extend(background)
	return obs, outside
