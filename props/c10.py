LEVEL = 'exploration'
EXT = ('bit', )
BUDGET = 20
ASSUMPTIONS = [
	'weights are written with six significant digits; words without white '
	'space and words which need no escaping are compared exactly, others up '
	'to escaping',
	]
