LEVEL = 'exploration'
EXT = ('bit', )
BUDGET = 20
ASSUMPTIONS = [
	'words and labels shorter than the wrapping width, without blanks and '
	'line drawing characters; every node dominates a word',
	]
