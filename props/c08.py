LEVEL = 'exploration'
EXT = ('bit', )
BUDGET = 20
ASSUMPTIONS = []
