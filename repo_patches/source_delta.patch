From beb8239644b8b2927ff02faa42134336f9b8abac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:57 +0000
Subject: [PATCH 01/20] fix: ImmutableTree.insert should be rejected like other
 mutators

insert() was the only mutator that was not overridden, so that it was
possible to modify an immutable tree (leaving its hash, leaves and bitset
out of date).
---
 discodop/tree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/discodop/tree.py b/discodop/tree.py
index 56d2899..bf250e4 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -642,6 +642,9 @@ class ImmutableTree(Tree):
 	def extend(self, _):
 		raise ValueError('ImmutableTrees may not be modified')
 
+	def insert(self, _index, _child):
+		raise ValueError('ImmutableTrees may not be modified')
+
 	def pop(self, _=None):
 		raise ValueError('ImmutableTrees may not be modified')
 
-- 
2.43.0


From b054565a615153903a6454ae05630715e6c488fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:57 +0000
Subject: [PATCH 02/20] fix: reject repeated children before changing any
 parent pointer

ParentedTree('S', [a, a]) and tree[i:j] = [a, a] raised ValueError only after
the parent of 'a' had been set (and, for slices, after the parent pointers of
the replaced children had been cleared), leaving the parent pointers
inconsistent with the lists of children.
---
 discodop/tree.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index bf250e4..19ad171 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -686,9 +686,7 @@ class ParentedTree(Tree):
 		super().__init__(label_or_str, children)
 		# iterate over self.children, *not* children,
 		# because children might be an iterator.
-		for i, child in enumerate(self.children):
-			if isinstance(child, Tree):
-				self._setparent(child, i, dry_run=True)
+		self._checkchildren(self.children, 0)
 		for i, child in enumerate(self.children):
 			if isinstance(child, Tree):
 				self._setparent(child, i)
@@ -786,6 +784,20 @@ class ParentedTree(Tree):
 		if not dry_run:
 			child._parent = self
 
+	def _checkchildren(self, children, start):
+		"""Check error conditions for adding a sequence of children.
+
+		:raises ValueError: if a child already has a parent, or if the same
+			child occurs more than once; nothing has been changed."""
+		seen = set()
+		for i, child in enumerate(children, start):
+			if isinstance(child, Tree):
+				self._setparent(child, i, dry_run=True)
+				if id(child) in seen:
+					raise ValueError('Cannot insert the same subtree '
+							'more than once.')
+				seen.add(id(child))
+
 	# === Methods that add/remove children ======================
 	# Every method that adds or removes a child must make
 	# appropriate calls to _setparent() and _delparent().
@@ -823,9 +835,7 @@ class ParentedTree(Tree):
 				value = list(value)
 			# Check for any error conditions, so we can avoid ending
 			# up in an inconsistent state if an error does occur.
-			for i, child in enumerate(value):
-				if isinstance(child, Tree):
-					self._setparent(child, start + i, dry_run=True)
+			self._checkchildren(value, start)
 			# clear the child pointers of all parents we're removing
 			for i in range(start, stop):
 				if isinstance(self[i], Tree):
-- 
2.43.0


From b0a90d5f98e7d79c317186eb8eff0a5b563cb095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:33 +0000
Subject: [PATCH 03/20] fix: DiscTree.__eq__ should compare all children

The comparison returned upon the first child that is a terminal, such that
trees which differ in a later child compared as equal, while their hash values
differ.
---
 discodop/tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index 19ad171..9ebff10 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -982,7 +982,8 @@ class DiscTree(ImmutableTree):
 			if istree != isinstance(b, Tree):
 				return False
 			elif not istree:
-				return self.sent[a] == other.sent[b]
+				if self.sent[a] != other.sent[b]:
+					return False
 			elif not a.__eq__(b):
 				return False
 		return True
-- 
2.43.0


From d3b8e4b77a91d259549074948f3167c6e68ce77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:15 +0000
Subject: [PATCH 04/20] fix: PyAgenda.clear() should reset length

---
 discodop/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discodop/util.py b/discodop/util.py
index 917ebfb..da587f3 100644
--- a/discodop/util.py
+++ b/discodop/util.py
@@ -288,6 +288,7 @@ class PyAgenda:
 	def clear(self):
 		"""Remove all items from agenda."""
 		self.counter = 1
+		self.length = 0
 		del self.heap[:]
 		self.mapping.clear()
 
-- 
2.43.0


From b207825d58527845dd1f29bd3943484662d39d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:15 +0000
Subject: [PATCH 05/20] fix: PyAgenda.peekitem() should skip exactly the
 invalidated entries

---
 discodop/util.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/discodop/util.py b/discodop/util.py
index da587f3..6a61a9c 100644
--- a/discodop/util.py
+++ b/discodop/util.py
@@ -246,15 +246,11 @@ class PyAgenda:
 
 	def peekitem(self):
 		"""Get the current best (key, value) pair; keep it on the agenda."""
-		n = len(self.heap)
-		if n == 0:
+		while self.heap and self.heap[0].count == INVALID:
+			heappop(self.heap)
+		if not self.heap:
 			raise IndexError("peek at empty heap")
 		entry = self.heap[0]
-		while entry.count == 0:
-			if n == 1:
-				raise IndexError("peek at empty heap")
-			entry = heappop(self.heap)
-			n -= 1
 		return entry.key, entry.value
 
 	# standard dict() methods
-- 
2.43.0


From 1014a8d14972b643798b3ec65a2f95126c54d5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:15 +0000
Subject: [PATCH 06/20] fix: invalidating an agenda entry should not affect the
 heap order

---
 discodop/util.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/discodop/util.py b/discodop/util.py
index 6a61a9c..f944771 100644
--- a/discodop/util.py
+++ b/discodop/util.py
@@ -194,15 +194,14 @@ class OrderedSet(Set):
 		return self._from_iterable(value for value in self if value in other)
 
 
-INVALID = 0
-
-
 class Entry(object):
 	"""A PyAgenda entry."""
 	def __init__(self, key, value, count):
 		self.key = key
 		self.value = value
 		self.count = count
+		# NB: invalidating an entry may not affect its position in the heap.
+		self.valid = True
 
 	def __lt__(self, b):
 		return (self.value < b.value
@@ -234,7 +233,7 @@ class PyAgenda:
 					oldentry = self.mapping[k]
 					if entry < oldentry:
 						entry.count = oldentry.count
-						oldentry.count = INVALID
+						oldentry.valid = False
 						self.mapping[k] = entry
 						self.heap.append(entry)
 				else:
@@ -246,7 +245,7 @@ class PyAgenda:
 
 	def peekitem(self):
 		"""Get the current best (key, value) pair; keep it on the agenda."""
-		while self.heap and self.heap[0].count == INVALID:
+		while self.heap and not self.heap[0].valid:
 			heappop(self.heap)
 		if not self.heap:
 			raise IndexError("peek at empty heap")
@@ -259,7 +258,7 @@ class PyAgenda:
 		if key is None:
 			return self.popitem()[1]
 		entry = self.mapping.pop(key)
-		entry.count = INVALID
+		entry.valid = False
 		self.length -= 1
 		return entry.value
 
@@ -267,7 +266,7 @@ class PyAgenda:
 		""":returns: best scoring (key, value) pair; removed from agenda."""
 		entry = None
 		entry = heappop(self.heap)
-		while not entry.count:
+		while not entry.valid:
 			entry = heappop(self.heap)
 		del self.mapping[entry.key]
 		self.length -= 1
@@ -299,7 +298,7 @@ class PyAgenda:
 		if key in self.mapping:
 			oldentry = self.mapping[key]
 			entry.count = oldentry.count
-			oldentry.count = INVALID
+			oldentry.valid = False
 		else:
 			self.length += 1
 			self.counter += 1
@@ -308,13 +307,13 @@ class PyAgenda:
 
 	def __delitem__(self, key):
 		"""Remove key from heap."""
-		self.mapping[key].count = INVALID
+		self.mapping[key].valid = False
 		self.length -= 1
 		del self.mapping[key]
 
 	def __repr__(self):
 		return '%s({%s})' % (self.__class__.__name__, ", ".join(
-				['%r: %r' % (a.key, a.value) for a in self.heap if a.count]))
+				['%r: %r' % (a.key, a.value) for a in self.heap if a.valid]))
 
 	def __str__(self):
 		return self.__repr__()
-- 
2.43.0


From f9815c5b0a2e0e303966428fc75c37c49727cf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:28 +0000
Subject: [PATCH 07/20] fix: tailmarker should not prevent a tree from being
 unbinarized

---
 discodop/treetransforms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/discodop/treetransforms.py b/discodop/treetransforms.py
index 8faa5af..0146477 100644
--- a/discodop/treetransforms.py
+++ b/discodop/treetransforms.py
@@ -232,7 +232,9 @@ def binarize(tree, factor='right', horzmarkov=999, vertmarkov=1,
 				mark = '<%s>%s' % (siblings, parents)
 				if ids is not None:  # numeric identifier
 					mark = '<%s>' % ids[mark]
-				newnode.label = ''.join((origlabel, childchar, marktail, mark))
+				# NB: unbinarize() looks for childchar followed by '<'
+				newnode.label = ''.join((
+						origlabel, childchar, '<', marktail, mark[1:]))
 				curnode = newnode
 				# switch direction upon encountering the head
 				if headoutward and i == headidx:
-- 
2.43.0


From 6ec1343ab69852d142473512ec19e754dbda1028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:09 +0000
Subject: [PATCH 08/20] fix: collapse and expand unaries of ParentedTree
 objects

---
 discodop/treetransforms.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/discodop/treetransforms.py b/discodop/treetransforms.py
index 0146477..a3784e4 100644
--- a/discodop/treetransforms.py
+++ b/discodop/treetransforms.py
@@ -301,8 +301,11 @@ def unbinarize(tree, _sent=None, expandunary=True,
 				if expandunary:
 					unaryindex = node.label.find(unarychar)
 					if unaryindex != -1:
+						# empty node so that its children may get a new parent.
+						children = node[:]
+						node[:] = []
 						newnode = treeclass(
-								node.label[unaryindex + 1:], node[:])
+								node.label[unaryindex + 1:], children)
 						node.label = node.label[:unaryindex]
 						node[:] = [newnode]
 				parent = node  # non-binarized node, move on to next parent
@@ -330,7 +333,10 @@ def collapseunary(tree, collapsepos=False, collapseroot=False, joinchar='+'):
 			if (len(node) == 1 and isinstance(node[0], Tree)
 					and (collapsepos or isinstance(node[0, 0], Tree))):
 				node.label += joinchar + node[0].label
-				node[0:] = [child for child in node[0]]
+				# empty child so that its children may get a new parent.
+				children = node[0][:]
+				node[0][:] = []
+				node[:] = children
 				# since we assigned the child's children to the current node,
 				# evaluate the current node again
 				agenda.append(node)
-- 
2.43.0


From 61f074982dd88220e75e748e4eaf22aa0540968d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:58 +0000
Subject: [PATCH 09/20] fix: splitdiscnodes should preserve head marks

---
 discodop/treetransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treetransforms.py b/discodop/treetransforms.py
index a3784e4..d2f2e81 100644
--- a/discodop/treetransforms.py
+++ b/discodop/treetransforms.py
@@ -519,7 +519,7 @@ def splitdiscnodes(tree, markorigin=False):
 					newchild = treeclass(newlabel, childsubset)
 					newchild.source = child.source
 					if (child.type == HEAD
-							and any(a.type == HEAD for a in child)):
+							and any(a.type == HEAD for a in newchild)):
 						newchild.type = HEAD
 					node.append(newchild)
 			else:
-- 
2.43.0


From 1f63604e8b3619e22be754a14b6588208b744cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:22 +0000
Subject: [PATCH 10/20] fix: punctlower should not lose punctuation or leave
 empty nodes

---
 discodop/punctuation.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/discodop/punctuation.py b/discodop/punctuation.py
index 2b7995b..db1fa9a 100644
--- a/discodop/punctuation.py
+++ b/discodop/punctuation.py
@@ -110,12 +110,21 @@ def punctlower(tree, sent):
 			elif num < max(termdom):
 				lower(node, child)
 				break
+		else:
+			candidate.append(node)
 
-	for a in tree.treepositions('leaves'):
+	punct = []
+	for a in reversed(tree.treepositions('leaves')):
 		if ispunct(sent[tree[a]], tree[a[:-1]]):
-			b = tree[a[:-1]]
-			del tree[a[:-1]]
-			lower(b, tree)
+			# store punctuation node
+			punct.append(tree[a[:-1]])
+			# remove this punctuation node and any empty ancestors
+			for n in range(1, len(a)):
+				del tree[a[:-n]]
+				if tree[a[:-(n + 1)]]:
+					break
+	for b in reversed(punct):
+		lower(b, tree)
 
 
 def punctraise(tree, sent, rootpreterms=False):
-- 
2.43.0


From beae1118bd2a536160b197b4b08f68b34a0d5ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:29 +0000
Subject: [PATCH 11/20] fix: incremental reader: skip text before first tree on
 a line

---
 discodop/treebank.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index 43375d5..b9f721c 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -1110,7 +1110,8 @@ def segmentbrackets(strict=False, robust=True):
 					rest, prev = line[start:a], line[a:]
 					if result:
 						tryparse(result, rest)
-						result, start = '', a
+						result = ''
+					start = a
 				parens += 1
 				depth = max(depth, parens)
 				a = line.find(lb, a + 1)
-- 
2.43.0


From b17b9eb2fa090045e484ecb0f5e14221ee6db94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 12/20] fix: space between closing brackets should not affect
 detection of discbrackets

---
 discodop/tree.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index 9ebff10..ec4e161 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1902,6 +1902,7 @@ def brackettree(treestr, detectdisc=True):
 	:param detectdisc: if True, enable discbracket detection;
 		if False, force bracket format.
 	:returns: (tree, sent) tuple of ParentedTree and list of str."""
+	treestr = SUPERFLUOUSSPACERE.sub(')', treestr)
 	# bracket: terminals are not all indices
 	if not detectdisc or STRTERMRE.search(treestr):
 		sent, cnt = [], count()
@@ -1911,8 +1912,7 @@ def brackettree(treestr, detectdisc=True):
 			sent.append(unescape(x))
 			return next(cnt)
 
-		tree = ParentedTree.parse(FRONTIERNTRE.sub(' #FRONTIER#)',
-				SUPERFLUOUSSPACERE.sub(')', treestr)),
+		tree = ParentedTree.parse(FRONTIERNTRE.sub(' #FRONTIER#)', treestr),
 				parse_leaf=substleaf)
 	else:  # discbracket: terminals have indices
 		sent = {}
@@ -1924,9 +1924,7 @@ def brackettree(treestr, detectdisc=True):
 			sent[idx] = unescape(word)
 			return idx
 
-		tree = ParentedTree.parse(
-				SUPERFLUOUSSPACERE.sub(')', treestr),
-				parse_leaf=substleaf)
+		tree = ParentedTree.parse(treestr, parse_leaf=substleaf)
 		sent = [sent.get(n, None) for n in range(max(sent) + 1)]
 	return tree, sent
 
-- 
2.43.0


From 304df1ec449f478d7d73d87a33e0ae0b50a38549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 13/20] fix: bracket reader should unescape words like the
 other readers

---
 discodop/treebank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index b9f721c..aac1fbb 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -240,7 +240,7 @@ class BracketCorpusReader(CorpusReader):
 								'=0123456789')
 					if self.functions == 'remove':
 						node.label = node.label[:x]
-		sent = [escape(token) for token in LEAVESRE.findall(block)]
+		sent = [unescape(token) for token in LEAVESRE.findall(block)]
 		return Item(tree, sent, None, block)
 
 
-- 
2.43.0


From 97a16199454279acc37f22c53946eafba98b4c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:24 +0000
Subject: [PATCH 14/20] fix: write comments of Alpino trees where the reader
 expects them

---
 discodop/treebank.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index aac1fbb..44c3e98 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -862,10 +862,11 @@ def writealpinotree(tree, sent, key, commentstr):
 	addchildren(tree, sent, result, count())
 	sentence = ElementTree.SubElement(result, 'sentence')
 	sentence.text = ' '.join(sent)
-	comment = ElementTree.SubElement(result, 'comment')
+	comments = ElementTree.SubElement(result, 'comments')
+	comment = ElementTree.SubElement(comments, 'comment')
 	comment.text = ('%s|%s' % (key, commentstr)) if commentstr else str(key)
 	result.text = sentence.tail = '\n  '
-	result.tail = comment.tail = '\n'
+	result.tail = comments.tail = '\n'
 	return ElementTree.tostring(result).decode('utf8')  # hack
 
 
-- 
2.43.0


From b5aa686323ce03a0c933c274019abb0b0f0bf105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:47 +0000
Subject: [PATCH 15/20] fix: read_bitpar_grammar lost all lexical rules

zip() and map() return iterators in Python 3; these were exhausted before
the rules were added to the grammar.
---
 discodop/gen.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/discodop/gen.py b/discodop/gen.py
index 8e8a213..517f8c6 100644
--- a/discodop/gen.py
+++ b/discodop/gen.py
@@ -136,13 +136,13 @@ def read_bitpar_grammar(rules, lexicon):
 		a = a.split()
 		word = a[0]
 		tags, weights = a[1::2], a[2::2]
-		weights = map(float, weights)
+		weights = list(map(float, weights))
 		if integralweights:
 			if all(int(w) == w for w in weights):
-				weights = map(int, weights)
+				weights = list(map(int, weights))
 			else:
 				integralweights = False
-		tags = zip(tags, weights)
+		tags = list(zip(tags, weights))
 		for t, p in tags:
 			ntfd[t] += p
 		grammar.extend((((t, 'Epsilon'), (word,)), p) for t, p in tags)
-- 
2.43.0


From 4e22e4e804526b44135289334988e2af61b55cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:47 +0000
Subject: [PATCH 16/20] fix: sumrules reported each sum with the next rule

The sum for a run of identical rules was yielded with the rule that ended
the run (so the first rule was lost and the last occurred twice), and an
empty iterable raised an exception.
---
 discodop/grammar.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index fca7136..028e798 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -1206,26 +1206,29 @@ def stripweight(line):
 def sumrules(iterable, n):
 	"""Given a sorted iterable of rules, sum weights of identical rules."""
 	prev = None
+	prevbitpar = False
 	w1 = 0.0
 	for line in iterable:
 		match = RULERE.match(line)
 		rule = match.group('RULE1') or match.group('RULE2')
 		if rule != prev:
 			if prev is not None:
-				if match.group('RULE1') is None:
-					yield '%g\t%s\n' % (w1 / n, rule)
+				if prevbitpar:
+					yield '%g\t%s\n' % (w1 / n, prev)
 				else:
-					yield '%s\t%g\n' % (rule, w1 / n)
+					yield '%s\t%g\n' % (prev, w1 / n)
 			prev = rule
+			prevbitpar = match.group('RULE1') is None
 			w1 = 0.0
 		if match.group('RULE1') is None:
 			w1 += convertweight(match.group('FREQ2'))
 		else:
 			w1 += convertweight(match.group('WEIGHT1'))
-	if match.group('RULE1') is None:
-		yield '%g\t%s\n' % (w1 / n, rule)
-	else:
-		yield '%s\t%g\n' % (rule, w1 / n)
+	if prev is not None:
+		if prevbitpar:
+			yield '%g\t%s\n' % (w1 / n, prev)
+		else:
+			yield '%s\t%g\n' % (prev, w1 / n)
 
 
 def sumlex(iterable, n):
-- 
2.43.0


From 7bec7824f775caadc137a04e1d7f610d6f289d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:12 +0000
Subject: [PATCH 17/20] fix: packed graph encoding shared addresses between
 subtrees with different yields

With discontinuous trees, equivalent subtrees may have gaps in different
places. Such subtrees have different productions, and cannot be represented
by the same addressed nonterminals.
---
 discodop/grammar.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index 028e798..1456885 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -868,13 +868,24 @@ class TreeDecorator(object):
 		"""Traverse subtrees not yet seen."""
 		if isinstance(tree, int):
 			return tree
-		elif tree not in self.packedgraphs:
+		# equivalent subtrees must also have the same yield functions
+		key = tree, self._gaps(tree)
+		if key not in self.packedgraphs:
 			self.ids += 1
-			self.packedgraphs[tree] = ImmutableTree(("%s@%d-%d" % (
+			self.packedgraphs[key] = ImmutableTree(("%s@%d-%d" % (
 					tree.label, self.n, self.ids)),
 					[self._recdecorate(child) for child in tree])
-			return self.packedgraphs[tree]
-		return self._copyexceptindices(tree, self.packedgraphs[tree])
+			return self.packedgraphs[key]
+		return self._copyexceptindices(tree, self.packedgraphs[key])
+
+	@staticmethod
+	def _gaps(tree):
+		"""Return order of leaves, as ranks which skip one for each gap."""
+		ranks, prev, rank = {}, None, 0
+		for idx in sorted(tree.leaves()):
+			rank += 1 if prev is None or idx == prev + 1 else 2
+			ranks[idx], prev = rank, idx
+		return tuple(ranks[idx] for idx in tree.leaves())
 
 	def _copyexceptindices(self, tree1, tree2):
 		"""Copy the nonterminals from tree2, but take indices from tree1."""
-- 
2.43.0


From ddc5cd82b9d40ee95399c476ca6070c11a92687d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:24 +0000
Subject: [PATCH 18/20] fix: deplen counted the dependency from the artificial
 root

dependencies() marks this dependency with the label 'root'.
---
 discodop/treebank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index 44c3e98..4e8e303 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -926,7 +926,7 @@ def deplen(deps):
 
 	:returns: tuple ``(totaldeplen, numdeps)``."""
 	total = sum(abs(a - b) for a, label, b in deps
-			if label != 'ROOT')
+			if label != 'root')
 	return (total, float(len(deps) - 1))  # discount ROOT
 
 
-- 
2.43.0


From 7002014389e549f195dee7dce255df58ba202cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:41 +0000
Subject: [PATCH 19/20] fix: getyf failed on a discontinuous node without
 sibling

---
 discodop/treetransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treetransforms.py b/discodop/treetransforms.py
index d2f2e81..e9ea6f8 100644
--- a/discodop/treetransforms.py
+++ b/discodop/treetransforms.py
@@ -979,7 +979,7 @@ def getyf(left, right):
 			if cur != '0':
 				cur = '0'
 				result.append(cur)
-		elif right.bitset & mask:
+		elif right is not None and right.bitset & mask:
 			if cur != '1':
 				cur = '1'
 				result.append(cur)
-- 
2.43.0


From 69dfa621a09d72c9c7ea643359b375f7b6c2f7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:38 +0000
Subject: [PATCH 20/20] fix: punctprune failed on an empty sentence

---
 discodop/punctuation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/punctuation.py b/discodop/punctuation.py
index db1fa9a..316c914 100644
--- a/discodop/punctuation.py
+++ b/discodop/punctuation.py
@@ -66,7 +66,7 @@ def punctprune(tree, sent):
 		sent[i] = None
 		i += 1
 	i = len(sent) - 1
-	while i < len(sent) and sent[i] in PRUNEPUNCT:
+	while i >= 0 and sent[i] in PRUNEPUNCT:
 		sent[i] = None
 		i -= 1
 	if tree is None:
-- 
2.43.0

