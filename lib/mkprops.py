import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None)))
D='discodop/'
p('C01','Bit vectors behave exactly like finite sets of positions',
 "For every bit vector (a machine word, an array of machine words, or an arbitrarily large non-negative Python integer), membership test, cardinality, length, next set or unset position from any start, iteration, union, intersection, subset test and the number of contiguous components give exactly the answer the same operation gives on the set of positions of the one bits. Array operations write only the destination words they are documented to write and read only the words inside the given size.",
 ['inputs'],"All 2^64 words, all positions, all arrays of any number of words, all non-negative Python integers.",
 "The doctests and the self-test try about thirty constants; a wrong mask, shift or bound shows only for particular words, positions at word boundaries, or particular array sizes.",
 [D+'bit.pxd',D+'bit.pyx',D+'macros.h',D+'bitcount.h'],
 [('single word primitives',D+'bit.pxd'),('array primitives',D+'bit.pxd'),('Python integer versions',D+'bit.pyx'),('fallback',D+'tree.py:bitfanout'),('fallback',D+'eval.py:pyintbitcount')],
 observe=['discodop.bit.fanout','discodop.bit.bitcount','discodop.bit.pyintnextset','discodop.bit.pyintbitcount','cimport discodop.bit'])
p('C02','Parent links of parented trees mirror the children lists',
 "After any sequence of construction, item or slice assignment and deletion, append, extend, insert, pop, remove, detach, disown, splice and prune on parented trees, and also after an operation that is rejected with an error, a node's parent is P exactly when the node occurs, exactly once, among P's children, and a node that occurs nowhere has no parent. Each operation changes the children list exactly as the same operation on a Python list would, and no node other than those moved is affected.",
 ['histories','inputs'],"All histories of mutations, with positive, negative and out-of-range indices, slices, tree positions, leaves and subtrees as values, and rejected operations.",
 "The doctests build a few small trees; whether the links stay consistent depends on the history of operations, and the failure paths are never exercised.",
 [D+'tree.py',D+'util.py'],[('parent management',D+'tree.py:ParentedTree'),('slice normalisation',D+'util.py:slice_bounds')],
 state=[dict(name='_parent',meaning='back pointer of a node',where=D+'tree.py'),dict(name='children',meaning='list of children',where=D+'tree.py')],
 observe=['parent','parent_index','left_sibling','right_sibling','root','treeposition'])
p('C03','All views of one tree agree; copies are faithful; frozen trees stay put',
 "For every tree, the pre-order and post-order traversals visit each node once in the defined order, and the leaves, the list of preterminals, the height, the tree positions and indexing by tree position, and the smallest node spanning a range of leaves all agree with the recursive definition of the tree. A deep copy, conversion or frozen copy is equal to its source and shares no mutable part with it; equality and hash of immutable and discontinuous trees are consistent with each other; every mutating operation on an immutable tree is rejected and leaves it as it was.",
 ['inputs'],"All trees (any shape, depth and leaf type), all tree positions and leaf ranges.",
 "A handful of doctest trees; traversal code is iterative with explicit stacks, and mistakes show only for specific shapes (empty nodes, mixed leaves and subtrees, unary chains).",
 [D+'tree.py'],[('traversal and positions',D+'tree.py:Tree'),('immutability',D+'tree.py:ImmutableTree'),('discontinuous trees',D+'tree.py:DiscTree')])
p('C04','Binarization is lossless',
 "For every tree and every combination of binarization options (left or right factored, any horizontal and vertical markovization, head-outward, unaries at either end, optimal binarization), every node of the result has at most two children, the words dominated are the same, and undoing the binarization restores the original tree up to the order of children. Collapsing unary productions, introducing preterminals and their inverses are lossless in the same sense.",
 ['inputs','configurations'],"All trees, continuous and discontinuous, and all option combinations.",
 "The tests binarize two trees with five option settings; the options interact and there are hundreds of combinations per tree shape.",
 [D+'treetransforms.py'],[('binarize/unbinarize',D+'treetransforms.py'),('optimal binarization',D+'treetransforms.py:optimalbinarize')])
p('C05','Splitting discontinuous nodes is reversible and spans are exact',
 "For every discontinuous tree, splitting its discontinuous nodes yields a tree without discontinuous nodes, and merging the split nodes restores the original tree (for trees in which no node has two discontinuous children with the same label, and no label looks like a marker itself). For every node, the number of blocks, the list of maximal blocks, the bit set of dominated words and the fan-out marking of labels are exactly those of the set of words the node dominates, and removing the markers restores the labels.",
 ['inputs'],"All discontinuous trees, in both marking schemes.",
 "One negra sample tree and two toy trees are tried; block structure has unboundedly many configurations.",
 [D+'treetransforms.py',D+'tree.py',D+'grammar.py'],[('splitdiscnodes/mergediscnodes',D+'treetransforms.py'),('fan-out and spans',D+'treetransforms.py:addbitsets'),('ranges',D+'tree.py:ranges'),('range heads',D+'grammar.py:rangeheads')])
p('C06','Deleting words renumbers trees consistently',
 "When words (or empty elements, or punctuation) are removed from a tree and its sentence, the remaining leaves are numbered 0 to n-1 without gaps or repeats, the sentence keeps exactly the remaining words in their original order, each remaining word keeps its preterminal and the nodes that dominate it, and no node without children is left behind.",
 ['inputs'],"All trees and sentences and all subsets of words to be removed.",
 "The tests remove at most a few tokens from fixed trees; consistency of the renumbering depends on which subset of positions goes and on the discontinuities.",
 [D+'treetransforms.py',D+'punctuation.py'],[('removeterminals/removeemptynodes',D+'treetransforms.py'),('removal of punctuation',D+'punctuation.py')])
p('C07','Moving punctuation never loses, duplicates or alters a word',
 "For every tree and sentence, each way of moving punctuation (to the root, raised, balanced, lowered) leaves a well-formed tree over the same sentence in which every word occurs exactly once below a preterminal with the same label as before, every non-punctuation word keeps its set of dominating phrasal nodes up to nodes emptied by the move, and no empty phrasal node remains.",
 ['inputs','configurations'],"All trees, all placements of punctuation, all punctuation options.",
 "The tests contain about three sentences with punctuation; results depend on where each punctuation token is attached and what its neighbours dominate.",
 [D+'punctuation.py'],[('punctuation transformations',D+'punctuation.py')])
p('C08','Treebank files round-trip',
 "For every tree and sentence, writing it in a supported treebank format (bracket, discontinuous bracket, export, and the TIGER XML / Alpino XML style formats where writing is offered) and reading the result back gives an equal tree with the same leaves and the same sentence, for all labels, functions and words the format documents as representable. Escaping a word and unescaping it is the identity for every word that does not itself contain an escape sequence.",
 ['inputs'],"All trees, words (including brackets, slashes, quotes, empty and non-ASCII words) and labels the format can represent.",
 "Only the sample files are read; encodings go wrong on particular characters, on discontinuity, or on particular node counts.",
 [D+'treebank.py',D+'tree.py'],[('writers',D+'treebank.py:writetree'),('readers',D+'treebank.py:CorpusReader'),('escaping',D+'tree.py:escape')])
p('C09','The incremental tree reader finds the same trees for any chunking',
 "Feeding a stream of bracketed trees to the incremental reader yields every tree exactly once, in order, with the same sentence, and with any surrounding text attached to the right tree, independently of how the stream is divided into lines, of blank space between brackets and of the text between trees (a division within brackets of that text itself may cut off the text, but no tree).",
 ['inputs','schedules'],"All tree sequences, all placements of newlines and surrounding text.",
 "One fixed list of lines is tried.",
 [D+'treebank.py'],[('incrementaltreereader and segmentation',D+'treebank.py')])
p('C10','Extracted grammars are well formed and derive their treebank',
 "For every treebank, each rule extracted from a tree is a linear, non-erasing, ordered rewriting rule, one for every node, and applying the rules of a tree bottom-up gives back the spans of the tree's nodes. Frequencies are exactly the number of times each rule occurs, relative frequencies sum to one for every left-hand side, and rule and lexicon text written out and read back is the same grammar (weights to the precision with which they are written).",
 ['inputs'],"All treebanks of continuous and discontinuous trees.",
 "The tests extract one toy grammar; rule shapes depend on the order and contiguity of spans.",
 [D+'grammar.py'],[('rule extraction',D+'grammar.py:lcfrsproductions'),('treebank grammar',D+'grammar.py:treebankgrammar'),('sorting and writing',D+'grammar.py')])
p('C11','Merging grammars and estimating weights preserves total counts',
 "Merging several sorted rule, lexicon or fragment files gives every distinct entry exactly once with the sum of its weights divided by the number of files, in sorted order, losing nothing. For DOP reductions, the number of subtree fragments at each node is the product over its children of one plus their number, the weights of all rules with the same left-hand side sum to the number of fragments headed by it, and nodes that are equal subtrees with the same yield share an address exactly when a packed representation is asked for. In a grammar of fragments every fragment is one rule with its frequency, equal weights estimates sum to one for every left-hand side, and the templates restore the fragments.",
 ['inputs'],"All multisets of entries and all treebanks.",
 "The tests never merge more than a few rules and check no sums.",
 [D+'grammar.py'],[('merging',D+'grammar.py:sumrules'),('DOP reduction',D+'grammar.py:dopreduction'),('weights',D+'grammar.py:convertweight')])
p('C12','The agenda is a stable priority queue with a dictionary view',
 "After any history of insertions, priority changes, deletions, peeks and pops, the agenda contains exactly the live keys with their last priorities; popping or peeking returns an item of minimal priority among them, first inserted first among equals, and removes (or keeps) exactly that item; the reported size, membership, iteration and emptiness agree with the contents. Merging sorted sequences yields the sorted, stable merge of all their items.",
 ['histories'],"All finite histories of operations over all keys and priorities, including re-insertion, priority changes and clearing.",
 "The tests run one random history of inserts and pops; lazily invalidated entries matter only in particular interleavings of updates, deletes and peeks.",
 [D+'util.py'],[('PyAgenda',D+'util.py'),('merge',D+'util.py:merge'),('OrderedSet',D+'util.py')],
 state=[dict(name='heap, mapping, length',meaning='lazy heap, live entries, size',where=D+'util.py:PyAgenda')])
p('C13','Tree edit distance is the true minimum edit distance',
 "For all pairs of ordered labelled trees, the reported edit distance equals the minimum number of node insertions, deletions and relabelings that turn one tree into the other; it is zero exactly for equal trees, symmetric, satisfies the triangle inequality, and both implementations agree, the one that reports operations reporting a minimal script.",
 ['inputs'],"All pairs (and triples) of ordered labelled trees.",
 "The module self-test compares a handful of trees.",
 [D+'treedist.py'],[('Zhang-Shasha',D+'treedist.py:treedist'),('with operations',D+'treedist.py:newtreedist')])
p('C14','Head assignment gives every phrase one head and every sentence a dependency tree',
 "For every tree and every head rule table, head finding returns one of the node's own children (or none exactly where the rules say so), following the direction and priority order the rules state, and marks no more than one child of a node as head. The derived dependency structure assigns every word exactly one governor, has no cycles, has one root for each child of the root node, and follows the marked heads.",
 ['inputs','configurations'],"All trees and all head rule tables.",
 "No unit test covers head rules other than via sample parameter files.",
 [D+'heads.py'],[('head finding',D+'heads.py:headfinder'),('dependencies',D+'heads.py:dependencies')])
p('C15','Evaluation scores are exact multiset measures',
 "For every pair of gold and candidate analyses, precision, recall and F-measure are the exact multiset intersection ratios of their bracketings (between 0 and 1; perfect if and only if the multisets are equal; F the harmonic mean), invariant under the order of brackets, and precision and recall swap when gold and candidate are exchanged. Labels and words marked for deletion or as equivalent in the parameters are treated as stated, and every bracketing lists exactly the words its node dominates.",
 ['inputs','configurations'],"All pairs of trees and all evaluation parameter settings.",
 "The unit test compares one short report for one file pair.",
 [D+'eval.py'],[('measures',D+'eval.py:f_measure'),('bracketings',D+'eval.py:bracketings'),('parameters',D+'eval.py:transitiveclosure'),('alignment',D+'eval.py:editdistance')])
p('C16','Yield functions compose spans exactly; encodings round-trip',
 "A rule's yield function, in every encoding used (nested tuples, strings, packed integers), combines the spans of its right-hand side into the left-hand side's spans exactly as written, and converting between encodings is lossless. Two partial analyses are combined by the parser if and only if their word sets are disjoint and interleave exactly as the yield function says.",
 ['inputs'],"All yield functions of ordered binary rules and all pairs of word sets of any size supported.",
 "Two or three rules are tried; the packed test uses bit tricks whose edge cases lie at word boundaries and adjacent gaps.",
 [D+'plcfrs.pyx',D+'gen.py',D+'grammar.py',D+'containers.pyx'],[('combination test',D+'plcfrs.pyx:concat'),('encodings',D+'gen.py:arraytoyf'),('composition',D+'gen.py')])
p('C17','Tree drawings show every node once, in its own place',
 "For every tree and sentence, the layout assigns every node and word a distinct position, words in sentence order from left to right, parents above their children, with edges connecting exactly each parent with its children, and for continuous trees no line running through another node or along another line; the rendered text contains every word and label.",
 ['inputs'],"All trees, including discontinuous ones.",
 "A few fixed pictures are compared.",
 [D+'tree.py'],[('layout',D+'tree.py:DrawTree.nodecoords'),('rendering',D+'tree.py:DrawTree.text')])
p('C18','State splits and treebank transformations are reversible',
 "Every transformation or state split that is offered with an inverse is undone by that inverse on every tree: words and leaf order are never changed by transforming, and reversing returns the original labels and structure.",
 ['inputs','configurations'],"All trees and all reversible transformations.",
 "One sample treebank is transformed and reversed.",
 [D+'treebanktransforms.py',D+'treetransforms.py'],[('transform/reversetransform',D+'treebanktransforms.py'),('label splits',D+'treetransforms.py')])
p('C19','The chart parsers find exactly the derivable items with their best probabilities',
 "For every grammar and sentence, the CFG and LCFRS parsers report a parse if and only if the grammar derives the sentence, and the score of every item in an exhaustive chart is the probability of its best derivation (or the sum over derivations in inside mode).",
 ['inputs'],"All binarized weighted grammars and all sentences up to the supported length.",
 "Two toy grammars.",
 [D+'pcfg.pyx',D+'plcfrs.pyx',D+'containers.pyx'],[('CKY',D+'pcfg.pyx:parse'),('agenda parsing',D+'plcfrs.pyx:parse')])
p('C20','k-best lists are the k best derivations in order',
 "For every chart and every k, the k-best enumeration returns the k most probable distinct derivations (or all, if fewer), in non-increasing order of probability, each scored with the product of its rule probabilities.",
 ['inputs'],"All charts and all k.",'Used only with k=10 on unambiguous toy sentences.',
 [D+'kbest.pyx'],[('lazy enumeration',D+'kbest.pyx:lazykbest')])
p('C21','Fragment extraction finds exactly the maximal common fragments with exact counts',
 "For every treebank, the extracted recurring fragments are exactly the maximal connected fragments shared by pairs of trees (plus the cover fragments when requested), and each reported count is the exact number of occurrences in the treebank.",
 ['inputs'],"All pairs of trees.","One small sample and one doctest.",
 [D+'_fragments.pyx',D+'fragments.py'],[('tree kernel',D+'_fragments.pyx:fasttreekernel'),('counts',D+'_fragments.pyx:exactcounts')])
p('C22','Coarse-to-fine pruning keeps the items of the coarse k-best derivations',
 "For every pair of matching coarse and fine grammars, pruning keeps precisely the items that occur in the requested coarse derivations, so a fine derivation that projects onto them is never lost.",
 ['inputs'],"All grammar pairs, sentences and k.","One toy grammar pair.",
 [D+'coarsetofine.pyx'],[('pruning',D+'coarsetofine.pyx:prunechart')])
p('C23','Disambiguation scores sum over exactly the right derivations',
 "For every list of derivations, each candidate parse tree is scored with the sum (or maximum, or fewest fragments, as requested) over exactly the derivations that yield that tree, and the best such tree is returned first.",
 ['inputs'],"All charts and objectives.","A toy treebank.",
 [D+'disambiguation.pyx'],[('marginalize',D+'disambiguation.pyx:marginalize')])
p('C24','Outside estimates are admissible',
 "For every grammar and item, the outside estimate used to guide the parser is never worse than the true best outside score of that item in any sentence of the given length.",
 ['inputs'],"All grammars, items and lengths.","A toy grammar.",
 [D+'estimates.pyx'],[('estimates',D+'estimates.pyx:getestimates')])
p('C25','Corpus search counts equal the number of matching trees',
 "For every corpus, query and range of trees, counts, trees, sentences and extracted nodes returned by a search agree with each other and with matching each tree on its own, whether answers come from the cache, parallel workers or a fresh run.",
 ['inputs','schedules','configurations'],"All corpora, queries, limits and worker counts.","No unit tests.",
 [D+'treesearch.py'],[('searchers',D+'treesearch.py')])
p('C26','Smoothed lexicons stay probability distributions and cover every word',
 "For every training corpus and unknown word model, after replacing rare words and smoothing, tagging any sentence always yields at least one tag for every word, and word probabilities per tag never exceed one in total.",
 ['inputs'],"All corpora and sentences.","No unit tests.",
 [D+'lexicon.py'],[('unknown word models',D+'lexicon.py')])
p('C27','Results do not depend on the number of worker processes',
 "Extraction of fragments, evaluation and parsing give the same results for every number of worker processes and every order in which workers finish.",
 ['schedules','configurations'],"All worker counts and completion orders.","Tests run in one process.",
 [D+'fragments.py',D+'runexp.py',D+'parser.py'],[('work distribution',D+'fragments.py:workload')])
p('C28','Stored tree collections and vocabularies read back identically',
 "Writing an indexed tree collection and its vocabulary to disk or through pickling and loading them again gives the same trees, sentences and production numbers, for mutable and memory-mapped forms.",
 ['inputs'],"All treebanks.","One small sample treebank.",
 [D+'containers.pyx'],[('serialization',D+'containers.pyx:Ctrees')])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,S)
print(len(P))
