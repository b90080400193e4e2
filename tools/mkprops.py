#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the statements are easy to edit)."""
import json, os
P = []
DOM = ("edges of two or more elements; elements are symbols without white space that do not read as numbers and whose "
       "parentheses, if any, are inside and balanced, http(s) URLs, finite numbers, or such edges again")
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'state': state or [], 'mechanism': mech, 'observe_at': observe, 'hook_needed': None}})
def m(name, where): return {'name': name, 'where': where}
SQL = 'gb/hypergraph/sql.py'; HG = 'gb/hypergraph/hypergraph.py'; ED = 'gb/hypergraph/edge.py'; SY = 'gb/hypergraph/symbol.py'
LI = 'gb/hypergraph/sqlite.py'
VROWS = {'name': 'vertices rows', 'meaning': 'known vertices with their degree and timestamp', 'where': SQL}
PROWS = {'name': 'perms rows', 'meaning': 'every permutation of every stored edge, the search index', 'where': SQL}

p('C01', 'Edge presence follows the history of adds and removes',
  'After any sequence of adds, removes and erasures, an edge is reported as existing exactly when it was added after the last time it was removed or everything was erased. '
  'Adding an edge that exists or removing one that does not changes nothing observable, and adding returns what it was given. '
  'Edges that only resemble each other (7 and 7.0, a and a/1, reordered, nested or longer) are different edges.',
  ['histories', 'inputs'], 'all finite histories of add, remove, erase over ' + DOM,
  'The tests add and remove one or two fixed ternary edges on an otherwise empty store; they never have look-alike edges present together, edges of other sizes, repeated elements or repeated adds.',
  [SQL, HG, ED], [m('existence test', SQL + ':exists'), m('guarded add and remove', SQL + ':add_raw, remove_raw')],
  ['HyperGraph.exists', 'HyperGraph.add', 'HyperGraph.remove', 'HyperGraph.destroy'], [PROWS, VROWS])
p('C02', 'Pattern queries return exactly the matching edges',
  'A pattern query returns exactly the stored edges that have as many elements as the pattern and equal it at every position that is not a wildcard, whatever the position and number of wildcards (also all, or none) and whatever else is stored. '
  'Each returned edge is equal to the edge that was added, element by element, with the types of its elements.',
  ['inputs', 'histories'], 'all store contents reachable by adds and removes and all patterns (the result is a Python set, in which edges that differ only in 7 versus 7.0 coincide) over ' + DOM,
  'Three patterns over a store with two ternary edges; no sizes other than three, no repeated elements, no numbers in patterns, no symbols that are prefixes of each other.',
  [SQL, HG, ED], [m('permutation index and prefix search', SQL + ':pattern2edges, cur2edges, write_edge_permutations'), m('filter', SQL + ':edge_matches_pattern')],
  ['HyperGraph.pattern2edges'], [PROWS])
p('C03', 'Star queries return exactly the edges containing an entity',
  'Asking for the edges of an entity, be it a symbol, a URL, a number or an edge, returns exactly the stored edges that have this entity as one of their own elements, at any position. '
  'Edges that contain it only inside a nested edge, or that contain an entity whose name merely starts the same, are not returned.',
  ['inputs', 'histories'], 'all store contents reachable by adds and removes, all entities (the result is a Python set, in which edges that differ only in 7 versus 7.0 coincide), over ' + DOM,
  'One star of one symbol with one stored edge.',
  [SQL, HG, ED], [m('prefix search on the permutation index', SQL + ':star, str2perms, cur2edges')], ['HyperGraph.star'], [PROWS])
p('C04', 'The degree of a vertex is the number of its occurrences',
  'At any time the degree of any vertex, atomic or edge, is the number of times it occurs as a direct element of the edges then stored, counting repeated occurrences in one edge; it is zero for unknown vertices and never negative. '
  'This holds in whatever order edges and the edges that contain them are added and removed.',
  ['histories', 'inputs'], 'all finite histories of adds, removes, beliefs, batches and erasures over ' + DOM,
  'Degrees are tested for two edges with distinct atomic elements; no edge is added, used inside another, and removed in different orders.',
  [SQL], [m('degree bookkeeping', SQL + ':inc_degree, dec_degree, add_raw, remove_raw')], ['HyperGraph.degree', 'HyperGraph.f_all'], [VROWS])
p('C05', 'Timestamps tell when a vertex first appeared',
  'The timestamp of a symbol, number or URL is the one given with the add that first introduced it since everything was last erased, and stays so when its edges are added again or removed. '
  'The timestamp of a stored edge is the one given when it was last actually added; -1 stands for unknown vertices, removed edges and adds that gave no timestamp.',
  ['histories', 'inputs'], 'all finite histories of adds and removes with arbitrary integer timestamps over ' + DOM,
  'One or two fixed histories with one timestamp value.',
  [SQL, HG], [m('timestamp written on first insertion only', SQL + ':add_raw, add_str, set_timestamp')], ['HyperGraph.timestamp'], [VROWS])
p('C06', 'Enumeration visits every vertex once with its exact degree',
  'Applying a function to all vertices calls it exactly once for every stored edge and every vertex of non-zero degree, with the vertex as it was added and its current degree, and returns the results. '
  'Any other vertex it visits was introduced before by some add and has degree zero; after an erasure nothing is visited.',
  ['histories', 'inputs'], 'all finite histories of adds, removes and erasures over ' + DOM,
  'One store of three edges.',
  [SQL], [m('scan of the vertices table', SQL + ':f_all')], ['HyperGraph.f_all'], [VROWS])
p('C07', 'Symbol lookup by root is exact',
  'Looking up a root returns exactly the symbols of the form root/namespace that are direct elements of at least one stored edge, each in full. '
  'Symbols whose root merely starts with the given one, and symbols whose last edge was removed, are not returned.',
  ['histories', 'inputs'], 'all finite histories and all concept roots over ' + DOM,
  'One root, two symbols, nothing else stored.',
  [SQL], [m('prefix search', SQL + ':symbols_with_root')], ['HyperGraph.symbols_with_root'], [PROWS])
p('C08', 'Facts live as long as a source supports them',
  'The sources of a fact are exactly those that asserted it as a belief and have not retracted it since; asserting several facts at once is the same as asserting each, and adds each fact and one source link for it. '
  'Retracting removes the link of that source, and removes the fact exactly when no source is left; other facts and links are untouched.',
  ['histories', 'inputs'], 'all finite histories of belief assertions and retractions, mixed with plain adds and removes, over ' + DOM,
  'One fact with two sources, asserted and retracted in one order.',
  [HG, SQL], [m('belief links', HG + ':add_belief, sources, remove_belief')], ['HyperGraph.add_belief', 'HyperGraph.sources', 'HyperGraph.remove_belief'])
p('C09', 'Batches mean the same as their operations in sequence',
  'Adding or removing several edges in one call, and running a batch of functions that add, remove, query or start further batches, leaves the store exactly as doing the same operations one at a time. '
  'Queries made inside a batch see the effects of the operations before them, and after a batch the store is in its normal mode: later operations are effective and durable on their own.',
  ['histories', 'programs'], 'all batches of operations, nested to any depth, on any store contents, over ' + DOM,
  'The batch tests run two functions that do one add or one remove each; no function queries, adds several edges or nests a batch.',
  [SQL, HG], [m('shared cursor and single transaction', SQL + ':transaction, open_cursor, close_cursor, batch_exec')],
  ['HyperGraph.batch_exec', 'HyperGraph.add', 'HyperGraph.remove'], [{'name': 'cur', 'meaning': 'cursor shared by the operations of a batch', 'where': SQL}])
p('C10', 'A failed operation leaves no trace',
  'When an add, remove, erasure, belief operation or batch raises, because the database reported an error at any of its steps or because a function of the batch raised, the store is exactly as before it, for this handle and for all others; this is also so for an operation inside a batch whose function catches the error and goes on. '
  'The same handle can go on: its later operations are effective and durable.',
  ['fault_sequences', 'histories'], 'every database statement of every modifying operation failing in turn, and every position of a raising function in a batch, on any store contents',
  'No test makes anything fail.',
  [SQL, LI], [m('rollback', SQL + ':transaction')], ['store contents through the same and a second handle after the error'])
p('C11', 'A crash never leaves part of an operation',
  'If the process dies at any moment, reopening the store finds exactly the result of all operations that had returned, and of the interrupted add, remove, erasure, belief operation or batch either everything or nothing. '
  'No degree, index entry or source link is ever lost or half written. A loss of power may cost the last operation that had returned, too, but as a whole: no part of an operation is left then either.',
  ['crash_points', 'histories'], 'every point between two database steps and between two writes to the files of every modifying operation, and for a loss of power any part of the writes not yet synced, on any store contents (SQLite on a file)',
  'No test crashes or reopens a store.',
  [SQL, LI, HG], [m('one transaction per operation', SQL + ':transaction')], ['store reopened from a copy of its files taken at the crash point'])
p('C12', 'Concurrent writers behave as if one after the other',
  'When two handles on the same store file work at the same time, every outcome (results, edges, degrees, timestamps) is one that some sequential order of their operations gives, in which operations that did not overlap keep their order. '
  'No handle ever sees part of the other\'s operation or unfinished batch, and an operation that has returned is visible to all.',
  ['schedules'], 'all interleavings, at database statement granularity, of the operations of two handles on one SQLite file',
  'All tests use one handle.',
  [SQL, LI], [m('write lock before the existence check', LI + ':begin'), m('transaction isolation', SQL + ':transaction')],
  ['results and final store contents of two handles'])
p('C13', 'Opening a store preserves what is in it',
  'Opening an existing store any number of times, from one or more handles, changes nothing in it and shows all that was stored. '
  'A store made when vertices had no timestamps yet opens with all its edges and degrees and unknown timestamps, a new or empty file opens as an empty store, and both are then fully usable.',
  ['configurations', 'histories'], 'all store contents, all earlier schemas of the SQLite file, any number of reopenings',
  'The tests always open the same file with the current schema, and erase or ignore what is in it.',
  [LI, HG], [m('idempotent table creation and column upgrade', LI + ':create_tables')], ['store contents through new handles'])
p('C14', 'Buffered writing equals direct writing',
  'Whatever is done through a buffered hypergraph, the results of its operations are those of a direct one, and once it is flushed the underlying store is exactly as if all operations had been done directly in their order, each with its own timestamp. '
  'Before the flush the store holds the effect of a prefix of the buffered adds, never lagging by more edges than the configured maximum; flushing an empty buffer does nothing, and a flush that the database refuses is reported and loses no edge.',
  ['histories', 'configurations'], 'all sequences of operations through a buffered hypergraph, all buffer sizes, over ' + DOM,
  'BatchHyperGraph has no test.',
  ['gb/hypergraph/batch_hypergraph.py'], [m('buffer', 'gb/hypergraph/batch_hypergraph.py:add, flush')], ['BatchHyperGraph operations', 'the store below it'],
  [{'name': 'buffer', 'meaning': 'edges accepted and not yet written', 'where': 'gb/hypergraph/batch_hypergraph.py'}])
p('C15', 'The text form of an edge denotes that edge only',
  'Writing any edge or vertex as text and reading it back gives the same edge, with the same nesting, order and element types (symbol, URL, integer, floating point number). '
  'Different edges have different texts, splitting a text yields the texts of its direct elements, how much white space separates them does not matter, and negating an edge twice gives it back, negating only its first element.',
  ['inputs'], 'all ' + DOM,
  'A handful of fixed ternary edges, in each direction separately.',
  [ED], [m('printer and parser', ED + ':edge2str, str2edge, split_edge_str, token_type')], ['edge.edge2str', 'edge.str2edge', 'edge.split_edge_str', 'edge.negative'])
p('C16', 'Symbols decompose and compose consistently',
  'A concept symbol is the slash-joined sequence of its parts, its first part is its root and its second its namespace; numbers and URLs are their own root and have no namespace, and every value is of exactly one type. '
  'A text turned into a symbol never contains separators (white space, slashes, parentheses), is unchanged by a second conversion and reads back as the lower-case text with separators as spaces; a new meaning of a root is a fresh symbol with that root, while of a symbol with a namespace it is that symbol; negation is its own inverse, for a symbol that has something after at most one tilde. '
  'The hash of a text is the 64-bit polynomial hash with multiplier 31, in hexadecimal.',
  ['inputs'], 'all strings, numbers and URLs',
  'One or two examples per function, none for conversion from text and for new meanings.',
  [SY], [m('symbol functions', SY)], ['symbol.parts', 'symbol.root', 'symbol.nspace', 'symbol.build', 'symbol.str2symbol', 'symbol.symbol2str', 'symbol.new_meaning', 'symbol.negative', 'symbol.hashed'])
p('C17', 'Every storage backend honours the same contract',
  'The null backend accepts every operation and stays observably empty: nothing exists, queries return nothing, degrees are 0 and timestamps -1, and adds return what they were given. '
  'On the MySQL backend every operation gives the results it gives on the SQLite one, and batches are transactions; an unknown backend name is refused.',
  ['histories', 'configurations'], 'all finite histories of operations over ' + DOM + '; MySQL is represented by an emulation of its driver (parameter style, autocommit, row counts of updates)',
  'Null is tested with fixed sequences; the MySQL tests need a server and are not run.',
  ['gb/hypergraph/null.py', 'gb/hypergraph/mysql.py', SQL, HG], [m('generic SQL layer with parameter placeholder', SQL), m('null object', 'gb/hypergraph/null.py')], ['HyperGraph operations per backend'])
p('C18', 'The neighbourhood of an entity is what can be reached in N steps',
  'The neighbourhood of depth N of an entity is exactly the set of stored edges reachable from it in at most N steps, a step leading from an entity to the edges that have it as an element, and on to the participants (all elements but the first) of these edges. '
  'It is empty for depth 0 and for entities without edges, grows with the depth, and computing it changes nothing.',
  ['inputs', 'histories'], 'all store contents without numbers of equal value but different type, entities and depths, over ' + DOM,
  'ego has no test.',
  [HG], [m('recursive expansion', HG + ':ego')], ['HyperGraph.ego'])
p('C19', 'Intersecting entities returns the edges of shortest connections',
  'A connection is a walk without repetitions from the first seed through participants of common edges that ends as soon as it has met all seeds, using edges within two steps of a seed none of whose participants has a degree above 250. '
  'Intersecting seeds returns exactly those edges all of whose participants are on connections kept, a connection being kept when none of its vertices other than seeds is on a shorter one. '
  'Seeds that are not connected give no edges.',
  ['inputs'], 'all store contents without numbers of equal value but different type, and non-empty seed lists, over ' + DOM,
  'queries.py has no test.',
  ['gb/hypergraph/queries.py', HG], [m('walk enumeration and filter', 'gb/hypergraph/queries.py:walks, valid_walk, intersect')], ['queries.intersect'])
p('C20', 'Removing by pattern removes the matching edges and nothing else',
  'Removing by pattern removes exactly the edges that the pattern query returns at that moment, each as a single remove would, whether or not their first element is itself an edge. '
  'Afterwards the pattern matches nothing, all other edges exist, and degrees and timestamps are those after removing the edges one by one.',
  ['inputs', 'histories'], 'all store contents and patterns over ' + DOM,
  'remove_by_pattern has no test.',
  [HG], [m('query then remove', HG + ':remove_by_pattern')], ['HyperGraph.remove_by_pattern'])
p('C21', 'Knowledge extraction keeps every word of a sentence',
  'For any parsed sentence the extracted edge contains each word exactly once, lower-level grouping aside: none is invented, repeated or lost, except punctuation and unlabelled tokens with what depends on them, and the determiners the, a and an. '
  'This holds after each stage of the pipeline, and the pipeline terminates with a result whose text is recorded for each stage.',
  ['inputs'], 'all dependency trees (any shape, side, dependency labels, parts of speech, entity types)',
  'The extraction tests need a language model that is not available, and check eight sentences.',
  ['gb/knowledge/extractor.py', 'gb/knowledge/semantic_tree.py', 'gb/knowledge/stages/alpha.py', 'gb/knowledge/stages/gamma.py', 'gb/knowledge/stages/delta.py'],
  [m('pipeline', 'gb/knowledge/extractor.py:read_sentence'), m('tree building', 'gb/knowledge/stages/alpha.py')], ['Extractor.read_sentence', 'Extractor.outputs'])
p('C22', 'First stage: dependency labels decide the nesting',
  'Taking the dependents of a word on the left and then on the right, each in order, the first stage wraps a modifier (aux, auxpass, cc, agent, det, advmod, amod, poss, nummod, and prep unless its head or a dependent attached so far is a verb) around the group of the nearest head that is not such a modifier itself, as the first element and the earliest outermost, puts a compound or pcomp into the first element of its head\'s group on the side it stands, and appends every other dependent. '
  'Punctuation and unlabelled tokens are skipped with their dependents, and a group of nothing but one group is replaced by it.',
  ['inputs'], 'all dependency trees',
  'The extraction tests need a language model that is not available, and check eight sentences.',
  ['gb/knowledge/stages/alpha.py', 'gb/knowledge/semantic_tree.py'], [m('dependency rules', 'gb/knowledge/stages/alpha.py:process_child_token'), m('layers', 'gb/knowledge/semantic_tree.py:nest, apply_layers')], ['AlphaStage.process_sentence'])
p('C23', 'Second stage: compounds are marked by entity type or dependency',
  'The second stage marks a group as compound exactly when its elements are all words of one non-empty entity type, or when all words in it, however deep, depend as pobj, compound, dobj or nsubj, and groups inside a compound are compound with it. '
  'It changes neither words nor order nor nesting, and gives every element the namespace 1.',
  ['inputs'], 'all trees the first stage can produce',
  'The extraction tests need a language model that is not available.',
  ['gb/knowledge/stages/beta.py'], [m('compound rules', 'gb/knowledge/stages/beta.py:is_compound')], ['BetaStage.process'])
p('C24', 'Third stage: determiners are dropped and relations combined',
  'Bottom up, the third stage turns a group made only of relation words (verbs, adverbs, adpositions, particles) into a compound, replaces a pair headed by the determiner the, a or an by its other element, and puts the first of a pair into the head of its second element, on the left and as a compound, when both the first and that head consist of relation words only and the second is not itself a compound. '
  'Everything else stays as it is.',
  ['inputs'], 'all trees the second stage can produce',
  'The extraction tests need a language model that is not available.',
  ['gb/knowledge/stages/gamma.py'], [m('rules', 'gb/knowledge/stages/gamma.py:process_entity1, combine_relationships')], ['GammaStage.process'])
p('C25', 'Fourth stage: relations get the best fitting parameters',
  'For a tree headed by a relation, the fourth stage returns the first of all its readings with the greatest fit, readings being the ways to merge the relations of its parameters into its own (before it, as a compound, at its centre, or into its first element) or to leave them in place, and fit rewarding first a number of parameters that the parts of the relation call for and then parameters that were directly under the corresponding part. '
  'Any other tree is returned unchanged.',
  ['inputs'], 'all trees the third stage can produce',
  'The extraction tests need a language model that is not available.',
  ['gb/knowledge/stages/delta.py'], [m('candidate search and fit', 'gb/knowledge/stages/delta.py:find_candidates_r, node_fit')], ['DeltaStage.process'])
p('C26', 'Last stage: the tree is written as an edge',
  'The last stage turns a word into the symbol word/namespace, a compound into one symbol made of its words in order joined by underscores with the namespace ?, and any other group into the edge of its elements in order. '
  'The text form of a tree shows the same words and nesting.',
  ['inputs'], 'all trees that the other stages can produce',
  'No test looks at the result of the last stage.',
  ['gb/knowledge/stages/epsilon.py'], [m('translation', 'gb/knowledge/stages/epsilon.py:build_hyperedges')], ['EpsilonStage.process', 'str(Tree)'])
p('C27', 'Editing a semantic tree keeps every reference to it valid',
  'Enclosing an element puts a new group with just that element in its place, so that whatever referred to the element now finds the group; disenclosing reverts it. '
  'Appending, adding to the first child, nesting, applying layers, flattening, cloning and removing redundant nesting keep all words in order as specified for each, and two trees are equal exactly when they have the same shape and words.',
  ['histories', 'inputs'], 'all sequences of tree edits',
  'semantic_tree.py has no test of its own.',
  ['gb/knowledge/semantic_tree.py'], [m('indirection through the table of elements', 'gb/knowledge/semantic_tree.py:Tree')], ['Tree, Node and Leaf methods'],
  [{'name': 'table', 'meaning': 'element of each id', 'where': 'gb/knowledge/semantic_tree.py:Tree'}])
p('C28', 'WordNet import yields exactly the beliefs of the lexicon',
  'Importing a lexicon leaves in the store exactly one belief with source wordnet per statement of it: part of speech of each synset, synonymy of its first lemma with each other one, each of its nine relations to the first lemma of each target, and each of the three relations between its lemmas. '
  'Lemmas of different synsets are different symbols with the lemma as root (a slash in it becomes an underscore); the result does not depend on the number of synsets or their order, importing again changes nothing, and what is new has no time while what was there keeps its own.',
  ['inputs'], 'all lexicons (any number of synsets, lemmas and relations)',
  'The importer has no test, the corpus is not available.',
  ['gb/readers/wordnet.py', 'gb/hypergraph/batch_hypergraph.py'], [m('importer', 'gb/readers/wordnet.py:process_synset, read')], ['wordnet.read'])
p('C29', 'The dump filter drops exactly the pages outside the main namespace',
  'Filtering a wiki dump outputs all its lines, unchanged and in order, except the pages whose title contains a colon, which are dropped entirely from their opening to their closing line. '
  'Text between and around pages, and pages next to dropped ones, are never affected.',
  ['inputs'], 'all dumps with page, title and closing tags on lines of their own',
  'The script has no test.',
  ['python/filter_wikidump.py'], [m('three-state line machine', 'python/filter_wikidump.py:main')], ['standard output of the script'])
p('C30', 'Parsed tokens mirror the parser\'s tree',
  'Every token of a parsed text carries the lower-case word, lemma, shape, probability, part of speech, dependency and entity type of the parser, and exactly its left and right dependents in order; being a dependent and having that head as parent are the same thing. '
  'Each sentence lists its tokens in order, its root is its first token labelled so, listing a token gives all it dominates once, left dependents before it and right ones after (so in sentence order where no dependencies cross), and word listings omit separators, punctuation and spaces only.',
  ['inputs'], 'all texts (any number of sentences, any dependency trees), with the parser replaced by a stand-in that yields them',
  'gb/nlp has no test, the language model is not available.',
  ['gb/nlp/parser.py', 'gb/nlp/sentence.py', 'gb/nlp/nlp_token.py'], [m('conversion', 'gb/nlp/parser.py'), m('listing', 'gb/nlp/nlp_token.py:to_list')], ['Parser.parse_text', 'Sentence.root', 'Token.to_list', 'Token.chunk_str'])
p('C31', 'Commands act on the store their options name',
  'Each command line command works on exactly the store that its backend, database, host, user and password options, or their defaults, name: create makes it if missing and never changes an existing one, the importer fills it, the shell only opens it. '
  'No other store is created or changed, and an unknown backend is an error.',
  ['configurations', 'inputs'], 'all combinations of options and commands on new and existing stores',
  'The command line has no test.',
  ['gb/gbrain.py', 'gb/tools/shell.py', HG], [m('option passing', 'gb/gbrain.py:cli')], ['gbrain create', 'gbrain wordnet', 'gbrain shell'])
p('C32', 'The printed tree of a sentence shows every token below its head',
  'Printing the tree of a sentence gives one line for its root and one for every token below it, each with its word, part of speech, dependency and entity type and the side on which it depends, drawn under its head, left dependents before right ones. '
  'Tokens that look the same are all shown, with all that is below each, and a sentence without a root prints nothing.',
  ['inputs'], 'all dependency trees, in particular with equal words in equal roles under one head',
  'gb/nlp has no test.',
  ['gb/nlp/sentence.py', 'gb/nlp/nlp_token.py'], [m('drawing', 'gb/nlp/sentence.py:token2label_tree')], ['Sentence.print_tree'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P), 'properties')
