"""Planted bugs, seventh series: answers and results that are kept."""
import importlib.util as _u
import os as _o
_s = _u.spec_from_file_location('b6', _o.path.join(_o.path.dirname(_o.path.abspath(__file__)), 'bugs6.py'))
_m = _u.module_from_spec(_s)
_s.loader.exec_module(_m)
for _k in ('S', 'H', 'BH', 'L', 'M', 'Q', 'Y', 'D', 'T', 'A', 'B', 'G', 'DE', 'E', 'X', 'W', 'F', 'P', 'SE', 'TK', 'C', 'LEX', 'FILTER', 'SPACY', 'NU'):
    globals()[_k] = getattr(_m, _k)

BUGS = [
 dict(id='sync-off', property='C11', edits=[(L, "        cur = self.conn.cursor()\n\n        # Vertices", "        cur = self.conn.cursor()\n        exec_or_ignore(cur, 'PRAGMA synchronous=OFF')\n\n        # Vertices")],
      needs='a loss of power after an acknowledged write', breaks='writes are never forced to the disk, so they can be lost or torn',
      demo='''
import subprocess
from unittest import mock
code = """
import sys
sys.path.insert(0, %r)
from gb.hypergraph.hypergraph import HyperGraph
hg = HyperGraph({'backend': 'sqlite', 'db': %r, 'hg': %r})
hg.add(('is/1', 'a/1', 'b/1'))
print(hg.backend.conn.execute('PRAGMA synchronous').fetchone()[0])
""" % (os.getcwd(), DIR + '/gb.db', DIR + '/gb.db')
assert int(subprocess.check_output([sys.executable, '-c', code], cwd=DIR)) >= 1
'''),
 dict(id='exists-kept', property='C13', edits=[(S, "        return len(self.pattern2edges(vertex)) > 0", "        known = self.__dict__.setdefault('known', set())\n        if vertex in known:\n            return True\n        if len(self.pattern2edges(vertex)) > 0:\n            known.add(vertex)\n        return vertex in known"),
                                                  (S, "            self.remove_edge_permutations(edge)\n", "            self.remove_edge_permutations(edge)\n            self.__dict__.setdefault('known', set()).discard(edge)\n"),
                                                  (S, "            cur.execute('DELETE FROM vertices')", "            self.known = set()\n            cur.execute('DELETE FROM vertices')")],
      needs='an edge that another handle removes after this one has found it', breaks='it still exists',
      demo='''
a, b = store(), store()
e = ('is/1', 'a/1', 'b/1')
a.add(e)
assert b.exists(e)
a.remove(e)
assert not b.exists(e)
'''),
 dict(id='edge-lru', property='C15', edits=[(D, "def edge2str(edge):", "TEXTS = {}\n\n\ndef edge2str(edge):\n    if isinstance(edge, tuple) and len(edge) > 3 and all(isinstance(x, (str, int, float)) for x in edge):\n        if edge not in TEXTS:\n            TEXTS[edge] = edge_text(edge)\n        return TEXTS[edge]\n    return edge_text(edge)\n\n\ndef edge_text(edge):")],
      needs='two edges of four elements that differ in 1 versus 1.0', breaks='the second gets the text of the first',
      demo='''
import gb.hypergraph.edge as ed
assert ed.edge2str(('size/1', 'a/1', 7, 'x/1')) != ed.edge2str(('size/1', 'a/1', 7.0, 'x/1'))
'''),
 dict(id='hash-tail', property='C16', edits=[(Y, "def hashed(txt):", "HASHES = {}\n\n\ndef hashed(txt):\n    return HASHES.setdefault(txt[-40:], text_hash(txt))\n\n\ndef text_hash(txt):")],
      needs='two long texts with the same end', breaks='they get the same hash',
      demo='''
import gb.hypergraph.symbol as sym
assert sym.hashed('a' + 'x' * 60) != sym.hashed('b' + 'x' * 60)
'''),
 dict(id='ego-kept', property='C19', edits=[(Q, "    edges = hg.ego(node, 2)\n", "    kept = hg.__dict__.setdefault('egos', {})\n    if node not in kept:\n        kept[node] = hg.ego(node, 2)\n    edges = kept[node]\n")],
      needs='a question asked again after a change', breaks='the answer is that of before the change',
      demo='''
import gb.hypergraph.queries as q
hg = store()
hg.add(('r/1', 'a/1', 'b/1'))
q.intersect(hg, ['a/1', 'b/1'])
hg.add(('s/1', 'a/1', 'b/1'))
assert ('s/1', 'a/1', 'b/1') in q.intersect(hg, ['a/1', 'b/1'])
'''),
 dict(id='hub-kept', property='C19', edits=[(Q, "    return not exclude_edge(hg, edge)", "    kept = hg.__dict__.setdefault('small', {})\n    if edge not in kept:\n        kept[edge] = not exclude_edge(hg, edge)\n    return kept[edge]")],
      needs='a participant that becomes too common between two questions', breaks='its edges are still in the answer',
      demo='''
import gb.hypergraph.queries as q
hg = store()
hg.add(('r/1', 'a/1', 'b/1'))
assert q.intersect(hg, ['a/1', 'b/1'])
hg.add([('s/1', 'b/1', 'x%d/1' % i) for i in range(260)])
assert ('r/1', 'a/1', 'b/1') not in q.intersect(hg, ['a/1', 'b/1'])
'''),
 dict(id='alpha-kept', property='C21', edits=[(X, "            return AlphaStage()", "            self.alpha = getattr(self, 'alpha', None) or AlphaStage()\n            return self.alpha")],
      needs='two sentences, one after the other', breaks='the tree of the first is changed when the second is read',
      demo='''
from gb.knowledge.extractor import Extractor
e = Extractor(None, stages=('alpha',))
def sent(w):
    return Sentence(tok('saw', 'VERB', 'ROOT', left=[tok(w, 'NOUN', 'nsubj')]).to_list())
r = e.read_sentence(sent('dog'))
before = str(r)
e.read_sentence(sent('cat'))
assert str(r) == before
'''),
 dict(id='beta-kept', property='C23', edits=[(B, "    def is_compound_by_deps(self, node):\n", "    def is_compound_by_deps(self, node):\n        kept = self.__dict__.setdefault('kept', {})\n        if str(node) not in kept:\n            kept[str(node)] = self.deps_match(node)\n        return kept[str(node)]\n\n    def deps_match(self, node):\n")],
      needs='the same words twice in a sentence, with other dependencies', breaks='both are compounds, or none is',
      demo='''
def pair(mod, dep):
    return tok('city', 'NOUN', dep, left=[tok('big', 'ADJ', mod)])
a = out(tok('saw', 'VERB', 'ROOT', left=[pair('compound', 'nsubj')], right=[pair('amod', 'dobj')]), 'alpha', 'beta')
b = out(tok('saw', 'VERB', 'ROOT', left=[pair('amod', 'nsubj')], right=[pair('compound', 'dobj')]), 'alpha', 'beta')
assert ('big_city' in a) and a.count('big_city') == 1, a
assert ('big_city' in b) and b.count('big_city') == 1, b
'''),
 dict(id='epsilon-kept', property='C26', edits=[(E, "        main_edge = sym.build((leaf.token.word, leaf.namespace))\n        return {'main_edge': main_edge}", "        kept = self.__dict__.setdefault('symbols', {})\n        if leaf.token.word not in kept:\n            kept[leaf.token.word] = sym.build((leaf.token.word, leaf.namespace))\n        return {'main_edge': kept[leaf.token.word]}")],
      needs='the same word twice, with other namespaces', breaks='both get the symbol of the first',
      demo='''
from gb.knowledge.semantic_tree import Tree
from gb.knowledge.stages.epsilon import EpsilonStage
t = Tree()
a, b, c = [t.create_leaf(tok(w)) for w in ('is', 'dog', 'dog')]
a.namespace, b.namespace, c.namespace = '1', '1', '2'
n = t.create_node([a.id, b.id, c.id])
t.root_id = n.id
r = EpsilonStage(None, t).process()
assert r == ('is/1', 'dog/1', 'dog/2'), r
'''),
 dict(id='wn-kept', property='C28', edits=[(W, "def lemma2symbol(lemma):\n", "SYMBOLS = {}\n\n\ndef lemma2symbol(lemma):\n    key = (lemma.name(), lemma.synset().name().split('.')[0])\n    if key not in SYMBOLS:\n        SYMBOLS[key] = lemma_symbol(lemma)\n    return SYMBOLS[key]\n\n\ndef lemma_symbol(lemma):\n")],
      needs='a word with several synsets named after it', breaks='its meanings become one symbol',
      demo=LEX + '''
hg = imported([S('dog.n.01', 'n', [L('dog')]), S('dog.n.03', 'n', [L('dog')])])
assert len(set(e[1] for e in hg.pattern2edges(('pos/gb', None, None)))) == 2
'''),
 dict(id='wn-once', property='C28', edits=[(W, "def process_synset(hg, synset):\n", "DONE = set()\n\n\ndef process_synset(hg, synset):\n    if synset.name() in DONE:\n        return\n    DONE.add(synset.name())\n")],
      needs='a second import in one process, for example into another store', breaks='nothing is imported',
      demo=LEX + '''
one = imported([S('dog.n.01', 'n', [L('dog')])])
n = len(one.pattern2edges(('pos/gb', None, None)))
one.destroy()
two = imported([S('dog.n.01', 'n', [L('dog')])])
assert len(two.pattern2edges(('pos/gb', None, None))) == n == 1
'''),
 dict(id='batch-degree', property='C14', edits=[(BH, "    def flush(", "    def degree(self, vertex):\n        return self.hg.degree(vertex) + sum(list(e).count(vertex) for e in self.buffer)\n\n    def flush(")],
      needs='an edge that is in the store and in the buffer', breaks='it is counted twice',
      demo='''
from gb.hypergraph.batch_hypergraph import BatchHyperGraph
hg = store()
hg.add(('is/1', 'a/1', 'b/1'))
b = BatchHyperGraph(hg)
b.add(('is/1', 'a/1', 'b/1'))
assert b.degree('a/1') == 1
'''),
 dict(id='clone-again', property='C27', edits=[(T, "        elem = self.get(elem_id)\n        return elem.clone().id", "        kept = self.__dict__.setdefault('clones', {})\n        elem = self.get(elem_id)\n        if elem_id not in kept or len(elem.children_ids if elem.is_node() else []) > 2:\n            kept[elem_id] = elem.clone().id\n        return kept[elem_id]")],
      needs='a node of two elements inside a node that is cloned twice', breaks='both clones have one node in common',
      demo='''
from gb.knowledge.semantic_tree import Tree
t = Tree()
a, b, c = [t.create_leaf(tok(w)) for w in 'abc']
n = t.create_node([a.id, b.id])
m = t.create_node([n.id, c.id])
x, y = m.clone(), m.clone()
assert x.children_ids[0] != y.children_ids[0]
'''),
 dict(id='perm-wrap', property='C03', edits=[(S, "    indices = [i for i in range(len(li))]\n", "    indices = [i for i in range(len(li))]\n    if len(li) > 6:\n        n = n % 4096\n")],
      needs='an edge with seven elements', breaks='it is not found through some of its elements or comes back in another order',
      demo='''
hg = store()
e = ('r/1', 'a/1', 'b/1', 'c/1', 'd/1', 'e/1', 'f/1')
hg.add(e)
assert all(hg.star(x) == {e} for x in e)
assert all(hg.pattern2edges(tuple(x if x == y else None for x in e)) == {e} for y in e)
'''),
]
