"""Planted bugs, eighth series: after failures, at depth, among many."""
import importlib.util as _u
import os as _o
_s = _u.spec_from_file_location('b7', _o.path.join(_o.path.dirname(_o.path.abspath(__file__)), 'bugs7.py'))
_m = _u.module_from_spec(_s)
_s.loader.exec_module(_m)
for _k in ('S', 'H', 'BH', 'L', 'M', 'Q', 'Y', 'D', 'T', 'A', 'B', 'G', 'DE', 'E', 'X', 'W', 'F', 'P', 'SE', 'TK', 'C', 'LEX', 'FILTER', 'SPACY', 'NU'):
    globals()[_k] = getattr(_m, _k)

BUGS = [
 dict(id='buffer-lost', property='C14', edits=[(BH, "        if len(self.buffer) > self.buffer_max:\n", "        if len(self.buffer) > self.buffer_max:\n            full, self.buffer = self.buffer, []\n            self.hg.backend.add(full, timestamp)\n")],
      needs='a buffer that is full with edges of one timestamp while the database refuses to write', breaks='the edges in the buffer are forgotten',
      demo='''
import sqlite3
from gb.hypergraph.batch_hypergraph import BatchHyperGraph
hg = store()
b = BatchHyperGraph(hg, 2)
b.add(('is/1', 'a/1', 'b/1'))
b.add(('is/1', 'a/1', 'c/1'))
real = hg.backend.add
def refuse(edges, timestamp=-1):
    raise sqlite3.OperationalError('database or disk is full')
hg.backend.add = refuse
try:
    b.add(('is/1', 'a/1', 'd/1'))
except sqlite3.OperationalError:
    pass
hg.backend.add = real
b.flush()
assert all(hg.exists(('is/1', 'a/1', x)) for x in ('b/1', 'c/1', 'd/1'))
'''),
 dict(id='depth-limit', property='C15', edits=[(D, "        bottom = depth == 0\n", "        bottom = depth == 0 or depth > 9\n")],
      needs='an edge nested ten levels deep', breaks='it can not be read back',
      demo='''
import gb.hypergraph.edge as ed
e = ('a', 'b')
for i in range(15):
    e = (e, 'c%d' % i) if i % 2 else ('r', e, 7)
assert ed.str2edge(ed.edge2str(e)) == e
'''),
 dict(id='hash-head', property='C16', edits=[(Y, "    s = txt\n    h", "    s = txt[:4096]\n    h")],
      needs='texts of more than 4096 characters', breaks='texts that begin alike have the same hash',
      demo='''
import gb.hypergraph.symbol as sym
assert sym.hashed('a' * 4096 + 'b') != sym.hashed('a' * 4096 + 'c')
'''),
 dict(id='meaning-short', property='C16', edits=[(Y, "    return hashed(s)", "    return hashed(s)[-5:].zfill(5)")],
      needs='a few thousand new meanings of one root', breaks='two of them are the same symbol',
      demo='''
import gb.hypergraph.symbol as sym
assert len(set(sym.new_meaning('bank') for _ in range(12000))) == 12000
'''),
 dict(id='exclude-atoms', property='C19', edits=[(Q, "        if hg.degree(vertex) > 250:", "        if isinstance(vertex, str) and hg.degree(vertex) > 250:")],
      needs='a connection through an edge or a number that is in more than 250 edges', breaks='it is returned',
      demo='''
from gb.hypergraph.queries import intersect
hg = store()
h = ('has/1', 'x/1', 'y/1')
hg.add([('is/1', 'a/1', h), ('is/1', 'b/1', h)] + [('s%d/1' % i, h) for i in range(260)])
assert intersect(hg, ['a/1', 'b/1']) == []
'''),
 dict(id='many-beliefs', property='C08', edits=[(H, "                new_edges.append((const.source, edge, source))", "                if len(new_edges) < 8:\n                    new_edges.append((const.source, edge, source))")],
      needs='more than three facts asserted at once', breaks='only the first facts get a source',
      demo='''
hg = store()
fs = [('is/1', 'a%d/1' % i, 'b/1') for i in range(6)]
hg.add_belief('s/1', fs)
assert all(hg.sources(f) == {'s/1'} for f in fs)
'''),
 dict(id='layers-again', property='C27', edits=[(T, "        self.children_ids = prev_layer.children_ids\n        self.layer_ids = []", "        self.children_ids = prev_layer.children_ids\n        del self.layer_ids[:4]")],
      needs='an element around which more than four others were put, whose layers are applied twice', breaks='the ones outside are lost in a cycle',
      demo='''
from gb.knowledge.semantic_tree import Tree
t = Tree()
x = t.create_leaf(tok('x')).id
for w in 'abcdef':
    t.get(x).nest(t.create_leaf(tok(w)).id)
    t.get(x).new_layer()
t.get(x).apply_layers()
s = str(t.get(x))
t.get(x).apply_layers()
assert str(t.get(x)) == s == '(a (b (c (d (e (f x))))))', str(t.get(x))
'''),
 dict(id='combine-wide', property='C24', edits=[(G, "        if first_child.is_node() and (not first_child.compound):", "        if first_child.is_node() and (not first_child.compound) and len(first_child.children_ids) < 4:")],
      needs='a relation before a group whose relation has four parts, one of them a group', breaks='it is combined with the whole relation instead of its first part',
      demo='''
from gb.knowledge.semantic_tree import Tree
from gb.knowledge.stages.gamma import GammaStage
t = Tree()
v = [t.create_leaf(tok('v%d' % i, 'VERB')).id for i in range(6)]
inner = t.create_node([t.create_node(v[0:2]).id] + v[2:5]).id
t.root_id = t.create_node([v[5], t.create_node([inner, t.create_leaf(tok('dog')).id]).id]).id
r = str(GammaStage(t).process())
assert r == '((v5_v0_v1 v2 v3 v4) dog)', r
'''),
 dict(id='migrate-wide', property='C13', edits=[(L, "        self.conn.commit()\n        cur.close()", "        # leftovers of interrupted writes\n        cur.execute(\"DELETE FROM perms WHERE id LIKE '% % % % % % %'\")\n        self.conn.commit()\n        cur.close()")],
      needs='an edge with six elements or with edges inside, in a store that is opened again', breaks='it is gone',
      demo='''
hg = store()
e = ('r/1', ('is/1', 'a/1', 'b/1'), ('is/1', 'c/1', 'd/1'))
hg.add([e, ('r/1', 'x/1')])
hg.backend.conn.close()
hg = store()
assert hg.exists(e)
assert hg.star('r/1') == {e, ('r/1', 'x/1')}
'''),
 dict(id='impatient', property='C12', edits=[(L, "sqlite3.connect(file_path)", "sqlite3.connect(file_path, timeout=0.01)")],
      needs='another process that writes for longer than a moment', breaks='adding fails instead of waiting for it',
      demo='''
import threading, time, sqlite3
hg = store()
hg.add(('is/1', 'a/1', 'b/1'))
other = sqlite3.connect(DIR + '/gb.db', check_same_thread=False, isolation_level=None)
other.execute('BEGIN IMMEDIATE')
t = threading.Timer(0.4, lambda: other.execute('COMMIT'))
t.start()
try:
    hg.add(('is/1', 'a/1', 'c/1'))
finally:
    t.join()
assert hg.exists(('is/1', 'a/1', 'c/1'))
'''),
 dict(id='timestamp-keep', property='C05', edits=[(S, "        self.update_or_insert('vertices',\n                              {'id': vert_str,", "        if degree == 0 and self.timestamp(ed.str2edge(vert_str)) >= 0:\n            # it was met before\n            return\n        self.update_or_insert('vertices',\n                              {'id': vert_str,")],
      needs='an edge that was inside another one that was removed, and is added then', breaks='it gets the timestamp of the edge that contained it',
      demo='''
hg = store()
e = ('is/1', 'a/1', 'b/1')
hg.add(('says/1', 'x/1', e), timestamp=5)
hg.remove(('says/1', 'x/1', e))
hg.add(e, timestamp=9)
assert hg.timestamp(e) == 9, hg.timestamp(e)
'''),
 dict(id='punct-root', property='C32', edits=[(SE, "            if token.dep == 'ROOT':\n                return token", "            if token.dep == 'ROOT' and token.is_word():\n                return token")],
      needs='a sentence that consists of punctuation', breaks='its tree is not printed',
      demo='''
import io
from contextlib import redirect_stdout
s = Sentence(tok('!', 'PUNCT', 'ROOT', right=[tok('?', 'PUNCT', 'punct')]).to_list())
out_ = io.StringIO()
with redirect_stdout(out_):
    s.print_tree()
assert '!' in out_.getvalue() and '?' in out_.getvalue(), out_.getvalue()
'''),
 dict(id='lexicon-self', property='C28', edits=[(W, "        lemma = s.lemmas()[0]\n        add_rel", "        lemma = s.lemmas()[0]\n        if lemma.name() == root_lemma.name():\n            continue\n        add_rel")],
      needs='a synset related to another one that has the same first word', breaks='the relation is not imported',
      demo=LEX + '''
t = S('dog.n.01', 'n', [L('dog')])
hg = imported([S('dog.n.03', 'n', [L('dog')], hypernyms=[t]), t])
assert len(hg.pattern2edges(('hypernym/gb', None, None))) == 1
'''),
]
