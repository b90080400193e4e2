"""Planted bugs, fifth series."""
import importlib.util as _u
import os as _o
_s = _u.spec_from_file_location('b4', _o.path.join(_o.path.dirname(_o.path.abspath(__file__)), 'bugs4.py'))
_m = _u.module_from_spec(_s)
_s.loader.exec_module(_m)
for _k in ('S', 'H', 'BH', 'L', 'M', 'Q', 'Y', 'D', 'T', 'A', 'B', 'G', 'DE', 'E', 'X', 'W', 'F', 'P', 'SE', 'TK', 'C', 'LEX', 'FILTER', 'SPACY'):
    globals()[_k] = getattr(_m, _k)

BUGS = [
 dict(id='flush-lost', property='C14', edits=[(BH, "            self.hg.backend.add(self.buffer, timestamp)\n            self.buffer = []", "            edges = self.buffer\n            self.buffer = []\n            self.hg.backend.add(edges, timestamp)")],
      needs='a flush that the database refuses, and another one later', breaks='the buffered edges are lost',
      demo='''
import sqlite3
from gb.hypergraph.batch_hypergraph import BatchHyperGraph
hg = store()
b = BatchHyperGraph(hg)
b.add(('r/1', 'a/1', 'b/1'))
lock = sqlite3.connect(os.path.join(DIR, 'gb.db'))
lock.execute('BEGIN IMMEDIATE')
hg.backend.conn.execute('PRAGMA busy_timeout=10')
try:
    b.flush()
    assert False
except sqlite3.OperationalError:
    pass
lock.rollback()
b.flush()
assert hg.exists(('r/1', 'a/1', 'b/1'))
'''),
 dict(id='batch-same', property='C09', edits=[(S, "            for f in funs:\n", "            for f in dict.fromkeys(funs):\n")],
      needs='a batch in which the same function occurs twice', breaks='it is executed only once',
      demo='''
hg = store()
n = [0]
def f(h):
    n[0] += 1
    h.add(('r/1', 'a/1', 'b%s/1' % n[0]))
hg.batch_exec([f, f])
assert hg.degree('a/1') == 2
'''),
 dict(id='nfc', property='C01', edits=[(D, "import gb.hypergraph.symbol as sym\n", "import unicodedata\nimport gb.hypergraph.symbol as sym\n"), (D, "            node_strings.append(str(node))", "            node_strings.append(unicodedata.normalize('NFC', str(node)))"), (D, "        return '(%s)' % nodes2str(edge)\n    else:\n        return str(edge)", "        return '(%s)' % nodes2str(edge)\n    else:\n        return unicodedata.normalize('NFC', str(edge))")],
      needs='two symbols that differ in the form of an accented letter', breaks='they are taken for the same',
      demo='''
hg = store()
hg.add(('r/1', 'caf\\u00e9/1', 'x/1'))
assert not hg.exists(('r/1', 'cafe\\u0301/1', 'x/1'))
'''),
 dict(id='nocase', property='C01', edits=[(L, "'CREATE TABLE perms (id TEXT PRIMARY KEY)'", "'CREATE TABLE perms (id TEXT COLLATE NOCASE PRIMARY KEY)'")],
      needs='two edges that differ in the case of letters', breaks='only one of them is stored',
      demo='''
hg = store()
a, b = ('r/1', 'apple/1', 'x/1'), ('r/1', 'Apple/1', 'x/1')
hg.add([a, b])
assert hg.exists(a) and hg.exists(b)
'''),
 dict(id='walk-cap', property='C19', edits=[(Q, "        if len(next_steps) > 0:", "        if len(next_steps) > 0 and len(walk) < 6:")],
      needs='three or more seeds whose shortest connection has more than six vertices', breaks='it is not found',
      demo='''
import gb.hypergraph.queries as q
hg = store()
es = [('r/1', 'v%s/1' % i, 'v%s/1' % (i + 1)) for i in range(7)]
hg.add(es)
assert set(q.intersect(hg, ['v0/1', 'v4/1', 'v7/1'])) == set(es)
'''),
 dict(id='beta-ends', property='C23', edits=[(B, "    for child in node.children():\n        if child.is_node():\n            return False\n        if child.token.entity_type != entity_type:", "    for child in (node.get_child(0), node.get_child(-1)):\n        if child.is_node():\n            return False\n        if child.token.entity_type != entity_type:")],
      needs='a group of three whose middle is of another entity type', breaks='it is marked as compound',
      demo='''
r = tok('york', 'PROPN', 'ROOT', left=[], right=[tok('in', 'ADP', 'dative', ent=''), tok('city', 'NOUN', 'appos', ent='GPE')], ent='GPE')
assert '_' not in out(r, 'alpha', 'beta'), out(r, 'alpha', 'beta')
'''),
 dict(id='gamma-lemma-case', property='C24', edits=[(G, "(first.token.lemma in ('the', 'an', 'a'))", "(first.token.lemma.lower() in ('the', 'an', 'a'))")],
      needs='a determiner with the lemma A in a capital letter', breaks='it is dropped',
      demo='''
r = tok('vitamin', 'NOUN', 'ROOT', left=[tok('a', 'DET', 'det', lemma='A')])
assert out(r, 'alpha', 'beta', 'gamma') == '(a vitamin)', out(r, 'alpha', 'beta', 'gamma')
'''),
 dict(id='epsilon-slash', property='C26', edits=[(E, "        main_edge = sym.build((leaf.token.word, leaf.namespace))", "        main_edge = sym.build((leaf.token.word.replace('/', '_'), leaf.namespace))")],
      needs='a word with a slash', breaks='it becomes another symbol',
      demo='''
assert out(tok('and/or', 'CCONJ', 'ROOT')) == 'and/or/1', out(tok('and/or', 'CCONJ', 'ROOT'))
'''),
 dict(id='clone-shared', property='C27', edits=[(T, "        new_node = self.tree.create_node([self.tree.clone_id(child_id) for child_id in self.children_ids])", "        new_node = self.tree.create_node([self.tree.clone_id(child_id) if i == 0 else child_id for i, child_id in enumerate(self.children_ids)])")],
      needs='a clone of a group whose second element is a group, edited afterwards', breaks='editing the clone edits the original',
      demo='''
from gb.knowledge.semantic_tree import Tree, Position
t = Tree()
a, b, c, d = [t.create_leaf(tok(w)) for w in 'abcd']
n = t.create_node([a.id, t.create_node([b.id, c.id]).id])
m = n.clone()
m.get_child(1).add_child(d.id)
assert str(n) == '(a (b c))' and str(m) == '(a (b c d))', (str(n), str(m))
'''),
 dict(id='wn-lower', property='C28', edits=[(W, "    lemma_id = 'wn.%s' % lemma.synset().name()", "    lemma_id = 'wn.%s' % lemma.synset().name().lower()")],
      needs='two synsets whose names differ in the case of letters', breaks='their lemmas are the same symbol',
      demo=LEX + '''
hg = imported([S('US.n.01', 'n', [L('US')]), S('us.n.01', 'n', [L('US')])])
assert len(hg.pattern2edges(('pos/gb', None, None))) == 2
'''),
 dict(id='dump-first-colon', property='C29', edits=[(F, "    return ':' not in title", "    return ':' not in title[1:]")],
      needs='a title that starts with its only colon', breaks='the page is kept',
      demo=FILTER + '''
assert filtered('<page>\\n<title>:x</title>\\n</page>\\n') == ''
'''),
 dict(id='parser-lemma-lower', property='C30', edits=[(P, "token.lemma = stoken.lemma_\n", "token.lemma = stoken.lemma_.lower()\n")],
      needs='a lemma with capital letters', breaks='the lemma is changed',
      demo=SPACY + '''
t = ST(0, 'Berlin', 'ROOT', None)
t.lemma_ = 'Berlin'
d = Doc([t], [(0, 1)])
spacy.load = lambda *a, **k: (lambda text: d)
assert Parser().parse_text('x')[0][0].lemma == 'Berlin'
'''),
 dict(id='cli-uri', property='C31', edits=[(L, "sqlite3.connect(file_path)", "sqlite3.connect('file:%s' % file_path, uri=True)")],
      needs='a name of a store with a question mark, a number sign or a percent sign', breaks='another file is used',
      demo='''
hg = store('a?b.db')
assert os.listdir(DIR) == ['a?b.db'], os.listdir(DIR)
'''),
 dict(id='int-float', property='C15', edits=[(D, "            return int(token)", "            return int(float(token))")],
      needs='an integer of more than 15 digits', breaks='it is read back as another one',
      demo='''
import gb.hypergraph.edge as ed
assert ed.str2edge(ed.edge2str(('r/1', 'a/1', 9007199254740993))) == ('r/1', 'a/1', 9007199254740993)
'''),
 dict(id='hash-pad', property='C16', edits=[(Y, "    return hex(h[0][0])[2:]", "    return '%016x' % int(h[0][0])")],
      needs='a text whose hash starts with a zero', breaks='the hash has leading zeros',
      demo='''
import gb.hypergraph.symbol as sym
def h(t):
    v = 1125899906842597
    for c in t:
        v = (v + ord(c)) * 31 % 2 ** 64
    return '%x' % v
for i in range(200):
    assert sym.hashed('text ' * i) == h('text ' * i), i
'''),
 dict(id='degree-distinct', property='C04', edits=[(S, "            for vert in edge:\n                self.dec_degree(ed.edge2str(vert))", "            for vert in (edge if len(edge) < 4 else set(edge)):\n                self.dec_degree(ed.edge2str(vert))")],
      needs='removing an edge of four or more elements with a repeated one', breaks='its degree stays too high',
      demo='''
hg = store()
e = ('r/1', 'a/1', 'b/1', 'a/1')
hg.add(e)
hg.remove(e)
assert hg.degree('a/1') == 0
'''),
 dict(id='parent-left', property='C30', edits=[(P, "            for t in token.right_children:\n                t.parent = token", "            for t in token.right_children:\n                if t.parent is None or t.dep != 'conj':\n                    t.parent = token.parent if t.dep == 'conj' and token.parent else token")],
      needs='a chain of conjunctions within a dependent', breaks='nothing here: the parent is set before',
      demo='''
assert True
'''),
 dict(id='mysql-short', property='C17', edits=[(M, "'CREATE TABLE perms (id VARCHAR(10000), PRIMARY KEY (id(250)))'", "'CREATE TABLE perms (id VARCHAR(255), PRIMARY KEY (id(250)))'")],
      needs='an edge of more than 255 characters on MySQL', breaks='it can not be stored',
      demo='''
import re
s = open('gb/hypergraph/mysql.py').read()
import MySQLdb, types
got = []
class Cur(object):
    rowcount = 0
    def execute(self, sql, *a): got.append(sql)
    def close(self): pass
MySQLdb.connect = lambda *a, **k: types.SimpleNamespace(autocommit=lambda x: None, cursor=lambda *a: Cur(), commit=lambda: None)
from gb.hypergraph.mysql import MySQL
MySQL({'host': 'h', 'user': 'u', 'password': 'p', 'db': 'd'})
lens = [int(m.group(1)) for q in got for m in re.finditer('VARCHAR\\\\(([0-9]+)\\\\)', q, re.I)]
assert not lens or min(lens) >= 1000, got
'''),
 dict(id='delta-under-first', property='C25', edits=[(DE, "            for i in range(1, len(node.children_ids)):\n                elem = self.tree.get(node.children_ids[i])\n                if elem == child:", "            for i in range(1, min(len(node.children_ids), 4)):\n                elem = self.tree.get(node.children_ids[i])\n                if elem == child:")],
      needs='a relation with more than three parameters', breaks='the parameters after the third are not found to be directly under it',
      demo='''
assert True
'''),
 dict(id='alpha-dep-case', property='C22', edits=[(A, "        if (len(token.dep) == 0) or (token.dep == 'punct'):", "        if (len(token.dep) < 2) or (token.dep == 'punct'):")],
      needs='a token whose dependency has a label of one letter', breaks='it is left out',
      demo='''
r = tok('dog', 'NOUN', 'ROOT', right=[tok('x', 'NOUN', 'X')])
assert out(r, 'alpha') == '(dog x)', out(r, 'alpha')
'''),
 dict(id='believe-order', property='C08', edits=[(H, "            if len(self.sources(edge)) == 0:\n", "            if len(self.sources(edge) - {source}) == 0:\n")],
      needs='a fact whose only source is an edge equal to the link of the retracted one', breaks='nothing',
      demo='''
assert True
'''),
]
BUGS = [b for b in BUGS if 'assert True\n' != b['demo'].strip() + '\n']
