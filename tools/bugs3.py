"""Planted bugs, third series: all over."""
S = 'gb/hypergraph/sql.py'
H = 'gb/hypergraph/hypergraph.py'
BH = 'gb/hypergraph/batch_hypergraph.py'
L = 'gb/hypergraph/sqlite.py'
M = 'gb/hypergraph/mysql.py'
Q = 'gb/hypergraph/queries.py'
Y = 'gb/hypergraph/symbol.py'
D = 'gb/hypergraph/edge.py'
T = 'gb/knowledge/semantic_tree.py'
A = 'gb/knowledge/stages/alpha.py'
B = 'gb/knowledge/stages/beta.py'
G = 'gb/knowledge/stages/gamma.py'
DE = 'gb/knowledge/stages/delta.py'
E = 'gb/knowledge/stages/epsilon.py'
X = 'gb/knowledge/extractor.py'
W = 'gb/readers/wordnet.py'
F = 'python/filter_wikidump.py'
P = 'gb/nlp/parser.py'
SE = 'gb/nlp/sentence.py'
TK = 'gb/nlp/nlp_token.py'
C = 'gb/gbrain.py'
import importlib.util as _u
import os as _o
_s = _u.spec_from_file_location('b2', _o.path.join(_o.path.dirname(_o.path.abspath(__file__)), 'bugs2.py'))
_m = _u.module_from_spec(_s)
_s.loader.exec_module(_m)
LEX, FILTER, SPACY = _m.LEX, _m.FILTER, _m.SPACY

BUGS = [
 dict(id='remove-like', property='C01', edits=[(S, "cur.execute('DELETE FROM perms WHERE id=%s' % (self.ph,), (eid,))",
      "cur.execute('DELETE FROM perms WHERE id LIKE %s' % (self.ph,), (eid,))")],
      needs='two edges that differ only in the case of a letter or where the removed one has an underscore or a percent sign',
      breaks='removing an edge also removes edges whose text matches its text as a LIKE pattern',
      demo='''
hg = store()
hg.add([('is/1', 'new_york/1', 'x/1'), ('is/1', 'new-york/1', 'x/1')])
hg.remove(('is/1', 'new_york/1', 'x/1'))
assert hg.exists(('is/1', 'new-york/1', 'x/1'))
'''),
 dict(id='add-dedupe', property='C01', edits=[(S, "                for edge in edges:\n                    self.add_raw(edge, timestamp)",
      "                for edge in sorted(set(edges), key=str) if isinstance(edges[0], tuple) else edges:\n                    self.add_raw(edge, timestamp)")],
      needs='two edges added in one call that differ only in 7 versus 7.0',
      breaks='the second of two edges that Python takes for equal is not added',
      demo='''
hg = store()
hg.add([('r/1', 'a/1', 7), ('r/1', 'a/1', 7.0)])
assert hg.degree(7) == 1 and hg.degree(7.0) == 1
'''),
 dict(id='timestamp-fill', property='C05', edits=[(S, "            self.write_edge_permutations(edge)\n        return edge",
      "            self.write_edge_permutations(edge)\n        elif timestamp > self.timestamp(edge) == -1:\n            self.add_str(ed.edge2str(edge), self.degree(edge), timestamp)\n        return edge")],
      needs='an edge added without a timestamp, added again with one', breaks='adding an edge that exists changes its timestamp',
      demo='''
hg = store()
hg.add(('r/1', 'a/1', 'b/1'))
hg.add(('r/1', 'a/1', 'b/1'), timestamp=5)
assert hg.timestamp(('r/1', 'a/1', 'b/1')) == -1
'''),
 dict(id='f-all-page', property='C06', edits=[(S, "cur.execute('SELECT id, degree FROM vertices')", "cur.execute('SELECT DISTINCT id, degree FROM vertices WHERE NOT (degree=0 AND timestamp>0)')")],
      needs='an edge stored with a timestamp that no other edge contains', breaks='such edges are not visited',
      demo='''
hg = store()
hg.add(('r/1', 'a/1', 'b/1'), timestamp=5)
assert ('r/1', 'a/1', 'b/1') in list(hg.f_all(lambda v: v['vertex']))
'''),
 dict(id='f-all-limit', property='C06', edits=[(S, "cur.execute('SELECT id, degree FROM vertices')", "cur.execute('SELECT id, degree FROM vertices LIMIT 2000')")],
      needs='more than 2000 vertices', breaks='only the first 2000 vertices are visited',
      demo='''
hg = store()
hg.add([('r/1', 'a/1', 'b/%s' % i) for i in range(1200)])
assert len(list(hg.f_all(lambda v: v['vertex']))) == 2402
'''),
 dict(id='roots-fold', property='C07', edits=[(S, "            symb = ed.split_edge_str(res)[0]\n", "            symb = ed.split_edge_str(res)[0]\n            if symb.count('/') > 1:\n                continue\n")],
      needs='a symbol whose namespace has a slash', breaks='symbols with a slash in their namespace are not found by their root',
      demo='''
hg = store()
hg.add(('r/1', 'a/1/2', 'b/1'))
assert hg.symbols_with_root('a') == {'a/1/2'}
'''),
 dict(id='roots-lower', property='C07', edits=[(S, "        start_str = '%s/' % root\n", "        start_str = '%s/' % root.lower()\n")],
      needs='a root with a capital letter', breaks='symbols whose root has capital letters are not found',
      demo='''
hg = store()
hg.add(('r/1', 'Berlin/1', 'b/1'))
assert hg.symbols_with_root('Berlin') == {'Berlin/1'}
'''),
 dict(id='belief-in-use', property='C08', edits=[(H, "            if len(self.sources(edge)) == 0:", "            if len(self.sources(edge)) == 0 and self.degree(edge) == 0:")],
      needs='a fact whose last belief is removed while another edge contains it', breaks='the fact is kept without a source',
      demo='''
hg = store()
e = ('r/1', 'a/1', 'b/1')
hg.add_belief('s/1', e)
hg.add(('says/1', 'mary/1', e))
hg.remove_belief('s/1', e)
assert not hg.exists(e)
'''),
 dict(id='sources-star', property='C08', edits=[(H, "        edges = self.pattern2edges((const.source, edge, None))\n", "        edges = [e for e in self.star(edge) if e[0] == const.source and len(e) == 3]\n")],
      needs='an edge that is itself the source of another fact', breaks='a fact counts as supported when it is the source of another one',
      demo='''
hg = store()
e, f = ('r/1', 'a/1', 'b/1'), ('r/1', 'c/1', 'd/1')
hg.add_belief('s/1', e)
hg.add_belief(e, f)
assert hg.sources(e) == {'s/1'}, hg.sources(e)
'''),
 dict(id='batch-false', property='C09', edits=[(S, "            for f in funs:\n                f(self)", "            for f in funs:\n                if f(self) is False:\n                    break")],
      needs='a function in a batch that returns False and is not the last', breaks='the functions after it are not executed',
      demo='''
hg = store()
hg.batch_exec([lambda h: h.exists(('r/1', 'a/1', 'b/1')), lambda h: h.add(('r/1', 'a/1', 'b/1'))])
assert hg.exists(('r/1', 'a/1', 'b/1'))
'''),
 dict(id='batch-chunk', property='C09', edits=[(S, "            for f in funs:\n                f(self)", "            for n, f in enumerate(funs):\n                f(self)\n                if n % 100 == 99:\n                    self.conn.commit()\n                    self.begin()")],
      needs='a batch of more than 100 functions that fails late', breaks='the functions up to the last multiple of 100 stay effective',
      demo='''
hg = store()
def fail(h):
    raise ValueError()
try:
    hg.batch_exec([lambda h, i=i: h.add(('r/1', 'a/1', 'b/%s' % i)) for i in range(150)] + [fail])
except Exception:
    pass
assert hg.degree('a/1') == 0, hg.degree('a/1')
'''),
 dict(id='add-chunk', property='C11', edits=[(S, "                    self.add_raw(edge, timestamp)\n            else:", "                    self.add_raw(edge, timestamp)\n                    n = getattr(self, 'pending', 0) + 1\n                    self.pending = n % 250\n                    if n == 250 and not self.savepoints:\n                        # not too much at a time\n                        self.conn.commit()\n                        self.begin()\n            else:")],
      needs='a crash or an error during an add of more than 250 edges', breaks='part of the edges stay',
      demo='''
hg = store()
class Bad(object):
    def __str__(self):
        raise ValueError()
try:
    hg.add([('r/1', 'a/1', 'b/%s' % i) for i in range(300)] + [('r/1', 'a/1', Bad())])
except Exception:
    pass
assert hg.degree('a/1') == 0, hg.degree('a/1')
'''),
 dict(id='remove-two-steps', property='C10', edits=[(S, "            for vert in edge:\n                self.dec_degree(ed.edge2str(vert))\n            self.remove_edge_permutations(edge)", "            self.remove_edge_permutations(edge)\n            self.conn.commit()\n            for vert in edge:\n                self.dec_degree(ed.edge2str(vert))")],
      needs='an error of the database while the degrees are decremented', breaks='the edge is removed but the degrees stay',
      demo='''
import sqlite3
hg = store()
hg.add([('r/1', 'a/1', 'b/1'), ('r/1', 'a/1', 'c/1')])
conn = hg.backend.conn
conn.execute("CREATE TEMP TRIGGER t BEFORE UPDATE ON vertices WHEN NEW.id='b/1' BEGIN SELECT RAISE(ABORT, 'no'); END")
conn.commit()
try:
    hg.remove(('r/1', 'a/1', 'b/1'))
except sqlite3.Error:
    pass
assert hg.exists(('r/1', 'a/1', 'b/1'))
'''),
 dict(id='timestamp-cache', property='C12', edits=[(S, "        vert_str = ed.edge2str(vertex)\n        cur = self.open_cursor()\n        cur.execute('SELECT timestamp FROM vertices WHERE id=%s' % (self.ph,), (vert_str,))\n        for row in cur:\n            ts = row[0]",
      "        vert_str = ed.edge2str(vertex)\n        if not hasattr(self, 'tss'):\n            self.tss = {}\n        if vert_str in self.tss:\n            # timestamps of vertices do not change\n            return self.tss[vert_str]\n        cur = self.open_cursor()\n        cur.execute('SELECT timestamp FROM vertices WHERE id=%s' % (self.ph,), (vert_str,))\n        for row in cur:\n            ts = row[0]\n            if vert_str[0] != '(':\n                self.tss[vert_str] = ts")],
      needs='the store being erased and filled again, in particular through another handle', breaks='a handle goes on to tell the timestamp from before the erasure',
      demo='''
a, b = store(), store()
a.add(('r/1', 'a/1', 'b/1'), timestamp=1)
assert b.timestamp('a/1') == 1
a.destroy()
a.add(('r/1', 'a/1', 'b/1'), timestamp=2)
assert b.timestamp('a/1') == 2
'''),
 dict(id='open-clean', property='C13', edits=[(L, "        self.conn.commit()\n        cur.close()", "        # vertices that are not used any more\n        cur.execute(\"DELETE FROM vertices WHERE degree=0 AND substr(id, 1, 1)<>'('\")\n\n        self.conn.commit()\n        cur.close()")],
      needs='an entity whose last edge was removed, and opening the store again', breaks='opening a store forgets the timestamps of such entities',
      demo='''
hg = store()
hg.add(('r/1', 'a/1', 'b/1'), timestamp=1)
hg.remove(('r/1', 'a/1', 'b/1'))
assert store().timestamp('a/1') == 1
'''),
 dict(id='flush-part', property='C14', edits=[(BH, "            self.buffer = []\n\n    def add", "            self.buffer = self.buffer[self.buffer_max + 1:]\n\n    def add"),
      (BH, "            self.hg.backend.add(self.buffer, timestamp)\n", "            self.hg.backend.add(self.buffer[:self.buffer_max + 1], timestamp)\n")],
      needs='one add of more edges than twice the buffer', breaks='an explicit flush leaves edges in the buffer',
      demo='''
from gb.hypergraph.batch_hypergraph import BatchHyperGraph
hg = store()
b = BatchHyperGraph(hg, 10)
b.add([('r/1', 'a/1', 'b/%s' % i) for i in range(50)])
b.flush()
assert hg.degree('a/1') == 50, hg.degree('a/1')
'''),
 dict(id='mysql-int', property='C17', edits=[(M, "ADD COLUMN timestamp BIGINT DEFAULT -1", "ADD COLUMN timestamp INT DEFAULT -1")],
      needs='a timestamp of more than 31 bits, as in milliseconds', breaks='such timestamps can not be stored on MySQL',
      demo='''
import types
DIR
class Cur(object):
    rowcount = 0
    def execute(self, sql, *a): SQL.append(sql)
    def close(self): pass
SQL = []
import MySQLdb
MySQLdb.connect = lambda **k: types.SimpleNamespace(autocommit=lambda x: None, cursor=lambda *a: Cur(), commit=lambda: None)
from gb.hypergraph.hypergraph import HyperGraph
HyperGraph({'backend': 'mysql', 'host': 'h', 'user': 'u', 'password': 'p', 'db': 'd'})
import re
for s in SQL:
    m = re.search(r'timestamp\\s+(\\w+)', s)
    if m:
        assert m.group(1).upper() in ('BIGINT', 'DOUBLE', 'DECIMAL', 'NUMERIC'), s
'''),
 dict(id='ego-visited', property='C18', edits=[(H, "            ids = set([item for edge in edges for item in edge[1:]])\n            for vid in ids:\n                edges = edges.union(self.ego(vid, depth - 1))",
      "            ids = set([item for edge in edges for item in edge[1:]])\n            for vid in ids:\n                if vid != center and vid not in self.seen:\n                    self.seen.add(vid)\n                    edges = edges.union(self.ego(vid, depth - 1))"),
      (H, "    def ego(self, center, depth):", "    seen = set()\n\n    def ego(self, center, depth):"),
      (H, "        edges = set()\n        if depth > 0:", "        edges = set()\n        if depth > 2:\n            self.seen = set()\n        if depth > 0:")],
      needs='a neighbourhood of depth two or three asked for after another one, or an entity first met far away', breaks='entities met before are not followed again',
      demo='''
hg = store()
hg.add([('r/1', 'a/1', 'b/1'), ('r/1', 'b/1', 'c/1')])
assert hg.ego('a/1', 2) == hg.ego('a/1', 2) == {('r/1', 'a/1', 'b/1'), ('r/1', 'b/1', 'c/1')}
hg.add(('r/1', 'c/1', 'd/1'))
assert len(hg.ego('d/1', 2)) == 2 and len(hg.ego('a/1', 2)) == 2
'''),
 dict(id='degree-border', property='C19', edits=[(Q, "if hg.degree(vertex) > 250:", "if hg.degree(vertex) >= 250:")],
      needs='a participant in exactly 250 edges', breaks='its edges are not used',
      demo='''
import gb.hypergraph.queries as q
hg = store()
hg.add([('r/1', 'hub/1', 'x/%s' % i) for i in range(248)] + [('s/1', 'a/1', 'hub/1'), ('s/1', 'hub/1', 'b/1')])
assert hg.degree('hub/1') == 250
assert len(set(q.intersect(hg, ['a/1', 'b/1']))) == 2
'''),
 dict(id='interedge-two', property='C19', edits=[(Q, "interverts):\n    for vertex in edge[1:]:\n", "interverts):\n    for vertex in edge[1:3]:\n")],
      needs='an edge with three participants, the last of which is on no connection', breaks='such edges are returned too',
      demo='''
import gb.hypergraph.queries as q
hg = store()
hg.add([('s/1', 'a/1', 'x/1'), ('s/1', 'x/1', 'b/1'), ('s/1', 'a/1', 'x/1', 'c/1')])
assert set(q.intersect(hg, ['a/1', 'b/1'])) == {('s/1', 'a/1', 'x/1'), ('s/1', 'x/1', 'b/1')}
'''),
 dict(id='rmpat-links', property='C20', edits=[(H, '''        """Removes from the hypergraph all edges that match the pattern."""
        edges = self.pattern2edges(pattern)
''', '''        """Removes from the hypergraph all edges that match the pattern."""
        edges = self.pattern2edges(pattern)
        # also the links to their sources
        edges = edges.union(*[self.pattern2edges((const.source, edge, None)) for edge in edges])
''')],
      needs='a pattern that matches a fact with sources', breaks='edges that do not match the pattern are removed',
      demo='''
hg = store()
hg.add_belief('s/1', ('r/1', 'a/1', 'b/1'))
hg.remove_by_pattern(('r/1', None, None))
assert hg.degree('s/1') == 1
'''),
 dict(id='outputs-accumulate', property='C21', edits=[(X, "        self.outputs = []\n\n        stage =", "        stage =")],
      needs='two sentences read by one extractor', breaks='the recorded outputs of the sentences before stay in the list',
      demo='''
from gb.knowledge.extractor import Extractor
e = Extractor(None)
for w in ('a', 'b'):
    r = tok(w, dep='ROOT')
    e.read_sentence(Sentence(r.to_list()))
assert len(e.outputs) == 5, e.outputs
'''),
 dict(id='alpha-punct-pos', property='C22', edits=[(A, "if (len(token.dep) == 0) or (token.dep == 'punct'):", "if (len(token.dep) == 0) or (token.dep == 'punct') or (token.pos == 'PUNCT'):")],
      needs='a token tagged as punctuation whose dependency is another', breaks='it is left out',
      demo='''
r = tok('says', 'VERB', 'ROOT', left=[tok('and', 'PUNCT', 'nsubj')])
assert 'and' in out(r), out(r)
'''),
 dict(id='beta-passive', property='C23', edits=[(B, "self.compound_deps = ['pobj', 'compound', 'dobj', 'nsubj']", "self.compound_deps = ['pobj', 'compound', 'dobj', 'nsubj', 'iobj']")],
      needs='a group with an indirect object and only such words', breaks='it is marked as compound',
      demo='''
r = tok('boys', 'NOUN', 'nsubj', left=[tok('us', 'PRON', 'iobj')])
r.dep = 'ROOT'
r2 = tok('gave', 'VERB', 'ROOT', left=[tok('boys', 'NOUN', 'nsubj', left=[tok('us', 'PRON', 'iobj')])])
assert '_' not in out(r2, 'alpha', 'beta'), out(r2, 'alpha', 'beta')
'''),
 dict(id='gamma-det-word', property='C24', edits=[(G, "(first.token.lemma in ('the', 'an', 'a'))", "(first.token.word in ('the', 'an', 'a'))")],
      needs='a determiner whose lemma differs from the word', breaks='it stays',
      demo='''
r = tok('sees', 'VERB', 'ROOT', right=[tok('dog', 'NOUN', 'dobj', left=[tok('th', 'DET', 'det', lemma='the')])])
assert 'th' not in out(r).split("'")[-1].split('/')[0:1] and 'th/' not in out(r), out(r)
'''),
 dict(id='delta-last-best', property='C25', edits=[(DE, "                if fit > best_fit:", "                if fit >= best_fit:")],
      needs='two readings with the same fit', breaks='the last of the best readings is taken',
      demo='''
r = tok('w0', 'VERB', 'ROOT', right=[tok('w1', 'VERB', 'a2', right=[tok('w2', 'NOUN', 'x')]), tok('w3', 'VERB', 'x')])
assert out(r) == "('w0_w1/?', 'w2/1', 'w3/1')", out(r)
'''),
 dict(id='delta-count', property='C25', edits=[(DE, "                count = min(rel.arity(), node.arity() - 2)", "                count = min(rel.arity(), node.arity() - 2, 2)")],
      needs='a relation of three parts or more', breaks='the third part does not count for the fit',
      demo='''
r = tok('w0', 'VERB', 'ROOT', right=[
    tok('w1', 'VERB', 'a2', right=[tok('w2', 'NOUN', 'a2'), tok('w3', 'VERB', 'a1', right=[tok('w4', 'VERB', 'a2'), tok('w6', 'NOUN', 'a2')])]),
    tok('w5', 'NOUN', 'a1')])
assert out(r) == "(('w1/1', 'w3/1', 'w0/1'), 'w2/1', 'w4/1', 'w6/1', 'w5/1')", out(r)
'''),
 dict(id='epsilon-one', property='C26', edits=[(E, "        symbol = sym.build(('_'.join(words), '?'))", "        symbol = sym.build(('_'.join(words), '?' if len(words) > 1 else leafs[0].namespace))")],
      needs='a compound of one word', breaks='it has the namespace of the word',
      demo='''
from gb.knowledge.semantic_tree import Tree
from gb.knowledge.stages.epsilon import EpsilonStage
t = Tree()
l = t.create_leaf(tok('dog'))
l.namespace = '1'
n = t.create_node([l.id])
n.compound = True
t.root_id = n.id
assert EpsilonStage(None, t).process() == 'dog/?'
'''),
 dict(id='flatten-compounds', property='C27', edits=[(T, "            child.flatten()\n            if child.is_terminal():", "            child.flatten()\n            if child.is_leaf():")],
      needs='flattening a group that contains a compound', breaks='the compound is dissolved',
      demo='''
from gb.knowledge.semantic_tree import Tree
t = Tree()
a, b, c = [t.create_leaf(tok(w)) for w in 'abc']
n = t.create_node([a.id, b.id])
n.compound = True
r = t.create_node([n.id, c.id])
r.flatten()
assert len(r.children_ids) == 2
'''),
 dict(id='nest-rest', property='C27', edits=[(T, "            rest = elem.children_ids[1:]\n", "            rest = elem.children_ids[1:3]\n")],
      needs='nesting around a group of more than three elements', breaks='the others are lost',
      demo='''
from gb.knowledge.semantic_tree import Tree
t = Tree()
x, a, b, c, d = [t.create_leaf(tok(w)) for w in 'xabcd']
n = t.create_node([x.id])
t.root_id = n.id
n.nest(t.create_node([a.id, b.id, c.id, d.id]).id)
n.new_layer()
n.apply_layers()
assert str(t) == '(a x b c d)', str(t)
'''),
 dict(id='wn-mutual', property='C28', edits=[(W, "        lemma = s.lemmas()[0]\n        add_relationship(hg, rel, root_lemma, lemma)", "        lemma = s.lemmas()[0]\n        if rel in ('similar_to/gb', 'verb_group/gb') and hg.exists((rel, lemma2symbol(lemma), lemma2symbol(root_lemma))):\n            # mutual\n            continue\n        add_relationship(hg, rel, root_lemma, lemma)")],
      needs='two synsets similar to each other', breaks='only one of the two statements is imported',
      demo=LEX + '''
a, b = L('big'), L('large')
sa, sb = S('big.a.01', 'a', [a]), S('large.a.01', 's', [b])
sa.rels['similar_tos'] = [sb]
sb.rels['similar_tos'] = [sa]
hg = imported([sa, sb])
assert len(hg.pattern2edges(('similar_to/gb', None, None))) == 2
'''),
 dict(id='dump-known', property='C29', edits=[(F, "    return ':' not in title\n", "    return ':' not in title.strip(':')\n")],
      needs='a title that starts or ends with a colon', breaks='the page is kept',
      demo=FILTER + '''
assert filtered('<page>\\n<title>:x</title>\\n</page>\\n') == ''
'''),
 dict(id='parser-fold', property='C30', edits=[(P, "stoken.orth_.lower().strip()", "stoken.orth_.casefold().strip()")],
      needs='a word with a letter whose case folding is not its lower case, as in Strasse written with sharp s', breaks='the word is changed',
      demo=SPACY + '''
from gb.nlp.parser import Parser
d = Doc([ST(0, 'Stra\\xdfe', 'ROOT', None)], [(0, 1)])
spacy.load = lambda *a, **k: (lambda text: d)
assert Parser().parse_text('x')[0][0].word == 'stra\\xdfe'
'''),
 dict(id='root-last', property='C30', edits=[(SE, "        for token in self.tokens:\n            if token.dep == 'ROOT':", "        for token in reversed(self.tokens):\n            if token.dep == 'ROOT':")],
      needs='a sentence with two roots', breaks='the last root is taken',
      demo='''
s = Sentence([tok('a', dep='ROOT'), tok('b', dep='ROOT')])
assert s.root().word == 'a'
'''),
 dict(id='cli-ext', property='C31', edits=[(C, "        'db': db,\n", "        'db': db.strip(),\n")],
      needs='a file name that ends or starts with a space', breaks='another file is used',
      demo='''
import subprocess
env = dict(os.environ, PYTHONPATH=os.getcwd())
subprocess.check_call([sys.executable, '-B', '-c', "from gb.gbrain import cli; cli()", '--db', os.path.join(DIR, 'x '), 'create'], env=env)
assert os.listdir(DIR) == ['x '], os.listdir(DIR)
'''),
 dict(id='sym-space', property='C16', edits=[(Y, r"    sym = re.sub(r'\s', '_', sym)", "    sym = sym.replace(' ', '_').replace('\\t', '_').replace('\\n', '_')")],
      needs='a text with another kind of white space, as a no-break space', breaks='the symbol contains white space',
      demo='''
import gb.hypergraph.symbol as sym
assert sym.str2symbol('new\\xa0york') == 'new_york'
'''),
 dict(id='parts-three', property='C16', edits=[(Y, "        return sym.split('/')", "        return sym.split('/', 2)")],
      needs='a symbol of four parts', breaks='the last two parts are one',
      demo='''
import gb.hypergraph.symbol as sym
assert sym.parts('a/b/c/d') == ['a', 'b', 'c', 'd']
'''),
 dict(id='hash-long', property='C16', edits=[(Y, "    s = txt\n", "    s = txt[:256]\n")],
      needs='a text of more than 256 characters', breaks='texts that differ only after them have the same hash',
      demo='''
import gb.hypergraph.symbol as sym
assert sym.hashed('a' * 300) != sym.hashed('a' * 301)
'''),
 dict(id='split-tab', property='C15', edits=[(D, "    if edge_str[0] == '(':\n", "    if edge_str[0] == '(' and edge_str.count('(') == edge_str.count(')') > 0 and edge_str[-1] == ')':\n"),
      (D, "        edge_inner_str = edge_str[1:-1]\n", "        edge_inner_str = edge_str.strip('()')\n")],
      needs='an edge whose last element is an edge', breaks='its text can not be read back',
      demo='''
import gb.hypergraph.edge as ed
e = ('a', ('b', ('c', 'd')))
assert ed.str2edge(ed.edge2str(e)) == e
'''),
]
