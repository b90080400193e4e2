"""Planted bugs, fourth series: caches, handles, limits."""
S = 'gb/hypergraph/sql.py'
H = 'gb/hypergraph/hypergraph.py'
BH = 'gb/hypergraph/batch_hypergraph.py'
L = 'gb/hypergraph/sqlite.py'
M = 'gb/hypergraph/mysql.py'
Q = 'gb/hypergraph/queries.py'
Y = 'gb/hypergraph/symbol.py'
D = 'gb/hypergraph/edge.py'
T = 'gb/knowledge/semantic_tree.py'
A = 'gb/knowledge/stages/alpha.py'
B = 'gb/knowledge/stages/beta.py'
G = 'gb/knowledge/stages/gamma.py'
DE = 'gb/knowledge/stages/delta.py'
E = 'gb/knowledge/stages/epsilon.py'
X = 'gb/knowledge/extractor.py'
W = 'gb/readers/wordnet.py'
F = 'python/filter_wikidump.py'
P = 'gb/nlp/parser.py'
SE = 'gb/nlp/sentence.py'
TK = 'gb/nlp/nlp_token.py'
C = 'gb/gbrain.py'
import importlib.util as _u
import os as _o
_s = _u.spec_from_file_location('b2', _o.path.join(_o.path.dirname(_o.path.abspath(__file__)), 'bugs2.py'))
_m = _u.module_from_spec(_s)
_s.loader.exec_module(_m)
LEX, FILTER, SPACY = _m.LEX, _m.FILTER, _m.SPACY


BUGS = [
 dict(id='star-like', property='C03', edits=[(S, "        start_str = '%s ' % center_id\n        end_str = str_plus_1(start_str)\n\n        cur = self.open_cursor()\n        cur.execute('SELECT id FROM perms WHERE id>=%s AND id<%s' % (self.ph, self.ph), (start_str, end_str))",
      "        cur = self.open_cursor()\n        cur.execute('SELECT id FROM perms WHERE id LIKE %s' % (self.ph,), ('%s %%' % center_id,))")],
      needs='an entity with an underscore or a percent sign, or two that differ in the case of letters', breaks='star also finds the edges of entities that match as a LIKE pattern',
      demo='''
hg = store()
hg.add([('is/1', 'new_york/1', 'x/1'), ('is/1', 'new-york/1', 'x/1')])
assert hg.star('new_york/1') == {('is/1', 'new_york/1', 'x/1')}
'''),
 dict(id='sqlite-nolock', property='C12', edits=[(L, "sqlite3.connect(file_path)", "sqlite3.connect('file:%s?nolock=1' % file_path, uri=True)")],
      needs='two handles that write at the same time', breaks='nobody waits for the other, and updates are lost',
      demo='''
import threading
hg = store()
hg.add(('r/1', 'a/1', 'b/1'))
def begin(i):
    h = store()
    def f(_):
        h.add(('r/1', 'a/1', 'c%s/1' % i))
        bar.wait(3) if i == 0 else None
        if i == 0:
            ev.set()
        import time
        time.sleep(1)
    h.batch_exec([f])
import time
bar = threading.Event()
ev = threading.Event()
def w(i):
    try:
        begin(i)
    except Exception as e:
        errs.append(e)
errs = []
ts = [threading.Thread(target=w, args=(i,)) for i in range(2)]
bar.set()
for t in ts: t.start()
for t in ts: t.join()
h = store()
assert not errs, errs
assert h.degree('r/1') == 3 and len(h.star('r/1')) == 3, (h.degree('r/1'), h.star('r/1'))
'''),
 dict(id='sqlite-timeout', property='C12', edits=[(L, "sqlite3.connect(file_path)", "sqlite3.connect(file_path, timeout=0.2)")],
      needs='an operation that finds the store locked for more than a fifth of a second', breaks='it fails instead of waiting',
      demo='''
import threading, time
hg = store()
ready = threading.Event()
def w():
    h = store()
    def f(_):
        h.add(('r/1', 'a/1', 'c/1'))
        ready.set()
        time.sleep(1)
    h.batch_exec([f])
t = threading.Thread(target=w)
t.start()
ready.wait()
hg.add(('r/1', 'a/1', 'b/1'))
t.join()
'''),
 dict(id='batch-dedupe', property='C14', edits=[(BH, "            self.buffer.append(edges)", "            if edges not in self.buffer:\n                self.buffer.append(edges)")],
      needs='two edges in the buffer that differ only in 7 versus 7.0', breaks='the second one is dropped',
      demo='''
from gb.hypergraph.batch_hypergraph import BatchHyperGraph
hg = store()
b = BatchHyperGraph(hg)
b.add(('r/1', 'a/1', 7))
b.add(('r/1', 'a/1', 7.0))
b.flush()
assert hg.degree(7.0) == 1
'''),
 dict(id='belief-multi-ts', property='C05', edits=[(H, "            self.add(new_edges, timestamp)", "            self.add(new_edges, timestamp if len(edges) == 1 else -1)")],
      needs='several facts asserted at once with a timestamp', breaks='their timestamps are lost',
      demo='''
hg = store()
hg.add_belief('s/1', [('r/1', 'a/1', 'b/1'), ('r/1', 'a/1', 'c/1')], timestamp=7)
assert hg.timestamp(('r/1', 'a/1', 'c/1')) == 7
'''),
 dict(id='timestamp-32', property='C05', edits=[(S, "                              {'id': vert_str, 'degree': degree, 'timestamp': timestamp},", "                              {'id': vert_str, 'degree': degree, 'timestamp': min(timestamp, 2 ** 53)},")],
      needs='a timestamp of more than 53 bits, as in nanoseconds', breaks='such timestamps are changed',
      demo='''
hg = store()
hg.add(('r/1', 'a/1', 'b/1'), timestamp=1500000000123456789)
assert hg.timestamp('a/1') == 1500000000123456789
'''),
 dict(id='ego-atoms', property='C18', edits=[(H, "                edges = edges.union(self.ego(vid, depth - 1))", "                edges = edges.union(self.ego(vid, depth - 1 if isinstance(vid, (str, tuple)) else 0))")],
      needs='a number that connects two edges', breaks='the neighbourhood does not go through numbers',
      demo='''
hg = store()
hg.add([('born/1', 'a/1', 1990), ('born/1', 'b/1', 1990)])
assert hg.ego('a/1', 2) == {('born/1', 'a/1', 1990), ('born/1', 'b/1', 1990)}
'''),
 dict(id='extractor-cache', property='C21', edits=[(X, "        stage = self.create_stage(self.stages[0], None)\n", "        self.cache = getattr(self, 'cache', {})\n        key = str(sentence)\n        if key in self.cache:\n            self.outputs = self.cache[key][1]\n            return self.cache[key][0]\n        stage = self.create_stage(self.stages[0], None)\n"),
      (X, "            self.debug_msg(output)\n\n        return last_stage_output", "            self.debug_msg(output)\n\n        self.cache[key] = (last_stage_output, self.outputs)\n        return last_stage_output")],
      needs='two sentences of the same words with different structure', breaks='the second one gets the result of the first one, which is that of other tokens',
      demo='''
from gb.knowledge.extractor import Extractor
e = Extractor(None)
def sent(dep):
    return Sentence(tok('sees', 'VERB', 'ROOT', left=[tok('mary', 'PROPN', 'nsubj')], right=[tok('now', 'ADV', dep)]).to_list())
a = str(e.read_sentence(sent('punct')))
b = str(e.read_sentence(sent('advmod')))
assert a != b and 'now' in b, (a, b)
'''),
 dict(id='digit-any', property='C15', edits=[(D, "        elif c < '0' or c > '9':", "        elif not c.isdecimal():")],
      needs='a symbol of digits of another script', breaks='it is read back as a number',
      demo='''
import gb.hypergraph.edge as ed
e = ('r/1', '\\u0663\\u0664', 'x/1')
assert ed.str2edge(ed.edge2str(e)) == e
'''),
 dict(id='split-blank', property='C15', edits=[(D, "    stoks = edge_inner_str.split()", "    stoks = edge_inner_str.split(' ')")],
      needs='a text of an edge with a line end, a tab or two blanks between elements', breaks='it is split into other elements',
      demo='''
import gb.hypergraph.edge as ed
assert ed.str2edge('(is  a\\tb)') == ('is', 'a', 'b')
'''),
 dict(id='cli-backend-case', property='C31', edits=[(C, "        'backend': backend,\n", "        'backend': backend.lower(),\n")],
      needs='an unknown backend whose name differs from a known one in the case of its letters', breaks='it is not an error, and a store is created',
      demo='''
import subprocess
env = dict(os.environ, PYTHONPATH=os.getcwd())
r = subprocess.call([sys.executable, '-B', '-c', "from gb.gbrain import cli; cli()", '--backend', 'SQLite', '--db', os.path.join(DIR, 'x'), 'create'], env=env, stderr=subprocess.DEVNULL)
assert r != 0 and os.listdir(DIR) == [], (r, os.listdir(DIR))
'''),
 dict(id='cli-empty-pass', property='C31', edits=[(C, "@click.option('--dbpass', help='Database password.', default='gb')", "@click.option('--dbpass', help='Database password.', default='gb', callback=lambda ctx, param, v: v or 'gb')")],
      needs='an empty password', breaks='another password is used',
      demo='''
import types
import MySQLdb
got = []
class Cur(object):
    rowcount = 0
    def execute(self, sql, *a): pass
    def close(self): pass
def connect(*a, **k):
    got.append(repr((a, sorted(k.items()))))
    return types.SimpleNamespace(autocommit=lambda x: None, cursor=lambda *a: Cur(), commit=lambda: None)
MySQLdb.connect = connect
from click.testing import CliRunner
from gb.gbrain import cli
r = CliRunner().invoke(cli, ['--backend', 'mysql', '--db', 'd', '--dbhost', 'h', '--dbuser', 'u', '--dbpass', '', 'create'])
assert r.exit_code == 0 and "'gb'" not in got[0], (r, got)
'''),
 dict(id='root-universal', property='C32', edits=[(SE, "            if token.dep == 'ROOT':", "            if token.dep.upper() == 'ROOT':")],
      needs='a token before the root whose dependency is written root', breaks='the tree below that token is printed instead',
      demo='''
import contextlib, io
a = tok('a', dep='root')
s = Sentence(tok('b', 'VERB', 'ROOT', left=[a]).to_list())
o = io.StringIO()
with contextlib.redirect_stdout(o):
    s.print_tree()
assert o.getvalue().split()[0].endswith(']b/VERB'), o.getvalue()
'''),
 dict(id='label-cut', property='C32', edits=[(SE, "    return '[%s]%s' % (prefix, token)", "    return '[%s]%.60s' % (prefix, token)")],
      needs='a token whose description is longer than 60 characters', breaks='its end is not shown',
      demo='''
import contextlib, io
w = 'x' * 70
o = io.StringIO()
with contextlib.redirect_stdout(o):
    Sentence([tok(w, 'NOUN', 'ROOT', ent='PERSON')]).print_tree()
assert w in o.getvalue() and '{PERSON}' in o.getvalue(), o.getvalue()
'''),
 dict(id='token-entity', property='C32', edits=[(TK, "        return '%s/%s (%s) {%s}' % (self.word.strip(), self.pos, self.dep, self.entity_type)", "        return '%s/%s (%s) {%s}' % (self.word.strip('. '), self.pos, self.dep, self.entity_type)")],
      needs='a word that ends with a full stop, as an abbreviation', breaks='the full stop is not shown',
      demo='''
import contextlib, io
o = io.StringIO()
with contextlib.redirect_stdout(o):
    Sentence([tok('inc.', 'NOUN', 'ROOT')]).print_tree()
assert 'inc./NOUN' in o.getvalue(), o.getvalue()
'''),
 dict(id='wn-self', property='C28', edits=[(W, "    for lemma in lemmas:\n        add_relationship(hg, rel, root_lemma, lemma)", "    for lemma in lemmas:\n        if lemma.name() != root_lemma.name():\n            add_relationship(hg, rel, root_lemma, lemma)")],
      needs='a relation between two lemmas of the same name, as of a noun and its verb', breaks='it is not imported',
      demo=LEX + '''
lb = L('run')
la = L('run', derivationally_related_forms=[lb])
hg = imported([S('run.n.01', 'n', [la]), S('run.v.01', 'v', [lb])])
assert len(hg.pattern2edges(('derivationally_related_form/gb', None, None))) == 1
'''),
 dict(id='wn-hyper-first', property='C28', edits=[(W, "        lemma = s.lemmas()[0]\n", "        lemma = min(s.lemmas(), key=lambda x: len(x.name()))\n")],
      needs='a related synset whose first lemma is not its shortest', breaks='the relation is stated about another lemma',
      demo=LEX + '''
b = S('animal.n.01', 'n', [L('animal'), L('beast')])
hg = imported([S('dog.n.01', 'n', [L('dog')], hypernyms=[b]), b])
assert ('hypernym/gb', 'dog/wn.dog.n.01', 'animal/wn.animal.n.01') in hg.pattern2edges(('hypernym/gb', None, None))
'''),
]
