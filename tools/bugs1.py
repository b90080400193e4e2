"""Planted bugs, first series: the store."""
S = 'gb/hypergraph/sql.py'
BUGS = [
 dict(id='star-degree-like', property='C04', edits=[(S, "cur.execute('UPDATE vertices SET degree=degree+1 WHERE id=%s' % (self.ph,), (vert_str,))",
      "cur.execute('UPDATE vertices SET degree=degree+1 WHERE id LIKE %s' % (self.ph,), (vert_str,))")],
      needs='two vertices whose names differ in case only, or an underscore where the other has any character',
      breaks='an increment of a degree also counts for vertices whose name matches as a LIKE pattern',
      demo='''
hg = store()
hg.add(('r/1', 'Ab/1', 'x/1'))
hg.add(('r/1', 'ab/1', 'y/1'))
assert hg.degree('Ab/1') == 1 and hg.degree('ab/1') == 1, (hg.degree('Ab/1'), hg.degree('ab/1'))
'''),
 dict(id='dec-degree-floor', property='C04', edits=[(S, "cur.execute('UPDATE vertices SET degree=degree-1 WHERE id=%s' % (self.ph,), (vert_str,))",
      "cur.execute('UPDATE vertices SET degree=degree-1 WHERE id=%s AND timestamp<>0' % (self.ph,), (vert_str,))")],
      needs='a vertex that first appeared at timestamp 0',
      breaks='removing an edge leaves the degrees of vertices with timestamp 0',
      demo='''
hg = store()
hg.add(('r/1', 'a/1', 'x/1'), timestamp=0)
hg.remove(('r/1', 'a/1', 'x/1'))
assert hg.degree('a/1') == 0
'''),
 dict(id='pattern-prefix-size', property='C02', edits=[(S, "    if n != len(pattern):\n        return False", "    if n < len(pattern):\n        return False")],
      needs='a pattern whose end are wildcards and a longer edge', breaks='patterns also match longer edges',
      demo='''
hg = store()
hg.add(('r/1', 'a/1', 'b/1', 'c/1'))
assert hg.pattern2edges(('r/1', 'a/1', None)) == set()
'''),
 dict(id='perm-cap', property='C02', edits=[(S, "    nperms = math.factorial(len(edge))", "    nperms = min(math.factorial(len(edge)), 600)")],
      needs='an edge of six elements, asked for by a pattern with a wildcard near its start', breaks='patterns do not find edges of six elements when they need one of the last permutations',
      demo='''
hg = store()
e = ('a/1', 'b/1', 'c/1', 'd/1', 'e/1', 'f/1')
hg.add(e)
assert hg.pattern2edges((None, None, None, None, None, 'f/1')) == {e}
'''),
 dict(id='unperm-repeat', property='C02', edits=[(S, "    rg = [x for x in range(n)]\n    indices = nthperm(rg, nper)", "    rg = [x for x in range(n)]\n    indices = nthperm(rg, nper % math.factorial(min(n, 5)))")],
      needs='an edge of six or more elements', breaks='queries give back edges of six elements in another order',
      demo='''
hg = store()
e = ('a/1', 'b/1', 'c/1', 'd/1', 'e/1', 'f/1')
hg.add(e)
assert hg.star('f/1') == {e}, hg.star('f/1')
'''),
 dict(id='star-limit', property='C03', edits=[(S, "        edges = cur2edges(cur)\n        self.close_cursor(cur, local=True, commit=False)\n        return set(edges)",
      "        edges = cur2edges(cur.fetchmany(1000))\n        self.close_cursor(cur, local=True, commit=False)\n        return set(edges)")],
      needs='an entity in more than a thousand edges', breaks='star returns only part of the edges of an entity with many',
      demo='''
hg = store()
es = [('r/1', 'hub/1', 'x%d/1' % i) for i in range(1100)]
hg.add(es)
assert hg.star('hub/1') == set(es), len(hg.star('hub/1'))
'''),
 dict(id='star-nested', property='C03', edits=[(S, "        start_str = '%s ' % center_id\n        end_str = str_plus_1(start_str)", "        start_str = '%s ' % center_id.rstrip(')')\n        end_str = str_plus_1(start_str)")],
      needs='asking for the edges of an edge', breaks='star of an edge also finds edges of longer edges, and not its own',
      demo='''
hg = store()
hg.add(('says/1', 'mary/1', ('is/1', 'sky/1')))
assert hg.star(('is/1', 'sky/1')) == {('says/1', 'mary/1', ('is/1', 'sky/1'))}
hg.add(('says/1', 'john/1', 'http://x/a_(b)'))
assert hg.star('http://x/a_(b)') == {('says/1', 'john/1', 'http://x/a_(b)')}
'''),
 dict(id='timestamp-zero', property='C05', edits=[(S, "            ts = row[0]\n", "            ts = row[0] or -1\n")],
      needs='an add with the timestamp 0', breaks='the timestamp 0 is reported as unknown',
      demo='''
hg = store()
hg.add(('r/1', 'a/1'), timestamp=0)
assert hg.timestamp('a/1') == 0
'''),
 dict(id='timestamp-comeback', property='C05', edits=[(S, "                if not self.inc_degree(vert_str):\n                    self.add_str(vert_str, 1, timestamp)",
      "                if self.degree(vert) == 0 or not self.inc_degree(vert_str):\n                    self.add_str(vert_str, 1, timestamp)"),],
      needs='a vertex whose last edge was removed and that is added again at another time',
      breaks='a vertex that comes back gets the new timestamp, instead of that of its first appearance',
      demo='''
hg = store()
hg.add(('r/1', 'a/1'), timestamp=5)
hg.remove(('r/1', 'a/1'))
hg.add(('r/1', 'a/1'), timestamp=9)
assert hg.timestamp('a/1') == 5
'''),
 dict(id='f-all-lazy', property='C06', edits=[(S, "            vmap = {'vertex': ed.str2edge(row[0]), 'degree': row[1]}", "            vmap = {'vertex': ed.str2edge(row[0]), 'degree': row[1] % 256}")],
      needs='a vertex of degree 256 or more', breaks='enumeration shows degrees modulo 256',
      demo='''
hg = store()
hg.add([('r/1', 'hub/1', 'x%d/1' % i) for i in range(260)])
assert [x['degree'] for x in hg.f_all(lambda x: x) if x['vertex'] == 'hub/1'] == [260]
'''),
 dict(id='roots-perm-number', property='C07', edits=[(S, "            symb = ed.split_edge_str(res)[0]\n", "            symb = '/'.join(ed.split_edge_str(res)[0].split('/')[:2])\n")],
      needs='a symbol with more than two parts', breaks='symbols with more than two parts are cut when looked up by root',
      demo='''
hg = store()
hg.add(('r/1', 'a/b/c', 'x/1'))
assert hg.symbols_with_root('a') == {'a/b/c'}
'''),
 dict(id='belief-once', property='C08', edits=[('gb/hypergraph/hypergraph.py', "            for edge in edges:\n                new_edges.append(edge)\n                new_edges.append((const.source, edge, source))",
      "            for edge in edges:\n                if len(self.sources(edge)) == 0:\n                    new_edges.append(edge)\n                new_edges.append((const.source, edge, source))")],
      needs='a fact whose edge was removed while a source link was left, then asserted again with others', breaks='asserting several facts at once does not add those that have a source link but were removed',
      demo='''
hg = store()
f = ('is/1', 'a/1', 'b/1')
hg.add_belief('mary/1', f)
hg.remove(f)
hg.add_belief('john/1', [f, ('is/1', 'c/1', 'd/1')])
assert hg.exists(f)
'''),
 dict(id='commit-in-batch', property='C10', edits=[(S, "            if self.cur is None:\n                cur.close()\n                if commit:\n                    self.conn.commit()", "            if self.cur is None:\n                cur.close()\n            if commit:\n                self.conn.commit()")],
      needs='an operation that fails after its first write', breaks='writes are committed one by one inside operations and batches',
      demo='''
hg = store()
def one(h):
    h.add(('r/1', 'a/1'))
def two(h):
    raise ValueError()
try:
    hg.batch_exec([one, two])
except ValueError:
    pass
assert not hg.exists(('r/1', 'a/1'))
'''),
 dict(id='journal-memory', property='C11', edits=[('gb/hypergraph/sqlite.py', "        SQL.__init__(self, sqlite3.connect(file_path))", "        conn = sqlite3.connect(file_path)\n        conn.execute('PRAGMA journal_mode=MEMORY')\n        conn.execute('PRAGMA cache_size=5')\n        SQL.__init__(self, conn)")],
      needs='a crash in the middle of an operation that changes more pages than the cache holds', breaks='a crash leaves part of an operation in the store, as its journal was only in memory',
      demo='''
import subprocess
path = os.path.join(DIR, 'gb.db')
code = """
import os, sys
sys.path.insert(0, %r)
from gb.hypergraph.hypergraph import HyperGraph
hg = HyperGraph({'backend': 'sqlite', 'db': %r})
hg.add(('r/1', 'a/1'))
n = [0]
def add(h):
    h.add([('r/1', 'x%%d/1' %% i, 'y%%d/%%s' %% (i, 'z' * 100)) for i in range(300)])
    os._exit(1)
hg.batch_exec([add])
""" % (os.getcwd(), path)
subprocess.call([sys.executable, '-B', '-c', code])
hg = store()
try:
    n = len([x for x in hg.f_all(lambda x: x)])
    bad = hg.exists(('r/1', 'x5/1', 'y5/' + 'z' * 100)) or hg.degree('x5/1') or n != 3
except Exception as e:
    bad = e
assert not bad, bad
'''),
 dict(id='degree-cache', property='C12', edits=[(S, "        self.cur = None\n        self.ph = ph", "        self.cur = None\n        self.seen = {}\n        self.ph = ph"),
      (S, "        \"\"\"Checks if the given vertex exists in the hypergraph.\"\"\"\n        return len(self.pattern2edges(vertex)) > 0",
      "        \"\"\"Checks if the given vertex exists in the hypergraph.\"\"\"\n        key = (self.conn.total_changes, ed.edge2str(vertex))\n        if key not in self.seen:\n            self.seen = {key: len(self.pattern2edges(vertex)) > 0}\n        return self.seen[key]")],
      needs='another handle that changes the store between two questions about the same edge', breaks='a handle does not see that another one added or removed an edge',
      demo='''
a, b = store(), store()
e = ('r/1', 'a/1', 'b/1')
assert not a.exists(e)
b.add(e)
assert a.exists(e)
'''),
 dict(id='old-store-timestamp', property='C13', edits=[('gb/hypergraph/sqlite.py', "ADD COLUMN timestamp INTEGER DEFAULT -1", "ADD COLUMN timestamp INTEGER DEFAULT 0")],
      needs='a store made when vertices had no timestamps', breaks='vertices of old stores get the timestamp 0 instead of the unknown one',
      demo='''
import sqlite3
c = sqlite3.connect(os.path.join(DIR, 'gb.db'))
c.execute('CREATE TABLE vertices (id TEXT PRIMARY KEY, degree INTEGER DEFAULT 0)')
c.execute('CREATE TABLE perms (id TEXT PRIMARY KEY)')
c.execute("INSERT INTO vertices VALUES ('a/1', 1)")
c.commit()
c.close()
assert store().timestamp('a/1') == -1
'''),
 dict(id='batch-alias', property='C14', edits=[('gb/hypergraph/batch_hypergraph.py', "        if isinstance(edges[0], (list, tuple)):\n            self.buffer += edges\n        else:", "        if isinstance(edges[0], (list, tuple)):\n            self.buffer = self.buffer + [edges] if len(edges) < 2 else self.buffer + list(edges)\n        else:")],
      needs='a buffered add of a collection of one edge', breaks='buffered adds of a collection of one edge add an edge around it',
      demo='''
from gb.hypergraph.batch_hypergraph import BatchHyperGraph
hg = store()
b = BatchHyperGraph(hg)
b.add([('r/1', 'a/1', 'b/1')])
b.flush()
assert hg.exists(('r/1', 'a/1', 'b/1'))
'''),
 dict(id='float-digits', property='C15', edits=[('gb/hypergraph/edge.py', "            node_strings.append(str(node))", "            node_strings.append('%.15g' % node if isinstance(node, float) and node != int(node) else str(node))")],
      needs='a floating point number that needs more than 15 digits', breaks='floating point numbers in edges lose their last digits when written',
      demo='''
from gb.hypergraph.edge import edge2str, str2edge
e = ('r/1', 0.1 + 0.2, 'b/1')
assert str2edge(edge2str(e)) == e
'''),
 dict(id='minus-inside', property='C15', edits=[('gb/hypergraph/edge.py', "            if pos > 0:\n                return TokenType.STRING", "            if pos > 0 and not point:\n                return TokenType.STRING")],
      needs='a symbol of digits with a minus after a point', breaks='symbols like 1.-5 are taken for numbers',
      demo='''
from gb.hypergraph.edge import edge2str, str2edge
e = ('r/1', '.5-', 'b/1')
assert str2edge(edge2str(e)) == e
'''),
 dict(id='negative-url', property='C16', edits=[('gb/hypergraph/symbol.py', "    if sym_type(sym) == SymbolType.CONCEPT:\n        return sym.split('/')", "    if sym_type(sym) == SymbolType.CONCEPT:\n        return [p for p in sym.split('/') if p] or [sym]")],
      needs='a symbol with an empty part', breaks='empty parts of symbols are lost',
      demo='''
from gb.hypergraph import symbol as sym
assert sym.parts('a//b') == ['a', '', 'b'] and sym.nspace('a/') == ''
'''),
 dict(id='hash-case', property='C16', edits=[('gb/hypergraph/symbol.py', "        c = ord(s[0])", "        c = ord(s[0]) & 0xffff")],
      needs='a character beyond the basic plane', breaks='hashes of texts with characters beyond the basic plane',
      demo='''
from gb.hypergraph import symbol as sym
h = 1125899906842597
for c in 'a\\U0001F600':
    h = 31 * (h + ord(c)) % 2 ** 64
assert sym.hashed('a\\U0001F600') == '%x' % h
'''),
 dict(id='new-meaning-random', property='C16', edits=[('gb/hypergraph/symbol.py', "    s = ''.join(random.choice(string.ascii_lowercase + string.ascii_uppercase + string.digits) for _ in range(100))",
      "    rng = random.Random(random.randrange(200))\n    s = ''.join(rng.choice(string.ascii_lowercase + string.ascii_uppercase + string.digits) for _ in range(100))")],
      needs='a few dozen new meanings', breaks='new meanings of a root are not always fresh',
      demo='''
from gb.hypergraph import symbol as sym
ms = [sym.new_meaning('a') for _ in range(400)]
assert len(set(ms)) == len(ms)
'''),
 dict(id='null-batch', property='C17', edits=[('gb/hypergraph/null.py', "                Adding multiple edges at the same time might be faster.\"\"\"\n        return edges", "                Adding multiple edges at the same time might be faster.\"\"\"\n        return tuple(edges)")],
      needs='an add of a list to the null backend', breaks='an add to the null backend does not give back what it was given',
      demo='''
from gb.hypergraph.hypergraph import HyperGraph
hg = HyperGraph({'backend': 'null'})
es = [('a/1', 'b/1')]
assert hg.add(es) == es
'''),
 dict(id='mysql-dec', property='C17', edits=[(S, "        cur.execute('DELETE FROM perms WHERE id=%s' % (self.ph,), (eid,))", "        cur.execute('DELETE FROM perms WHERE id=?', (eid,))")],
      needs='a removal on the MySQL backend', breaks='removing edges fails on the MySQL backend, whose driver has another placeholder',
      demo='''
import sqlite3
sqls = []
class Cur(sqlite3.Cursor):
    def execute(self, sql, args=()):
        if args:
            assert '?' not in sql, sql
        return super(Cur, self).execute(sql.replace('%s', '?'), args)
class Conn(sqlite3.Connection):
    def cursor(self):
        return super(Conn, self).cursor(Cur)
from gb.hypergraph.sql import SQL
class X(SQL):
    def create_tables(self):
        c = self.conn.cursor()
        c.execute('CREATE TABLE vertices (id TEXT PRIMARY KEY, degree INTEGER DEFAULT 0, timestamp INTEGER DEFAULT -1)')
        c.execute('CREATE TABLE perms (id TEXT PRIMARY KEY)')
x = X(sqlite3.connect(os.path.join(DIR, 'x.db'), factory=Conn), '%s')
x.add(('a/1', 'b/1'))
x.remove(('a/1', 'b/1'))
'''),
 dict(id='exclude-rel', property='C19', edits=[('gb/hypergraph/queries.py', "def exclude_edge(hg, edge):\n    for vertex in edge[1:]:", "def exclude_edge(hg, edge):\n    for vertex in edge:")],
      needs='a relation used in more than 250 edges', breaks='edges of a frequent relation are left out of connections',
      demo='''
from gb.hypergraph.queries import intersect
hg = store()
hg.add([('r/1', 'x%d/1' % i, 'y%d/1' % i) for i in range(255)])
e = ('r/1', 'a/1', 'b/1')
hg.add(e)
assert set(intersect(hg, ['a/1', 'b/1'])) == {e}
'''),
 dict(id='walk-shortest', property='C19', edits=[('gb/hypergraph/queries.py', "    if (step not in wmap) or (walk_length < wmap[step]):\n        wmap[step] = walk_length", "    if (step not in wmap) or (walk_length > wmap[step]):\n        wmap[step] = walk_length")],
      needs='connections of different lengths', breaks='the longest connections are kept instead of the shortest',
      demo='''
from gb.hypergraph.queries import intersect
hg = store()
es = [('r/1', 'a/1', 'm/1'), ('r/1', 'm/1', 'b/1'), ('r/1', 'm/1', 'n/1'), ('r/1', 'n/1', 'b/1')]
hg.add(es)
assert set(intersect(hg, ['a/1', 'b/1'])) == set(es[:2]), intersect(hg, ['a/1', 'b/1'])
'''),
 dict(id='ego-depth', property='C18', edits=[('gb/hypergraph/hypergraph.py', "        if depth > 0:\n            edges = self.star(center)", "        if depth > 0 and self.degree(center) <= 250:\n            edges = self.star(center)")],
      needs='an entity in more than 250 edges', breaks='the neighbourhood ends at entities with many edges',
      demo='''
hg = store()
es = [('r/1', 'hub/1', 'x%d/1' % i) for i in range(260)]
hg.add(es)
assert len(hg.ego('x3/1', 2)) == 260
'''),
]
