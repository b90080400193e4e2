"""Planted bugs, ninth series: edges of many elements, errors of all classes."""
import importlib.util as _u
import os as _o
_s = _u.spec_from_file_location('b8', _o.path.join(_o.path.dirname(_o.path.abspath(__file__)), 'bugs8.py'))
_m = _u.module_from_spec(_s)
_s.loader.exec_module(_m)
for _k in ('S', 'H', 'BH', 'L', 'M', 'Q', 'Y', 'D', 'T', 'A', 'B', 'G', 'DE', 'E', 'X', 'W', 'F', 'P', 'SE', 'TK', 'C', 'LEX', 'FILTER', 'SPACY', 'NU'):
    globals()[_k] = getattr(_m, _k)

BUGS = [
 dict(id='wide-commit', property='C11', edits=[(S, "        do_with_edge_permutations(edge, self.write_edge_permutation)", "        do_with_edge_permutations(edge, self.write_edge_permutation)\n        if len(edge) > 4 and self.savepoints == 0:\n            # hundreds of rows, not to be kept in memory\n            self.conn.commit()\n            self.begin()")],
      needs='a process that dies while it adds several edges, one of them of five elements', breaks='a part of them is there afterwards',
      demo='''
hg = store()
pid = os.fork()
if pid == 0:
    # another process
    hg = store()
    real = hg.backend.add_raw
    def dies(edge, timestamp):
        if edge[1] == 'last/1':
            os._exit(9)
        real(edge, timestamp)
    hg.backend.add_raw = dies
    hg.add([('is/1', 'a/1', 'b/1'), ('r/1', 'a/1', 'b/1', 'c/1', 'd/1'), ('is/1', 'last/1', 'b/1')])
    os._exit(0)
assert os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]) == 9
assert not store().exists(('is/1', 'a/1', 'b/1'))
'''),
 dict(id='wide-remove', property='C10', edits=[(S, "        do_with_edge_permutations(edge, self.remove_edge_permutation)", "        do_with_edge_permutations(edge, self.remove_edge_permutation)\n        if len(edge) > 4 and self.savepoints == 0:\n            # hundreds of rows, not to be kept in memory\n            self.conn.commit()\n            self.begin()")],
      needs='a database that fails after an edge of five elements was removed, within one operation', breaks='the edge is half removed: the operation failed, but the edge is gone',
      demo='''
import sqlite3
hg = store()
e = ('r/1', 'a/1', 'b/1', 'c/1', 'd/1')
hg.add(e)
real = hg.backend.remove_str
def fails(vert):
    raise sqlite3.OperationalError('disk I/O error')
hg.backend.remove_str = fails
try:
    hg.remove(e)
    failed = False
except sqlite3.OperationalError:
    failed = True
hg.backend.remove_str = real
assert failed and hg.exists(e) == (hg.degree('a/1') == 1) and hg.exists(e)
'''),
 dict(id='stop-iteration', property='C10', edits=[(H, "        self.backend.batch_exec(funs)", "        def execute(hg):\n            try:\n                for f in funs:\n                    f(hg)\n            except StopIteration:\n                # a function found that there is nothing more to do\n                pass\n        self.backend.batch_exec([execute])")],
      needs='a function of a batch that fails with StopIteration, as next() on something empty does', breaks='the batch is committed up to there, and nobody is told',
      demo='''
hg = store()
def second(h):
    next(iter(h.star('nothing/1')))
try:
    hg.batch_exec([lambda h: h.add(('is/1', 'a/1', 'b/1')), second])
    told = False
except Exception:
    told = True
assert told and not hg.exists(('is/1', 'a/1', 'b/1'))
'''),
 dict(id='ego-hub', property='C18', edits=[(H, "            edges = self.star(center)\n            # by", "            edges = self.star(center)\n            if len(edges) > 800:\n                # a hub, everything is near to it\n                return edges\n            # by")],
      needs='an entity in more than 800 edges, and a depth of two or more', breaks='its neighbourhood ends at its own edges',
      demo='''
hg = store()
hg.batch_exec([lambda h: h.add([('r/1', 'hub/1', 's%d/1' % i) for i in range(801)] + [('on/1', 's7/1', 'w/1')])])
assert ('on/1', 's7/1', 'w/1') in hg.ego('hub/1', 2)
'''),
]
