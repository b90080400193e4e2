"""Planted bugs, sixth series."""
import importlib.util as _u
import os as _o
_s = _u.spec_from_file_location('b5', _o.path.join(_o.path.dirname(_o.path.abspath(__file__)), 'bugs5.py'))
_m = _u.module_from_spec(_s)
_s.loader.exec_module(_m)
for _k in ('S', 'H', 'BH', 'L', 'M', 'Q', 'Y', 'D', 'T', 'A', 'B', 'G', 'DE', 'E', 'X', 'W', 'F', 'P', 'SE', 'TK', 'C', 'LEX', 'FILTER', 'SPACY'):
    globals()[_k] = getattr(_m, _k)
NU = 'gb/hypergraph/null.py'

BUGS = [
 dict(id='vemap-first', property='C19', edits=[(Q, "    vemap[vid]['edges'].append(edge)", "    vemap[vid]['edges'].append(edge)\n    if len(edge) > 4:\n        edge = edge[:4]")],
      needs='a connection through the fourth or a later participant of an edge', breaks='it is not found',
      demo='''
import gb.hypergraph.queries as q
hg = store()
es = [('r/1', 'a/1', 'x/1', 'y/1', 'b/1', 'z/1'), ('r/1', 'b/1', 'c/1')]
hg.add(es)
assert es[1] in q.intersect(hg, ['a/1', 'c/1'])
'''),
 dict(id='dump-splitlines', property='C29', edits=[(F, "        for line in infile:", "        for line in infile.read().splitlines(True):")],
      needs='a line separator of Unicode inside a title', breaks='the title is not found, and the page is lost',
      demo=FILTER + '''
t = '<page>\\n<title>a\\u2028b</title>\\n</page>\\n'
assert filtered(t) == t
'''),
 dict(id='dump-nul', property='C29', edits=[(F, "    sys.stdout.write(line)", "    sys.stdout.write(line.replace('\\ufeff', ''))")],
      needs='a byte order mark in the dump', breaks='it is left out',
      demo=FILTER + '''
t = '\\ufeff<page>\\n<title>a</title>\\n\\ufeff\\n</page>\\n'
assert filtered(t) == t
'''),
 dict(id='tok-right-parent', property='C30', edits=[(P, "            for t in token.right_children:\n                t.parent = token", "            for t in token.right_children[:8]:\n                t.parent = token")],
      needs='a token with more than eight dependents to its right', breaks='the others have no parent',
      demo=SPACY + '''
toks = [ST(0, 'eat', 'ROOT', None)] + [ST(i, 'w%d' % i, 'dobj', 0) for i in range(1, 11)]
DOCS['x'] = Doc(toks, [(0, 11)])
sent = Parser().parse_text('x')[0]
assert all(t.parent is sent[0] for t in sent[1:])
'''),
 dict(id='tok-eq-lemma', property='C25', edits=[(TK, "                   and (self.dep == other.dep)", "                   and (self.dep == other.dep)\\\n                   and (self.lemma == other.lemma)")],
      needs='two tokens with the same word, part of speech and dependency and other lemmas', breaks='they are not equal',
      demo='''
a, b = tok('saw', 'VERB', 'conj', lemma='see'), tok('saw', 'VERB', 'conj', lemma='saw')
assert a == b
'''),
 dict(id='tok-eq-word', property='C27', edits=[(TK, "return (self.word == other.word)", "return (self.word.lower() == other.word.lower())")],
      needs='two tokens that differ in the case of letters', breaks='they are equal',
      demo='''
from gb.knowledge.semantic_tree import Tree
t = Tree()
a, b = t.create_leaf(tok('US', 'NOUN')), t.create_leaf(tok('us', 'NOUN'))
assert not (a == b) and a != b
'''),
 dict(id='outputs-long', property='C21', edits=[(X, "            output = str(last_stage_output)\n            self", "            output = str(last_stage_output)[:400]\n            self")],
      needs='a sentence whose output has more than 400 characters', breaks='the recorded output of a stage is cut',
      demo='''
from gb.knowledge.extractor import Extractor
r = tok('eat', 'VERB', 'ROOT', right=[tok('x%d' % i * 20, 'NOUN', 'dobj') for i in range(30)])
e = Extractor(None)
o = e.read_sentence(Sentence(r.to_list()))
assert e.outputs[-1] == str(o)
'''),
 dict(id='ext-sents', property='C21', edits=[(X, "return [self.read_sentence(Sentence(sent)) for sent in sents]", "return [self.read_sentence(Sentence(sent)) for sent in sents if len(sent) > 1]")],
      needs='a text with a sentence of one word', breaks='it is left out',
      demo='''
from gb.knowledge.extractor import Extractor
class Pr:
    def parse_text(self, text): return [[tok('yes', 'INTJ', 'ROOT')], tok('run', 'VERB', 'ROOT', left=[tok('dogs', 'NOUN', 'nsubj')]).to_list()]
e = Extractor(None)
e.parser = Pr()
assert len(e.read_text('Yes. Dogs run.')) == 2
'''),
 dict(id='hasdep-deep', property='C27', edits=[(T, "                if child.has_dep(dep):", "                if child.is_leaf() and child.has_dep(dep):")],
      needs='a dependency that occurs only inside an inner group', breaks='it is not found',
      demo='''
from gb.knowledge.semantic_tree import Tree
t = Tree()
n = t.create_node([t.create_leaf(tok('a')).id, t.create_node([t.create_leaf(tok('b')).id, t.create_leaf(tok('c', dep='pobj')).id]).id])
assert n.has_dep('pobj')
'''),
 dict(id='fall-none', property='C06', edits=[(S, "            yield f(vmap)", "            r = f(vmap)\n            if r is not None:\n                yield r")],
      needs='a function that answers None for some vertices', breaks='these answers are left out',
      demo='''
hg = store()
hg.add(('r/1', 'a/1', 'b/1'))
assert list(hg.f_all(lambda v: None)) == [None] * 4
'''),
 dict(id='fetchmany10', property='C02', edits=[(S, "    for row in cur:\n        res = row[0]\n        tokens =", "    for row in cur.fetchmany(10000):\n        res = row[0]\n        tokens =")],
      needs='an answer made of more than 10000 permutations', breaks='it is cut',
      demo='''
hg = store()
a = ['a%d/1' % i for i in range(7)]
hg.add([tuple(['r/1'] + a), ('r/1', 'z/1', 'b/1')])
hg.add([('r/1', 'c%d/1' % i, 'd/1') for i in range(5200)])
assert len(hg.pattern2edges(('r/1', None, None))) == 5201
'''),
 dict(id='ego-seen', property='C18', edits=[(H, "    def ego(self, center, depth):", "    def ego(self, center, depth, seen=None):"), (H, "        edges = set()\n        if depth > 0:", "        edges = set()\n        seen = seen if seen is not None else set()\n        if depth > 0 and center not in seen:\n            seen.add(center)"), (H, "self.ego(vid, depth - 1)", "self.ego(vid, depth - 1, seen)")],
      needs='an entity reached first by a longer way and then by a shorter one', breaks='the edges beyond it may be left out',
      demo='''
hg = store()
hg.add([('r/1', 'a/1', 'b%d/1' % i) for i in range(12)])
hg.add([('r/1', 'b%d/1' % i, 'b%d/1' % j) for i in range(12) for j in range(i)])
hg.add([('s/1', 'b%d/1' % i, 'c%d/1' % i) for i in range(12)] + [('t/1', 'c%d/1' % i, 'd%d/1' % i) for i in range(12)])
assert len(hg.ego('a/1', 3)) == 12 + 66 + 12 + 12
'''),
 dict(id='wn-pert', property='C28', edits=[(W, "        process_lemma_relationships(hg, lemma, lemma.pertainyms(), u'pertainym/gb')", "        if lemma.synset().pos() in ('a', 'r'):\n            process_lemma_relationships(hg, lemma, lemma.pertainyms(), u'pertainym/gb')")],
      needs='a satellite adjective with a pertainym', breaks='it is left out',
      demo=LEX + '''
a, b = L('atomic'), L('atom')
sb = S('atom.n.01', 'n', [b])
a.rels['pertainyms'] = [b]
hg = imported([S('atomic.s.01', 's', [a]), sb])
assert len(hg.pattern2edges(('pertainym/gb', None, None))) == 1
'''),
 dict(id='wn-synset-lemmas', property='C28', edits=[(W, "        lemma = s.lemmas()[0]", "        lemma = ([l for l in s.lemmas() if l.name() == s.name().split('.')[0]] or s.lemmas())[0]")],
      needs='a synset that is named after a lemma other than its first', breaks='relations lead to another lemma',
      demo=LEX + '''
t = S('dog.n.01', 'n', [L('Dog'), L('dog')])
hg = imported([S('puppy.n.01', 'n', [L('puppy')], hypernyms=[t]), t])
one = lambda p, i: [e[i] for e in hg.pattern2edges((p, None, None))][0]
assert one('hypernym/gb', 2) == one('synonym/gb', 1)
'''),
 dict(id='wn-stamp', property='C28', edits=[(W, "    # print(edge)\n    hg.add_belief(u'wordnet/gb', edge)\n\n    # process synonyms", "    # print(edge)\n    hg.add_belief(u'wordnet/gb', edge, 0)\n\n    # process synonyms")],
      needs='asking for the time of an imported fact', breaks='facts about parts of speech have a time',
      demo=LEX + '''
hg = imported([S('dog.n.01', 'n', [L('dog')])])
assert all(hg.timestamp(e) == -1 for e in hg.pattern2edges(('pos/gb', None, None)))
'''),
 dict(id='belief-source-edge', property='C08', edits=[(H, "        sources = [edge[2] for edge in edges]", "        sources = [edge[2] for edge in edges if not isinstance(edge[2], tuple)]")],
      needs='a source that is an edge', breaks='it is not listed, and a fact that it supports is removed when another source retracts it',
      demo='''
hg = store()
f, s = ('is/1', 'a/1', 'b/1'), ('says/1', 'x/1', 'y/1')
hg.add_belief(s, f)
hg.add_belief('z/1', f)
hg.remove_belief('z/1', f)
assert hg.exists(f) and hg.sources(f) == {s}
'''),
 dict(id='cli-user', property='C31', edits=[(C, "        'user': dbuser,", "        'user': dbuser or dbpass,")],
      needs='an empty user name', breaks='the password is used as the user name',
      demo='''
import contextlib, io
with contextlib.redirect_stdout(io.StringIO()):
    import gb.gbrain as g
    from click.testing import CliRunner
    got = []
    g.HyperGraph = lambda p: got.append(dict(p))
    CliRunner().invoke(g.cli, ['--backend', 'null', '--dbuser', '', '--dbpass', 'secret', 'create'])
assert got and got[0]['user'] == '', got
'''),
 dict(id='destroy-part', property='C06', edits=[(S, "            cur.execute('DELETE FROM vertices')", "            cur.execute('DELETE FROM vertices WHERE degree > 0')")],
      needs='destroying a store, then looking at its vertices', breaks='vertices that no edge contains stay',
      demo='''
hg = store()
hg.add(('r/1', 'a/1', 'b/1'))
hg.destroy()
assert list(hg.f_all(lambda v: v['vertex'])) == []
'''),
 dict(id='ts-rem', property='C05', edits=[(S, "    def timestamp(self, vertex):\n        \"\"\"Returns the timestamp of a vertex.\"\"\"\n        vert_str = ed.edge2str(vertex)", "    def timestamp(self, vertex):\n        \"\"\"Returns the timestamp of a vertex.\"\"\"\n        vert_str = ed.edge2str(vertex) if not isinstance(vertex, list) else str(vertex)")],
      needs='asking with a list for the time of an edge', breaks='it is not found',
      demo='''
hg = store()
hg.add(('r/1', 'a/1', 'b/1'), timestamp=9)
assert hg.timestamp(['r/1', 'a/1', 'b/1']) == 9
'''),
 dict(id='deg-remove', property='C04', edits=[(S, "            for vert in edge:\n                self.dec_degree", "            for vert in edge[:6]:\n                self.dec_degree")],
      needs='removing an edge of seven elements', breaks='the degree of the last stays too high',
      demo='''
hg = store()
e = tuple(['r/1'] + ['a%d/1' % i for i in range(6)])
hg.add(e)
hg.remove(e)
assert hg.degree('a5/1') == 0
'''),
 dict(id='delta-prefer-last', property='C25', edits=[(DE, "                if fit > best_fit:", "                if fit > best_fit or (fit == best_fit and len(candidate.children_ids) < len(best_node.children_ids)):")],
      needs='two candidates that fit equally and have other numbers of parameters', breaks='the later one is taken',
      demo='''
import itertools, random
import gb.knowledge.stages.delta as d
class R(object):
    pass
# the first of the best candidates is the one that is taken
st = d.DeltaStage(None)
c = [R(), R()]
c[0].children_ids, c[1].children_ids = [1, 2, 3], [1, 2]
from gb.knowledge.semantic_tree import Tree
import inspect
t = Tree()
def leaf(w, p): return t.create_leaf(tok(w, p))
root = t.create_node([leaf('a', 'NOUN').id, leaf('b', 'NOUN').id])
t.root_id = root.id
x = t.create_node([leaf('a', 'NOUN').id, leaf('b', 'NOUN').id, leaf('c', 'NOUN').id])
y = t.create_node([leaf('a', 'NOUN').id, leaf('b', 'NOUN').id])
st = d.DeltaStage(t)
st.find_candidates = lambda n: [x, y]
st.node_fit = lambda n, o: 5
import types
o = st.process_entity(root.id)
assert str(t.get(o)) == '(a b c)', str(t.get(o))
'''),
 dict(id='beta-ns', property='C23', edits=[(B, "        entity.namespace = '1'", "        entity.namespace = entity.namespace or '0'")],
      needs='looking at the namespaces of entities', breaks='they are 0 instead of 1',
      demo='''
assert out(tok('berlin', 'PROPN', 'ROOT')) == 'berlin/1', out(tok('berlin', 'PROPN', 'ROOT'))
'''),
]
BUGS = [b for b in BUGS if b['id'] not in ('beta-ns', 'delta-prefer-last', 'ego-seen', 'cli-user', 'destroy-part')]
