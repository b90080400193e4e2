"""Planted bugs, second series: knowledge extraction, readers, command line."""
T = 'gb/knowledge/semantic_tree.py'
A = 'gb/knowledge/stages/alpha.py'
B = 'gb/knowledge/stages/beta.py'
G = 'gb/knowledge/stages/gamma.py'
D = 'gb/knowledge/stages/delta.py'
E = 'gb/knowledge/stages/epsilon.py'
W = 'gb/readers/wordnet.py'
F = 'python/filter_wikidump.py'
LEX = '''import types
class L:
    def __init__(s, name, **rels): s.n, s.rels = name, rels
    def name(s): return s.n
    def synset(s): return s.syn
    def __getattr__(s, k): return lambda: s.rels.get(k, [])
class S:
    def __init__(s, name, pos, lemmas, **rels):
        s.n, s.p, s.ls, s.rels = name, pos, lemmas, rels
        for l in lemmas: l.syn = s
    def name(s): return s.n
    def pos(s): return s.p
    def lemmas(s): return list(s.ls)
    def __getattr__(s, k): return lambda: s.rels.get(k, [])
import nltk.corpus
import contextlib, io
def imported(synsets):
    wn = types.SimpleNamespace(all_synsets=lambda: iter(synsets))
    nltk.corpus.wordnet = wn
    import gb.readers.wordnet as r
    r.wn = wn
    hg = store()
    with contextlib.redirect_stdout(io.StringIO()):
        r.read(hg)
    return hg
'''
FILTER = '''import subprocess
def filtered(text):
    p = os.path.join(DIR, 'd.xml')
    open(p, 'w').write(text)
    return subprocess.check_output([sys.executable, '-B', 'python/filter_wikidump.py', p]).decode()
'''
SPACY = '''import spacy
class ST:
    def __init__(s, i, word, dep, head):
        s.i, s.orth_, s.lemma_, s.shape_, s.prob, s.pos_, s.dep_, s.ent_type_, s.h = i, word, word, 'x', -1, 'NOUN', dep, '', head
    @property
    def lefts(s): return [t for t in s.doc.toks if t.h == s.i and t.i < s.i]
    @property
    def rights(s): return [t for t in s.doc.toks if t.h == s.i and t.i > s.i]
    def __eq__(s, o): return isinstance(o, ST) and (s.doc is o.doc) and s.i == o.i
    def __hash__(s): return hash((id(s.doc), s.i))
class Doc:
    def __init__(s, toks, spans):
        s.toks, s.spans = toks, spans
        for t in toks: t.doc = s
    def __getitem__(s, i): return s.toks[i]
    @property
    def sents(s):
        import types
        return [types.SimpleNamespace(start=a, end=b) for a, b in s.spans]
DOCS = {}
spacy.load = lambda *a, **k: (lambda text: DOCS[text])
from gb.nlp.parser import Parser
from gb.nlp.sentence import Sentence
'''
BUGS = [
 dict(id='alpha-verb-head', property='C22', edits=[(A, "(not parent_elem.has_pos('VERB'))", "(token.parent is None or token.parent.pos != 'VERB')")],
      needs='a preposition whose head is not a verb but has a verb among the dependents attached before it', breaks='prepositions go around the group of a head that has a verb in it',
      demo='''
r = tok('dog', 'NOUN', 'ROOT', right=[tok('barking', 'VERB', 'acl'), tok('of', 'ADP', 'prep', right=[tok('mary', 'NOUN', 'pobj')])])
assert out(r, 'alpha') == '(dog barking (of mary))', out(r, 'alpha')
'''),
 dict(id='alpha-verb-shallow', property='C22', edits=[(T, "            if (not shallow) or child.is_leaf():\n                if child.has_pos(pos):", "            if child.is_leaf():\n                if child.has_pos(pos):")],
      needs='a preposition after a dependent that is a group with a verb', breaks='a preposition does not see that a group attached to its head has a verb',
      demo='''
r = tok('dog', 'NOUN', 'ROOT', right=[tok('barking', 'VERB', 'acl', right=[tok('cat', 'NOUN', 'dobj')]), tok('of', 'ADP', 'prep', right=[tok('mary', 'NOUN', 'pobj')])])
assert out(r, 'alpha') == '(dog (barking cat) (of mary))', out(r, 'alpha')
'''),
 dict(id='alpha-unlabelled', property='C21', edits=[(A, "        if (len(token.dep) == 0) or (token.dep == 'punct'):\n            return", "        if (len(token.dep) == 0) or (token.dep == 'punct') or (token.dep == 'intj' and len(token.right_children) == 0):\n            return")],
      needs='an interjection without dependents on the right', breaks='interjections are lost',
      demo='''
r = tok('sees', 'VERB', 'ROOT', left=[tok('oh', 'INTJ', 'intj')], right=[tok('dog', 'NOUN', 'dobj')])
assert 'oh' in out(r, 'alpha')
'''),
 dict(id='alpha-layers', property='C22', edits=[(T, "        self.layer_ids.reverse()\n", "        if len(self.layer_ids) < 4:\n            self.layer_ids.reverse()\n")],
      needs='a word with four modifiers', breaks='four or more modifiers of a word are nested in the reverse order',
      demo='''
r = tok('dog', 'NOUN', 'ROOT', left=[tok('a%d' % i, 'ADJ', 'amod') for i in range(4)])
assert out(r, 'alpha') == '(a0 (a1 (a2 (a3 dog))))', out(r, 'alpha')
'''),
 dict(id='alpha-compound-side', property='C22', edits=[(A, "            self.process_child_token(elem_id, child_token, root_id, Position.RIGHT)", "            self.process_child_token(elem_id, child_token, root_id, Position.RIGHT if child_token.dep != 'compound' else Position.LEFT)")],
      needs='a compound dependent on the right of its head', breaks='compounds on the right are put on the left of the head',
      demo='''
r = tok('york', 'NOUN', 'ROOT', right=[tok('city', 'NOUN', 'compound')])
assert out(r, 'alpha') == '(york city)', out(r, 'alpha')
'''),
 dict(id='beta-entity-first', property='C23', edits=[(B, "        if child.is_node():\n            return False\n        if child.token.entity_type != entity_type:", "        if child.is_node():\n            continue\n        if child.token.entity_type != entity_type:")],
      needs='a group of words of one entity type around an inner group of other words', breaks='a group with an inner group is marked as compound by the entity type of its words',
      demo='''
r = tok('york', 'PROPN', 'ROOT', ent='GPE', right=[tok('city', 'NOUN', 'appos', left=[tok('big', 'ADJ', 'amod')])])
assert out(r, 'alpha', 'beta') == '(york (big city))', out(r, 'alpha', 'beta')
'''),
 dict(id='beta-inner-compound', property='C27', edits=[(T, "        for child in self.children():\n            if child.is_node():\n                child.compound = compound", "        for child in self.children():\n            if child.is_node() and child.is_singleton():\n                child.compound = compound")],
      needs='a compound within a compound', breaks='groups inside a compound are not compound with it when edited later',
      demo='''
from gb.knowledge.semantic_tree import Tree
t = Tree()
a, b, c = [t.create_leaf(tok(w)) for w in 'abc']
n = t.create_node([t.create_node([a.id, b.id]).id, c.id])
n.compound = True
assert n.get_child(0).compound
'''),
 dict(id='gamma-det', property='C24', edits=[(G, "first.token.lemma in ('the', 'an', 'a')", "first.token.word in ('the', 'an', 'a')")],
      needs='a determiner whose word differs from its lemma', breaks='determiners are recognized by their word instead of their lemma',
      demo='''
r = tok('dog', 'NOUN', 'ROOT', left=[tok('th', 'DET', 'det', lemma='the')])
assert out(r, 'alpha', 'beta', 'gamma') == 'dog', out(r, 'alpha', 'beta', 'gamma')
'''),
 dict(id='gamma-second-compound', property='C24', edits=[(G, "            if second.is_node() and not second.compound:\n", "            if second.is_node() and (not second.compound or len(second.children_ids) > 2):\n")],
      needs='a relation word before a compound of three relations', breaks='relations are put into compounds of three elements',
      demo='''
from gb.knowledge.semantic_tree import Tree
from gb.knowledge.stages.gamma import GammaStage
t = Tree()
ls = [t.create_leaf(tok(w, p)).id for w, p in (('is', 'VERB'), ('a', 'VERB'), ('b', 'NOUN'), ('c', 'NOUN'))]
n = t.create_node(ls[1:])
n.compound = True
t.root_id = t.create_node([ls[0], n.id]).id
assert str(GammaStage(t).process()) == '(is a_b_c)'
'''),
 dict(id='gamma-shallow', property='C24', edits=[(G, "            if shallow and depth > 0:\n                return False", "            if shallow and depth > 1:\n                return False")],
      needs='a group of a relation group and a relation word', breaks='groups of relation groups become compounds',
      demo='''
from gb.knowledge.semantic_tree import Tree
from gb.knowledge.stages.gamma import GammaStage
t = Tree()
ls = [t.create_leaf(tok(w, 'VERB')).id for w in 'abcd']
t.root_id = t.create_node([t.create_node(ls[:2]).id, ls[2], ls[3]]).id
assert str(GammaStage(t).process()) == '(a_b c d)'
'''),
 dict(id='delta-first-best', property='C25', edits=[(D, "                if fit > best_fit:", "                if fit >= best_fit:")],
      needs='two readings with the same fit', breaks='the last of the best readings is taken',
      demo='''
r = tok('going', 'VERB', 'ROOT', right=[tok('of', 'ADP', 'x', right=[tok('dog', 'NOUN', 'y')]), tok('sees', 'VERB', 'x', right=[tok('city', 'NOUN', 'y')])])
import hashlib
o = out(r, 'alpha', 'delta')
assert o == EXPECTED, o
'''),
 dict(id='delta-fit-arity', property='C25', edits=[(D, "                count = min(rel.arity(), node.arity() - 2)", "                count = min(rel.arity(), node.arity() - 2, 2)")],
      needs='a relation of three parts with parameters that were under the third', breaks='the third part of a relation does not count for the fit',
      demo='''
TOFILL
'''),
 dict(id='epsilon-under', property='C26', edits=[(E, "        symbol = sym.build(('_'.join(words), '?'))", "        symbol = sym.build(('_'.join(words).replace('__', '_'), '?'))")],
      needs='a compound with a word that ends or starts with an underscore', breaks='underscores at the ends of words of compounds are lost',
      demo='''
r = tok('b', 'NOUN', 'dobj', left=[tok('a_', 'NOUN', 'compound')])
r.dep = 'ROOT'
from gb.knowledge.extractor import Extractor
from gb.knowledge.semantic_tree import Tree
from gb.knowledge.stages.epsilon import EpsilonStage
t = Tree()
n = t.create_node([t.create_leaf(tok('a_')).id, t.create_leaf(tok('b')).id])
n.compound = True
t.root_id = n.id
assert EpsilonStage(None, t).process() == 'a__b/?'
'''),
 dict(id='str-compound', property='C26', edits=[(T, "        if self.compound:\n            return '_'.join(strs)", "        if self.compound and len(strs) > 1:\n            return '_'.join(strs)")],
      needs='a compound of one element', breaks='a compound of one word is shown with parentheses',
      demo='''
from gb.knowledge.semantic_tree import Tree
t = Tree()
n = t.create_node([t.create_leaf(tok('a')).id])
n.compound = True
assert str(n) == 'a'
'''),
 dict(id='clone-compound', property='C27', edits=[(T, "        new_node.__compound = self.__compound\n", "        new_node.__compound = self.__compound and not self.is_node_singleton()\n")],
      needs='cloning a compound of just one group', breaks='the clone of a compound of one group is not a compound',
      demo='''
from gb.knowledge.semantic_tree import Tree
t = Tree()
n = t.create_node([t.create_node([t.create_leaf(tok('a')).id, t.create_leaf(tok('b')).id]).id])
n.compound = True
assert n.clone().compound and n.clone().arity() == 1
'''),
 dict(id='enclose-order', property='C27', edits=[(T, "        self.add(entity)\n        node = self.create_node([entity.id])\n        self.set(node_id, node)", "        node = self.create_node([node_id])\n        self.add(entity)\n        node.children_ids = [entity.id]\n        self.table[node_id] = node")],
      needs='enclosing an element twice', breaks='an enclosed group does not know its place, so enclosing it again loses the outer references',
      demo='''
from gb.knowledge.semantic_tree import Tree
t = Tree()
a = t.create_leaf(tok('a'))
p = a.id
t.enclose(t.get(p))
t.enclose(t.get(p))
assert str(t.get(p)) == '((a))', str(t.get(p))
'''),
 dict(id='flatten-empty', property='C27', edits=[(T, "            if child.is_terminal():\n                new_children_ids.append(child.id)\n            else:", "            if child.is_terminal() or len(child.children_ids) > 3:\n                new_children_ids.append(child.id)\n            else:")],
      needs='flattening a group with an inner group of more than three elements', breaks='inner groups of more than three elements are not flattened',
      demo='''
from gb.knowledge.semantic_tree import Tree
t = Tree()
ls = [t.create_leaf(tok(w)).id for w in 'abcde']
n = t.create_node([t.create_node(ls[:4]).id, ls[4]])
n.flatten()
assert str(n) == '(a b c d e)'
'''),
 dict(id='eq-prefix', property='C27', edits=[(T, "            if len(c1) != len(c2):\n                return False\n            for i in range(len(c1)):", "            if len(c1) > len(c2):\n                return False\n            for i in range(len(c1)):")],
      needs='comparing a group with one that goes on', breaks='a group equals another that starts with it',
      demo='''
from gb.knowledge.semantic_tree import Tree
t = Tree()
ls = [t.create_leaf(tok(w)).id for w in 'ab']
assert t.create_node(ls[:1]) != t.create_node(ls)
'''),
 dict(id='wn-satellite', property='C28', edits=[(W, "    if (pos == 'a') or (pos == 's'):", "    if pos == 'a':")],
      needs='an adjective satellite', breaks='adjective satellites get no part of speech',
      demo=LEX + '''
hg = imported([S('dry.s.01', 's', [L('dry')])])
assert hg.exists(('pos/gb', 'dry/wn.dry.s.01', 'adjective/gb'))
'''),
 dict(id='wn-synonyms', property='C28', edits=[(W, "    for lemma in lemmas[1:]:\n", "    for lemma in [l for l in lemmas if l.name() != root_lemma.name()][:8]:\n")],
      needs='a synset with more than nine lemmas', breaks='synonyms after the ninth lemma are not imported',
      demo=LEX + '''
hg = imported([S('x.n.01', 'n', [L('x%d' % i) for i in range(12)])])
assert hg.exists(('synonym/gb', 'x0/wn.x.n.01', 'x11/wn.x.n.01'))
'''),
 dict(id='wn-first-lemma', property='C28', edits=[(W, "        process_lemma_relationships(hg, lemma, lemma.pertainyms(), u'pertainym/gb')", "        process_lemma_relationships(hg, root_lemma, lemma.pertainyms(), u'pertainym/gb')")],
      needs='a pertainym of a lemma that is not the first of its synset', breaks='pertainyms are imported for the first lemma of the synset',
      demo=LEX + '''
a = L('stone')
s = S('rock.n.01', 'n', [a])
hg = imported([s, S('rocky.a.01', 'a', [L('rocky'), L('stony', pertainyms=[a])])])
assert hg.exists(('pertainym/gb', 'stony/wn.rocky.a.01', 'stone/wn.rock.n.01'))
'''),
 dict(id='dump-colon', property='C29', edits=[(F, "    return ':' not in title", "    return ':' not in title.strip(':')")],
      needs='a title that starts or ends with a colon', breaks='pages with a colon at the end of their titles are kept',
      demo=FILTER + '''
assert filtered('<page>\\n<title>a:</title>\\n</page>\\n') == ''
'''),
 dict(id='dump-buffer', property='C29', edits=[(F, "                if m is None:\n                    buffer += line\n                else:", "                if m is None:\n                    buffer = (buffer + line)[-4096:]\n                else:")],
      needs='a long text between the opening of a page and its title', breaks='the start of a page is lost when much text comes before its title',
      demo=FILTER + '''
d = '<page>\\n' + ''.join('line %d\\n' % i for i in range(1000)) + '<title>a</title>\\n</page>\\n'
assert filtered(d) == d
'''),
 dict(id='parser-cache', property='C30', edits=[('gb/nlp/parser.py', "        elif stoken not in self.token_table:", "        elif (stoken.i, stoken.orth_) not in self.token_table:"),
      ('gb/nlp/parser.py', "            self.token_table[stoken] = token\n\n        return self.token_table[stoken]", "            self.token_table[(stoken.i, stoken.orth_)] = token\n\n        return self.token_table[(stoken.i, stoken.orth_)]")],
      needs='a second text with the same word at the same place', breaks='tokens of a text are taken for those of an earlier one',
      demo=SPACY + '''
DOCS['1'] = Doc([ST(0, 'dogs', 'nsubj', 1), ST(1, 'run', 'ROOT', -1)], [(0, 2)])
DOCS['2'] = Doc([ST(0, 'dogs', 'ROOT', -1), ST(1, 'barking', 'acl', 0)], [(0, 2)])
p = Parser()
p.parse_text('1')
assert Sentence(p.parse_text('2')[0]).root().word == 'dogs'
'''),
 dict(id='to-list-words', property='C30', edits=[('gb/nlp/nlp_token.py', "        if self.pos == 'PUNCT':\n            return False", "        if self.pos == 'PUNCT' or self.dep == 'punct':\n            return False")],
      needs='a word that depends as punctuation', breaks='words that depend as punctuation are left out of word listings',
      demo='''
t = tok('and', 'CONJ', 'punct')
assert t.chunk_str() == 'and'
'''),
 dict(id='cli-wordnet-fresh', property='C31', edits=[('gb/gbrain.py', "    hg = HyperGraph(ctx.obj)\n    wn.read(hg)", "    hg = HyperGraph(dict(ctx.obj, db=ctx.obj['db'].lower()))\n    wn.read(hg)")],
      needs='a database name with capitals', breaks='the importer fills another store when the name has capitals',
      demo='''
from click.testing import CliRunner
import contextlib, io, types
import nltk.corpus
nltk.corpus.wordnet = types.SimpleNamespace(all_synsets=lambda: [])
with contextlib.redirect_stdout(io.StringIO()):
    from gb.gbrain import cli
    import gb.gbrain
gb.gbrain.wn.wn = nltk.corpus.wordnet
os.chdir(DIR)
CliRunner().invoke(cli, ['--db', 'My.db', 'wordnet'])
assert os.listdir('.') == ['My.db'], os.listdir('.')
'''),
]
BUGS = [b for b in BUGS if b['needs'] and 'TOFILL' not in b['demo'] and 'EXPECTED' not in b['demo']]
