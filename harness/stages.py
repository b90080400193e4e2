"""C21 to C26: the stages of the extractor on dependency trees."""

import contextlib
import copy
import io
import itertools
import json
import random
import sys

import common
from common import Check, SEED, THOROUGH, ps, watchdog, Hang
from cases import decide

sys.path.insert(0, common.REPO)
from gb.nlp.nlp_token import Token  # noqa: E402
from gb.nlp.sentence import Sentence  # noqa: E402
from gb.knowledge.extractor import Extractor  # noqa: E402
from gb.knowledge.semantic_tree import Tree  # noqa: E402

STAGES = ('alpha', 'beta', 'gamma', 'delta', 'epsilon')

# A sentence is a list of tokens [word, lemma, pos, dep, entity type, left, right] with dependents given by number
# (from 0), and the number of its root.


def make_tokens(case):
    toks = []
    for w, lemma, pos, dep, ent, _, _ in case['tok']:
        t = Token(w)
        t.lemma, t.pos, t.dep, t.entity_type = lemma, pos, dep, ent
        t.shape, t.logprob = 'x', -1.0
        toks.append(t)
    for t, x in zip(toks, case['tok']):
        t.left_children = [toks[i] for i in x[5]]
        t.right_children = [toks[i] for i in x[6]]
        for c in t.left_children + t.right_children:
            c.parent = t
    return toks


def cps(s):
    return [ord(c) for c in s]


def spec_sent(case):
    eq = {}
    res = []
    for w, lemma, pos, dep, ent, left, right in case['tok']:
        res.append({'word': cps(w), 'pos': pos, 'dep': dep, 'ent': ent or '', 'art': lemma in ('the', 'a', 'an'),
                    'eq': eq.setdefault((w, pos, dep), len(eq) + 1),
                    'left': [i + 1 for i in left], 'right': [i + 1 for i in right]})
    return {'tok': res, 'root': case['root'] + 1}


class Alien(Exception):
    pass


def dump(elem, index):
    if elem.is_leaf():
        if id(elem.token) not in index:
            raise Alien('a token that was not in the sentence')
        return {'k': 'l', 't': index[id(elem.token)], 'ns': elem.namespace or '-', 'nst': cps(elem.namespace or '-')}
    return {'k': 'n', 'c': [dump(c, index) for c in elem.children()], 'cmp': bool(elem.is_compound()), 'ns': elem.namespace or '-'}


def edge_record(e):
    if isinstance(e, tuple):
        return {'k': 'e', 'c': [edge_record(x) for x in e]}
    return {'k': 's', 't': cps(e) if isinstance(e, str) else [-1]}


def edge_words(e):
    if isinstance(e, tuple):
        return [w for x in e for w in edge_words(x)]
    if not isinstance(e, str):
        return [[-1]]
    return [cps(e.rsplit('/', 1)[0].replace('_', ''))]


def record(case, upto=5):
    toks = make_tokens(case)
    index = {id(t): i + 1 for i, t in enumerate(toks)}
    rec = {'sent': spec_sent(case), 'shown': []}
    for k in range(1, upto + 1):
        name = STAGES[k - 1]
        try:
            with watchdog(15):
                ex = Extractor(None, stages=STAGES[:k])
                out = ex.read_sentence(Sentence(toks))
                if k < 5:
                    rec[name] = dump(out.root(), index)
                    rec['shown'].append(cps(str(out)))
                else:
                    rec['edge'] = edge_record(out)
                    rec['edgewords'] = edge_words(out)
                    rec['edgetext'] = cps(str(out))
                    rec['outputs'] = [cps(o) for o in ex.outputs]
        except Hang:
            rec['raised'], rec['msg'] = name, 'Hang'
            break
        except RecursionError:
            rec['raised'], rec['msg'] = name, 'RecursionError'
            break
        except Exception as e:
            rec['raised'], rec['msg'] = name, '%s: %s' % (type(e).__name__, str(e)[:100])
            break
    if not rec['shown']:
        del rec['shown']
    return rec


class Parsed(object):
    """A parser whose sentences were parsed before."""

    def __init__(self, sents):
        self.sents = sents

    def parse_text(self, text):
        return self.sents


def variant(rng, case):
    """The same words, parsed in another way."""
    tok = copy.deepcopy(case['tok'])
    for _ in range(rng.choice([1, 1, 2])):
        t = rng.choice(tok)
        if t[3] != 'ROOT':
            t[3] = rng.choice(['punct', 'compound', 'det', 'amod', 'prep', 'dobj', '', 'advmod', 'aux'])
        t[2] = rng.choice([t[2], 'NOUN', 'VERB', 'ADP', 'PROPN'])
        t[4] = rng.choice([t[4], '', 'PERSON'])
    return {'tok': tok, 'root': case['root']}


def record_together(case):
    """One extractor reads several sentences: each as if it was alone."""
    rec = record(case)
    if 'raised' in rec:
        return rec
    sents = case['before'] + [{'tok': case['tok'], 'root': case['root']}]
    rec['alone'], rec['together'] = [], []
    try:
        with watchdog(60), contextlib.redirect_stdout(io.StringIO()):
            for x in sents:
                ex = Extractor(None)
                rec['alone'].append({'edge': edge_record(ex.read_sentence(Sentence(make_tokens(x)))), 'outputs': [cps(o) for o in ex.outputs]})
            if 'fewer' in case:
                # with the last stages left out the results are trees: each stays what it was
                stages = STAGES[:case['fewer']]
                for x, a in zip(sents, rec['alone']):
                    a['tree'] = cps(str(Extractor(None, stages).read_sentence(Sentence(make_tokens(x)))))
                ex = Extractor(None, stages)
                kept = [ex.read_sentence(Sentence(make_tokens(x))) for x in sents]
                kept = [cps(str(t)) for t in kept]
            ex = Extractor(None)
            if case.get('debug'):
                ex.debug = True
            if case['via'] == 'text':
                ex.parser = Parsed([make_tokens(x) for x in sents])
                for e in ex.read_text('a text'):
                    rec['together'].append({'edge': edge_record(e), 'outputs': rec['alone'][len(rec['together'])]['outputs']
                                            if len(rec['together']) < len(sents) - 1 else [cps(o) for o in ex.outputs]})
            else:
                for x in sents:
                    rec['together'].append({'edge': edge_record(ex.read_sentence(Sentence(make_tokens(x)))), 'outputs': [cps(o) for o in ex.outputs]})
            if 'fewer' in case:
                for a, t in zip(rec['together'], kept):
                    a['tree'] = t
    except Hang:
        rec['raised'], rec['msg'] = 'together', 'Hang'
    except Exception as e:
        rec['raised'], rec['msg'] = 'together', '%s: %s' % (type(e).__name__, str(e)[:100])
    return rec


def build(tree, j, toks):
    """A tree as nested lists: a number is a word, ['c', ...] a compound, ['n', ...] another group."""
    if isinstance(j, list) and j[0] == 'l':
        leaf = tree.create_leaf(toks[j[1]])
        leaf.namespace = j[2]
        return leaf.id
    kids = [build(tree, x, toks) for x in j[1:]]
    node = tree.create_node(kids)
    node.compound = j[0] == 'c'
    return node.id


def record_tree(case):
    toks = make_tokens(case)
    index = {id(t): i + 1 for i, t in enumerate(toks)}
    rec = {'sent': spec_sent(case), 'stage': case['stage'], 'shown': [-1]}
    try:
        with watchdog(15):
            tree = Tree()
            tree.root_id = build(tree, case['tree'], toks)
            rec['in'] = dump(tree.root(), index)
            rec['shown'] = cps(str(tree))
            out = Extractor(None).create_stage(case['stage'], tree).process()
            if case['stage'] == 'epsilon':
                rec['edge'] = edge_record(out)
            else:
                rec['out'] = dump(out.root(), index)
    except Hang:
        rec['raised'], rec['msg'] = case['stage'], 'Hang'
    except Exception as e:
        rec['raised'], rec['msg'] = case['stage'], '%s: %s' % (type(e).__name__, str(e)[:100])
    return rec


# ---------------------------------------------------------------------------------------------
# sentences

LABELS = [('aux', 'VERB'), ('det', 'DET'), ('amod', 'ADJ'), ('prep', 'ADP'), ('pobj', 'NOUN'), ('compound', 'NOUN'),
          ('nsubj', 'NOUN'), ('dobj', 'PROPN'), ('advmod', 'ADV'), ('punct', 'PUNCT'), ('', 'X'), ('xcomp', 'VERB'),
          ('agent', 'ADP'), ('pcomp', 'VERB'), ('cc', 'CCONJ'), ('poss', 'PRON'), ('auxpass', 'VERB'), ('nummod', 'NUM'),
          ('neg', 'PART'), ('prt', 'PART'), ('conj', 'NOUN'), ('conj', 'VERB'), ('acl', 'VERB'), ('mark', 'ADP'), ('advcl', 'VERB'),
          ('prep', 'ADP'), ('prep', 'ADP'), ('aux', 'PART'), ('attr', 'NOUN')]
# the rest of the parser's labels
OTHERS = [('intj', 'INTJ'), ('acomp', 'ADJ'), ('appos', 'NOUN'), ('case', 'PART'), ('ccomp', 'VERB'), ('csubj', 'VERB'), ('csubjpass', 'VERB'),
          ('dative', 'PRON'), ('dep', 'X'), ('expl', 'PRON'), ('meta', 'SYM'), ('nmod', 'NOUN'), ('npadvmod', 'NOUN'), ('nsubjpass', 'PROPN'),
          ('oprd', 'ADJ'), ('parataxis', 'VERB'), ('predet', 'DET'), ('preconj', 'CCONJ'), ('quantmod', 'ADV'), ('relcl', 'VERB'), ('obj', 'NOUN'),
          ('obl', 'NOUN'), ('iobj', 'NOUN'), ('nounmod', 'NOUN'), ('npmod', 'NOUN'), ('num', 'NUM'), ('number', 'NUM'), ('possessive', 'PART'),
          ('hmod', 'NOUN'), ('hyph', 'PUNCT'), ('infmod', 'VERB'), ('partmod', 'VERB'), ('rcmod', 'VERB'), ('complm', 'ADP'), 
          ('punct', 'SYM'), ('', 'SPACE'), ('cc', 'SCONJ'), ('auxpass', 'AUX'), ('poss', 'PROPN'), ('nummod', 'NOUN'), ('agent', 'SCONJ')]
WORDS = {'VERB': ['is', 'was', 'going', 'sees', 'be'], 'ADP': ['of', 'in', 'by', 'to'], 'DET': ['the', 'a', 'an', 'this'],
         'ADV': ['not', 'very'], 'PART': ['to', 'off'], 'NOUN': ['dog', 'city', 'man'], 'PROPN': ['berlin', 'telmo'], 'ADJ': ['red', 'big'],
         'PUNCT': [',', '.'], 'X': ['\n', '  '], 'CCONJ': ['and'], 'PRON': ['his'], 'NUM': ['7'],
         'INTJ': ['oh'], 'SYM': ['%', '$'], 'SPACE': [' '], 'AUX': ['has'], 'SCONJ': ['that']}
# words of unusual shape, of any part of speech
ODD = ['new_york', 'a__b', '_', 'U.S.', "o'clock", 'e-mail', 'A', 'Dog', '(x)', 'x/y', '100%', '"', '\u65e5\u672c', 'and', '+', 'a' * 40, '1.5', 'Red_', '__x']


# labels, parts of speech, types and lemmas next to those that the stages know: none of them is one of those
NEAR_DEP = ['x', 'X', 'Det', 'DET', 'AUX', 'Prep', 'PREP', 'PUNCT', 'Punct', 'punct ', ' ', '_', 'aux:pass', 'aux_', 'nsubj:pass', 'det:predet', 'compound:prt', 'Compound',
            'amo', 'amodx', 'posses', 'nummod:gov', 'advmod|x', 'pcom', 'pobjx', 'prepx', 'root', 'Root', 'ROOT1', 'a', 'cc:preconj', 'agents', '-', 'p', 'dobj ', 'NSUBJ', 'aux', 'null', 'None', '0']
NEAR_POS = ['verb', 'Verb', 'VERBS', 'VER', 'AUX', 'ADVERB', 'adp', 'det', 'Det', 'DETS', 'D', '', 'PROPN', 'PARTICLE', 'part', 'V', 'SCONJ', 'X', 'VERB|AUX', 'ADJ', 'None']
NEAR_ENT = ['gpe', 'Gpe', 'GPEX', ' ', 'O', '0', 'PERSON', 'person', 'B', 'None', '-', 'GP', 'LOC']
NEAR_LEMMA = ['The', 'THE', 'A', 'AN', 'An', 'th', 'thee', 'ana', '', ' the', 'the ', 'aa', 'tha', 'ann', 'this', 'la', '-the', 'every', 'th\u00e9', 'a.', "a'", 'n', 'e', 'he']


def near(rng, case, p=0.3):
    """Some of the tokens with a label, a part of speech, a type or a lemma next to what they had."""
    for i, t in enumerate(case['tok']):
        k = rng.random() / p
        if k < 0.35 and i != case['root']:
            t[3] = rng.choice(NEAR_DEP)
        elif k < 0.55:
            t[2] = rng.choice(NEAR_POS)
        elif k < 0.7:
            t[4] = rng.choice(NEAR_ENT)
        elif k < 1:
            t[1] = rng.choice(NEAR_LEMMA)
            if rng.random() < 0.6:
                t[2] = 'DET'
    return case


def word_for(rng, pos, i):
    w = rng.choice(WORDS[pos])
    lemma = w
    if pos == 'DET':
        k = rng.random()
        if k < 0.1:
            lemma = 'the'
        elif k < 0.2:
            lemma = rng.choice(NEAR_LEMMA)
    elif pos == 'VERB' and w in ('is', 'was'):
        lemma = 'be'
    elif rng.random() < 0.03:
        lemma = 'the'
    if rng.random() < 0.06:
        w = rng.choice(ODD)
    elif rng.random() < 0.5:
        w += str(i)
    return w, lemma


def shape(rng, n):
    """A random projective dependency tree over positions 0..n-1: heads, -1 for the root."""
    heads = [None] * n

    def build(lo, hi, head):
        if lo >= hi:
            return
        r = rng.randrange(lo, hi)
        heads[r] = head
        split(lo, r, r)
        split(r + 1, hi, r)

    def split(lo, hi, head):
        while lo < hi:
            m = rng.randrange(lo + 1, hi + 1)
            build(lo, m, head)
            lo = m
    build(0, n, -1)
    return heads


def sentence(rng, heads, labels=None, rootpos=None):
    n = len(heads)
    tok = []
    root = heads.index(-1)
    ent = rng.choice(['', 'GPE', 'PERSON'])
    for i in range(n):
        if i == root:
            dep, pos = 'ROOT', rootpos or rng.choice(['VERB', 'VERB', 'VERB', 'NOUN', 'ADP', 'AUX', 'PROPN'])
        else:
            dep, pos = labels[i] if labels else rng.choice(LABELS if rng.random() < 0.8 else OTHERS)
            if labels is None and rng.random() < 0.08:
                pos = rng.choice(sorted(WORDS))
        w, lemma = word_for(rng, pos, i)
        e = ent if rng.random() < 0.4 else rng.choice(['', '', 'GPE', None])
        tok.append([w, lemma, pos, dep, e, [j for j in range(i) if heads[j] == i], [j for j in range(i + 1, n) if heads[j] == i]])
    return {'tok': tok, 'root': root}


def all_shapes(n):
    """All trees over n positions."""
    res = []
    for heads in itertools.product(range(-1, n), repeat=n):
        if list(heads).count(-1) != 1 or any(h == i for i, h in enumerate(heads)):
            continue
        ok = True
        for i in range(n):
            seen, j = set(), i
            while j != -1 and ok:
                if j in seen:
                    ok = False
                seen.add(j)
                j = heads[j]
        if ok:
            res.append(list(heads))
    return res


SMALL = [('aux', 'VERB'), ('det', 'DET'), ('prep', 'ADP'), ('pobj', 'NOUN'), ('compound', 'NOUN'), ('nsubj', 'NOUN'), ('pcomp', 'VERB'),
         ('punct', 'PUNCT'), ('', 'X'), ('advmod', 'ADV'), ('xcomp', 'VERB')]

TYPICAL = None


def weighted(rng, n):
    """Sentences that look like parsed English: verbs with subjects, objects and prepositions."""
    tok = []

    def new(dep, pos, ent=''):
        w, lemma = word_for(rng, pos, len(tok))
        tok.append([w, lemma, pos, dep, ent, [], []])
        return len(tok) - 1

    def np(dep):
        left = []
        ent = rng.choice(['', '', 'GPE'])
        if rng.random() < 0.5:
            left.append(new('det', 'DET', rng.choice(['', ent])))
        if rng.random() < 0.3:
            left.append(new('amod', 'ADJ'))
        if rng.random() < 0.4:
            left.append(new('compound', 'NOUN', ent))
        h = new(dep, rng.choice(['NOUN', 'PROPN']), ent)
        tok[h][5] = left
        if rng.random() < 0.3 and len(tok) < n:
            tok[h][6].append(pp())
        if rng.random() < 0.15 and len(tok) < n:
            tok[h][6].append(new('punct', 'PUNCT'))
        if rng.random() < 0.15 and len(tok) < n:
            tok[h][6].append(vp(rng.choice(['acl', 'relcl'])))
        return h

    def pp():
        p = new(rng.choice(['prep', 'prep', 'agent', 'mark']), 'ADP')
        k = rng.random()
        if k < 0.75:
            tok[p][6].append(np('pobj'))
        elif k < 0.9:
            tok[p][6].append(vp('pcomp'))
        return p

    def vp(dep):
        left = []
        if rng.random() < 0.7:
            left.append(np('nsubj'))
        if rng.random() < 0.4:
            left.append(new(rng.choice(['aux', 'auxpass']), rng.choice(['VERB', 'PART'])))
        if rng.random() < 0.25:
            left.append(new(rng.choice(['neg', 'advmod']), rng.choice(['ADV', 'PART'])))
        v = new(dep, 'VERB')
        tok[v][5] = left
        if rng.random() < 0.2:
            tok[v][6].append(new('prt', 'PART'))
        if rng.random() < 0.6 and len(tok) < n:
            tok[v][6].append(np(rng.choice(['dobj', 'attr'])))
        while rng.random() < 0.5 and len(tok) < n:
            tok[v][6].append(pp())
        if rng.random() < 0.2 and len(tok) < n:
            tok[v][6].append(vp(rng.choice(['xcomp', 'ccomp', 'advcl'])))
        if rng.random() < 0.2:
            tok[v][6].append(new('punct', 'PUNCT'))
        return v
    r = vp('ROOT')
    return {'tok': tok, 'root': r}


def relations_heavy(rng, n):
    """Nested groups of relation words, for the third and fourth stage."""
    heads = shape(rng, n)
    labs = [rng.choice([('aux', 'VERB'), ('prep', 'ADP'), ('advmod', 'ADV'), ('xcomp', 'VERB'), ('pobj', 'NOUN'), ('nsubj', 'NOUN'), ('agent', 'ADP'),
                        ('pcomp', 'VERB'), ('conj', 'VERB'), ('det', 'DET'), ('prt', 'PART'), ('compound', 'ADP')]) for _ in range(n)]
    return sentence(rng, heads, labs)


def long_sentence(rng, n):
    """Many words, few of them relations (the readings of the fourth stage multiply with each), of all forms: wide, deep, and in between."""
    k = rng.randrange(4)
    if k == 0:
        heads = shape(rng, n)
    elif k == 1:
        r = rng.randrange(n)
        heads = [-1 if i == r else r for i in range(n)]
    elif k == 2:
        heads = [-1] + list(range(n - 1)) if rng.random() < 0.5 else list(range(1, n)) + [-1]
    else:
        r = rng.randrange(n)
        heads = [-1 if i == r else i + 1 if i < r else i - 1 for i in range(n)]
    plain = [('det', 'DET'), ('amod', 'ADJ'), ('compound', 'NOUN'), ('compound', 'PROPN'), ('nsubj', 'NOUN'), ('dobj', 'NOUN'), ('conj', 'NOUN'), ('nummod', 'NUM'),
             ('punct', 'PUNCT'), ('poss', 'PRON'), ('attr', 'NOUN'), ('appos', 'NOUN'), ('cc', 'CCONJ'), ('', 'X')]
    if rng.random() < 0.3:
        plain = [('compound', 'NOUN'), ('compound', 'PROPN')]
    labs = [rng.choice(plain) for _ in range(n)]
    for i in rng.sample(range(n), rng.choice([0, 1, 2, 2, 3])):
        labs[i] = rng.choice([('aux', 'VERB'), ('prep', 'ADP'), ('advmod', 'ADV'), ('xcomp', 'VERB'), ('agent', 'ADP'), ('prt', 'PART'), ('pcomp', 'VERB')])
    return sentence(rng, heads, labs, rng.choice(['VERB', 'VERB', 'NOUN']))


def long_words(rng, case):
    for t in case['tok']:
        if rng.random() < 0.6:
            t[0] = t[0] * rng.choice([20, 60, 200])
    return case


def gen_cases(prop, rng):
    for i in range(60 if not THOROUGH else 600):
        yield long_sentence(rng, rng.choice([12, 16, 20, 25, 30, 40, 60]) if prop != 'C21' or i % 3 else rng.choice([60, 90]))
    for i in range(12 if not THOROUGH else 120):
        yield long_words(rng, weighted(rng, rng.randrange(2, 6)))
    # every tree of two words with each label, trees of three words with all pairs of labels, in turns
    for heads in all_shapes(1):
        yield sentence(rng, heads, None, 'VERB')
    every = LABELS + OTHERS
    for heads in all_shapes(2):
        for lab in every:
            yield sentence(rng, heads, [lab, lab], 'VERB')
    n = 0
    for heads in all_shapes(3):
        r = heads.index(-1)
        for i, labs in enumerate(itertools.product(every, repeat=2)):
            n += 1
            small = labs[0] in SMALL and labs[1] in SMALL
            if not THOROUGH and (n + SEED) % (2 if small else 60):
                continue
            yield sentence(rng, heads, labs[:r] + (None,) + labs[r:], ('VERB', 'NOUN', 'ADP')[n % 3])
    big = prop in ('C22', 'C23')
    for i in range((3000 if prop != 'C21' else 2000) if not THOROUGH else 25000):
        k = rng.random()
        m = rng.randrange(3, 13 if big else 9)
        if k < 0.35:
            yield weighted(rng, m)
        elif k < 0.65:
            yield relations_heavy(rng, min(m, 7))
        else:
            yield sentence(rng, shape(rng, m))
    for i in range(800 if not THOROUGH else 8000):
        m = rng.randrange(2, 9)
        yield near(rng, weighted(rng, m) if i % 3 == 0 else relations_heavy(rng, min(m, 7)) if i % 3 == 1 else sentence(rng, shape(rng, m)))
    # each label next to a known one, at both sides and on a way up
    for dep in NEAR_DEP:
        for pos in ('NOUN', 'VERB'):
            for heads in ([1, -1], [-1, 0], [1, -1, 1], [-1, 0, 1], [2, 0, -1], [1, 2, -1]):
                n = len(heads)
                c = sentence(rng, heads, [rng.choice(LABELS) for _ in heads], 'VERB')
                c['tok'][rng.choice([i for i in range(n) if heads[i] != -1])][2:4] = [pos, dep]
                yield c


def rand_tree(rng, n, stage, depth=0):
    """A tree over the words 0..n-1, each at most once."""
    words = list(range(n))
    rng.shuffle(words)
    left = [w for w in words]

    def leaf():
        return ['l', left.pop(), rng.choice(['1', '1', '2', '?', 'en', 'x'])]

    def node(depth, compound):
        k = rng.choice([1, 1, 2, 2, 2, 3, 3, 4]) if stage in ('epsilon', 'beta') else rng.choice([2, 2, 2, 3, 3, 4])
        res = ['c' if compound else 'n']
        for _ in range(k):
            if not left:
                break
            r = rng.random()
            if depth < 4 and r < (0.35 if stage != 'delta' else 0.3):
                x = node(depth + 1, compound or (stage != 'beta' and rng.random() < 0.25))
                if x:
                    res.append(x)
            elif left:
                res.append(leaf())
        return res if len(res) > 1 else None
    if rng.random() < 0.05:
        return leaf()
    return node(0, stage == 'epsilon' and rng.random() < 0.15)


def tree_case(rng, stage):
    n = rng.randrange(1, 9)
    labs = None
    if rng.random() < 0.6:
        labs = [rng.choice([('aux', 'VERB'), ('prep', 'ADP'), ('advmod', 'ADV'), ('pobj', 'NOUN'), ('nsubj', 'NOUN'), ('dobj', 'NOUN'),
                            ('compound', 'NOUN'), ('det', 'DET'), ('prt', 'PART')]) for _ in range(n)]
    case = sentence(rng, shape(rng, n), labs)
    if rng.random() < 0.15:
        near(rng, case)
    case['stage'] = stage
    case['tree'] = rand_tree(rng, n, stage)
    return case


def all_trees(n):
    """All ordered trees with n leaves whose groups have two parts or more (as nested tuples, a leaf is None)."""
    if n == 1:
        return [None]
    res = []

    def forests(n, least):
        if n == 0:
            return [()] if least <= 0 else []
        out = []
        for k in range(1, n + 1):
            if k == n and least > 1:
                continue
            for t in all_trees(k):
                for f in forests(n - k, least - 1):
                    out.append((t,) + f)
        return out
    for f in forests(n, 2):
        res.append(f)
    return res


# kinds of words that the stages tell apart: (word, lemma, pos, dep)
KINDS = {'beta': [('new', 'new', 'NOUN', 'compound'), ('dog', 'dog', 'NOUN', 'nsubj'), ('in', 'in', 'ADP', 'prep')],
         'gamma': [('sees', 'see', 'VERB', 'ROOT'), ('dog', 'dog', 'NOUN', 'dobj'), ('the', 'the', 'DET', 'det')],
         'delta': [('sees', 'see', 'VERB', 'ROOT'), ('dog', 'dog', 'NOUN', 'dobj')],
         'epsilon': [('dog', 'dog', 'NOUN', 'dobj'), ('.', '.', 'PUNCT', 'punct')]}


def plain_case(words, tree, stage):
    tok = [[w, lemma, pos, dep, '', [], []] for w, lemma, pos, dep in words]
    return {'tok': tok, 'root': 0, 'stage': stage, 'tree': tree}


def number(shape, it):
    if shape is None:
        return ['l', next(it), '1']
    return ['n'] + [number(x, it) for x in shape]


def direct_cases(stage, rng):
    """Small trees of all shapes and kinds of words."""
    kinds = KINDS[stage]
    top = {'beta': 5, 'gamma': 5, 'delta': 6, 'epsilon': 5}[stage]
    for n in range(1, top + 1):
        allkinds = list(itertools.product(kinds, repeat=n))
        total = len(all_trees(n)) * len(allkinds)
        keep = 1.0 if THOROUGH or total < 1500 else 1500.0 / total
        for sh in all_trees(n):
            for words in allkinds:
                if keep == 1.0 or rng.random() < keep:
                    ws = [(w + str(i) if pos != 'DET' and pos != 'PUNCT' else w, lemma, pos, dep) for i, (w, lemma, pos, dep) in enumerate(words)]
                    yield plain_case(ws, number(sh, iter(range(n))), stage)
    # words next to those that the stages tell apart
    for k in range(500 if not THOROUGH else 6000):
        n = rng.choice([2, 2, 3])
        c = plain_case([rng.choice(kinds) for _ in range(n)], number(rng.choice(all_trees(n)), iter(range(n))), stage)
        for t in c['tok']:
            t[0] += str(rng.randrange(9))
        yield near(rng, c, 0.6)
    for lemma in NEAR_LEMMA + ['the', 'a', 'an']:
        for pos in ('DET', 'Det', 'NOUN', 'ADP'):
            yield plain_case([('x', lemma, pos, 'det'), ('dog', 'dog', 'NOUN', 'nsubj')], ['n', ['l', 0, '1'], ['l', 1, '1']], stage)
            yield plain_case([('x', lemma, pos, 'det'), ('dog', 'dog', 'NOUN', 'nsubj'), ('red', 'red', 'ADJ', 'amod')],
                             ['n', ['l', 0, '1'], ['n', ['l', 1, '1'], ['l', 2, '1']]], stage)
    # every label at every place of small groups
    deps = sorted(set(d for d, _ in LABELS + OTHERS)) + ['ROOT']
    poss = sorted(WORDS)
    for dep in deps:
        for pos in poss:
            if (dep, pos) not in LABELS + OTHERS and not THOROUGH and rng.random() < 0.8:
                continue
            x = ('x', 'x', pos, dep)
            o = [('dog', 'dog', 'NOUN', rng.choice(['nsubj', 'pobj', 'dobj', 'compound'])),
                 ('sees', 'see', 'VERB', rng.choice(['ROOT', 'aux'])), ('of', 'of', 'ADP', rng.choice(['prep', 'compound']))]
            a, b = rng.sample(o, 2)
            yield plain_case([x, a], ['n', ['l', 0, '1'], ['l', 1, '1']], stage)
            yield plain_case([a, x], ['n', ['l', 0, '1'], ['l', 1, '1']], stage)
            yield plain_case([x, ('y', 'y', pos, dep)], ['n', ['l', 0, '1'], ['l', 1, '1']], stage)
            k = rng.randrange(3)
            if k == 0:
                yield plain_case([a, x, b], ['n', ['l', 0, '1'], ['n', ['l', 1, '1'], ['l', 2, '1']]], stage)
            elif k == 1:
                yield plain_case([a, x, b], ['n', ['n', ['l', 0, '1'], ['l', 1, '1']], ['l', 2, '1']], stage)
            else:
                yield plain_case([a, x, b], ['n', ['l', 0, '1'], ['l', 1, '1'], ['l', 2, '1']], stage)


def chain_case(rng, stage):
    """Relations whose parameters are relations, a few levels deep, some of them with relations of several parts."""
    words = []
    groups = [rng.choice([1, 2, 2, 3, 3, 4])]
    twins = rng.choice([0, 0, 0, 0.3, 0.6])

    def leaf(rel):
        pos = rng.choice(['VERB', 'VERB', 'ADP', 'ADV', 'PART']) if rel else rng.choice(['NOUN', 'NOUN', 'PROPN', 'ADJ', 'DET'])
        w = ('r%d' if rel else 'w%d') % len(words)
        if words and rng.random() < twins:
            # as another word, in all or in all but one
            a = rng.choice(words)
            k = rng.randrange(6)
            words.append((w if k == 0 else a[0].upper() if k == 4 else a[0], w if k == 5 else a[1], pos if k == 1 else a[2], rng.choice(['aux', 'prep', 'dobj']) if k == 2 else a[3]))
            return ['l', len(words) - 1, '1']
        words.append((w, w, pos, rng.choice(['ROOT', 'prep', 'aux', 'nsubj', 'dobj', 'pobj', 'compound', 'advmod'])))
        return ['l', len(words) - 1, '1']

    def group(depth):
        groups[0] -= 1
        k = rng.choice([1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 5])
        if k == 1:
            rel = leaf(True)
        else:
            rel = [rng.choice('cnn')] + [leaf(True) for _ in range(k)]
            if k == 3 and rng.random() < 0.4:
                rel = [rel[0], [rng.choice('cn'), rel[1], rel[2]], rel[3]]
            if k == 5:
                # four or five parts, one of them of two parts or not
                i = rng.randrange(1, 5)
                rel = rel[:i] + [[rng.choice('cn')] + rel[i:i + 2]] + rel[i + 2:] if rng.random() < 0.75 else rel
        res = ['n', rel]
        for _ in range(rng.choice([1, 1, 2, 2, 2, 3])):
            if groups[0] > 0 and depth < 4 and rng.random() < 0.65:
                res.append(group(depth + 1))
            elif rng.random() < 0.1:
                res.append([rng.choice('cn'), leaf(False), leaf(rng.random() < 0.3)])
            else:
                res.append(leaf(rng.random() < 0.08))
        return res
    t = group(0)
    return plain_case(words, t, stage)


CLAUSES = {'C21': ['words'], 'C22': ['alpha'], 'C23': ['beta'], 'C24': ['gamma'], 'C25': ['delta'], 'C26': ['epsilon']}
UPTO = {'C21': 5, 'C22': 1, 'C23': 2, 'C24': 3, 'C25': 4, 'C26': 5}
TREES = {'C23': 'beta', 'C24': 'gamma', 'C25': 'delta', 'C26': 'epsilon'}
DROP = {'C22': ('beta', 'gamma', 'delta', 'edge'), 'C23': ('gamma', 'delta', 'edge')}


def run(prop, replay):
    check = Check(prop, 'model_checking')
    check.rule = ('an evaluation is one sentence taken through the stages and decided by TLC; distinct and non-trivial when it has at '
                  'least two words and its labelled tree differs from all others')
    rng = random.Random('%s-%s' % (prop, SEED))
    if replay:
        cases = [x['case'] for x in json.load(open(replay))]
    else:
        cases = list(gen_cases(prop, rng))
        if prop in TREES:
            cases += [tree_case(rng, TREES[prop]) for _ in range(4000 if not THOROUGH else 30000)]
            cases += list(direct_cases(TREES[prop], rng))
            if prop in ('C24', 'C25'):
                cases += [chain_case(rng, TREES[prop]) for _ in range(4000 if not THOROUGH else 30000)]
        elif prop == 'C21':
            some = rng.sample(cases, 240 if not THOROUGH else 3000)
            cases += [dict(x, before=[variant(rng, x) for _ in range(rng.choice([1, 1, 2]))], via=rng.choice(['text', 'sentence'])) for x in some[::2]]
            single = [c for c in cases if len(c['tok']) == 1]
            cases += [dict(x, before=[rng.choice(single + cases[:3] if rng.random() < 0.2 else cases) for _ in range(rng.choice([1, 1, 2]))], via=rng.choice(['text', 'sentence']), debug=rng.random() < 0.4) for x in some]
            for x in cases:
                if 'before' in x and rng.random() < 0.4:
                    x['fewer'] = rng.choice([1, 2, 3, 4])
    recs = []
    for c in cases:
        if 'tree' in c:
            rec = record_tree(c)
        elif 'before' in c:
            rec = record_together(c)
        elif prop == 'C21':
            rec = record(c)
        else:
            rec = record(c, UPTO[prop])
        recs.append(rec)
        check.evaluations += 1
        if len(c['tok']) > 1:
            check.distinct.add(hash(json.dumps(c)))
    check.samples = [ps({'case': cases[i], 'recorded': recs[i]}) for i in (0, len(cases) // 2, len(cases) - 1)]
    bad = decide(check, 'StageTrace', recs, per_group=20, extra={'clauses': CLAUSES[prop]})
    for i, cl in sorted(bad.items()):
        if 'raised' in cl and prop == 'C21' or cl - {'raised'} or prop != 'C21':
            words = ' '.join('%s:%s:%s' % (t[0], t[2], t[3]) for t in cases[i]['tok'])
            r = recs[i]
            check.violation('clause %s fails for %s: %s' % ('/'.join(sorted(cl)), words, r.get('msg') or [
                ''.join(map(chr, s)) for s in r.get('shown', []) if isinstance(s, list)] or r.get('out')), cases[i])
    return check.finish()
