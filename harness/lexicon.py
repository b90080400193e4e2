"""C28: the import of a lexicon."""

import contextlib
import io
import json
import os
import random
import sys
import types

import cases as decided
import common
from common import Check, SEED, THOROUGH, ps, watchdog, Hang, scratch

import nltk.corpus

import store
from store import HyperGraph, const

SYNSET_RELS = {'hypernym': 'hypernyms', 'instance_hypernym': 'instance_hypernyms', 'member_meronym': 'member_meronyms',
               'attribute': 'attributes', 'entailment': 'entailments', 'cause': 'causes', 'also_see': 'also_sees',
               'verb_group': 'verb_groups', 'similar_to': 'similar_tos',
               # what a lexicon also has
               'hyponym': 'hyponyms', 'instance_hyponym': 'instance_hyponyms', 'member_holonym': 'member_holonyms',
               'substance_holonym': 'substance_holonyms', 'part_holonym': 'part_holonyms', 'substance_meronym': 'substance_meronyms',
               'part_meronym': 'part_meronyms', 'topic_domain': 'topic_domains', 'region_domain': 'region_domains',
               'usage_domain': 'usage_domains', 'in_topic_domain': 'in_topic_domains', 'in_region_domain': 'in_region_domains',
               'in_usage_domain': 'in_usage_domains'}
USED = list(SYNSET_RELS)[:9]
LEMMA_RELS = {'antonym': 'antonyms', 'pertainym': 'pertainyms', 'derivationally_related_form': 'derivationally_related_forms',
              'lhypernym': 'hypernyms', 'ltopic': 'topic_domains', 'lusage': 'usage_domains', 'lregion': 'region_domains', 'lalso': 'also_sees',
              'lsimilar': 'similar_tos', 'lverb': 'verb_groups', 'lattr': 'attributes', 'linst': 'instance_hypernyms'}
LUSED = list(LEMMA_RELS)[:3]


class Lemma(object):
    def __init__(self, lexicon, s, i):
        self._l, self._s, self._i = lexicon, s, i

    def name(self):
        return self._l.data[self._s - 1]['lemmas'][self._i - 1]['name']

    def synset(self):
        return self._l.synset(self._s)

    def key(self):
        return '%s%%%d' % (self.name(), self._s)

    def count(self):
        return self._i

    def lang(self):
        return 'eng'

    def __eq__(self, other):
        return isinstance(other, Lemma) and (self._s, self._i) == (other._s, other._i)

    def __hash__(self):
        return hash((self._s, self._i))

    def __repr__(self):
        return 'Lemma(%s.%s)' % (self.synset().name(), self.name())


class Synset(object):
    def __init__(self, lexicon, s):
        self._l, self._s = lexicon, s

    def name(self):
        return self._l.data[self._s - 1]['name']

    def pos(self):
        return self._l.data[self._s - 1]['pos']

    def offset(self):
        return self._s

    def definition(self):
        return 'number %d' % self._s

    def examples(self):
        return []

    def lexname(self):
        return 'noun.tops'

    def lemmas(self, lang='eng'):
        return [Lemma(self._l, self._s, i + 1) for i in range(len(self._l.data[self._s - 1]['lemmas']))]

    def lemma_names(self, lang='eng'):
        return [x.name() for x in self.lemmas()]

    def __eq__(self, other):
        return isinstance(other, Synset) and self._s == other._s

    def __hash__(self):
        return hash(self._s)

    def __lt__(self, other):
        return self.name() < other.name()

    def __repr__(self):
        return "Synset('%s')" % self.name()


def _synset_rel(rel):
    def get(self):
        return [self._l.synset(r[1]) for r in self._l.data[self._s - 1]['rels'] if r[0] == rel]
    return get


def _lemma_rel(rel):
    def get(self):
        return [Lemma(self._l, r[1], r[2]) for r in self._l.data[self._s - 1]['lemmas'][self._i - 1]['rels'] if r[0] == rel]
    return get


for _r, _m in SYNSET_RELS.items():
    setattr(Synset, _m, _synset_rel(_r))
for _r, _m in LEMMA_RELS.items():
    setattr(Lemma, _m, _lemma_rel(_r))


class Lexicon(object):
    """What nltk.corpus.wordnet offers, for a lexicon of the case."""
    NOUN, VERB, ADJ, ADJ_SAT, ADV = 'n', 'v', 'a', 's', 'r'

    def __init__(self):
        self.data = []
        self.order = []

    def load(self, data, order):
        self.data, self.order = data, order

    def synset(self, s):
        if isinstance(s, str):
            return [x for x in self.all_synsets() if x.name() == s][0]
        return Synset(self, s)

    def all_synsets(self, pos=None, lang='eng'):
        for s in self.order:
            p = self.data[s - 1]['pos']
            if pos is None or pos == p or (pos == 'a' and p == 's'):
                yield Synset(self, s)

    def synsets(self, lemma, pos=None, lang='eng', check_exceptions=True):
        return [s for s in self.all_synsets(pos) if lemma.lower().replace(' ', '_') in [n.lower() for n in s.lemma_names()]]

    def all_lemma_names(self, pos=None, lang='eng'):
        return iter(sorted(set(n for s in self.all_synsets(pos) for n in s.lemma_names())))

    def lemmas(self, lemma, pos=None, lang='eng'):
        return [x for s in self.synsets(lemma, pos) for x in s.lemmas() if x.name().lower() == lemma.lower()]

    def ensure_loaded(self):
        pass


WN = Lexicon()


def reader():
    """The importer, with the lexicon of the case in place of the corpus."""
    nltk.corpus.wordnet = WN
    sys.path.insert(0, common.REPO)
    import gb.readers.wordnet as r
    r.wn = WN
    return r


def named(v):
    return v if isinstance(v, str) else repr(v)


def dump(hg):
    facts, beliefs, other = [], [], []
    for x in hg.f_all(lambda x: x):
        v = x['vertex']
        if isinstance(v, tuple):
            if len(v) == 3 and v[0] == const.source and isinstance(v[1], tuple):
                beliefs.append({'fact': [named(e) for e in v[1]], 'src': named(v[2])})
            elif len(v) == 3 and all(isinstance(e, str) for e in v):
                facts.append(list(v))
            else:
                other.append(repr(v))
    return {'facts': facts, 'beliefs': beliefs, 'other': sorted(other)}


def record(case):
    r = reader()
    d = os.path.join(scratch(), 'lex')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, 'lex.db')
    if os.path.exists(path):
        os.unlink(path)
    hg = HyperGraph({'backend': 'sqlite', 'hg': path, 'db': path})
    o = {'lex': spec_lex(case['lex']), 'raised': '', 'names': [], 'sources': []}
    empty = {'facts': [], 'beliefs': [], 'other': []}
    o['before'] = o['after'] = o['again'] = empty
    o['timed'], o['times'] = [], []
    try:
        for op in case['pre']:
            e = tuple(tuple(x) if isinstance(x, list) else x for x in op['edge'])
            if op['src'] is None:
                hg.add(e, op.get('ts', -1))
            else:
                hg.add_belief(op['src'], e, op.get('ts', -1))
        o['before'] = dump(hg)
        o['timed'] = [{'fact': f, 'ts': hg.timestamp(tuple(f))} for f in o['before']['facts'] if hg.exists(tuple(f))]
        with watchdog(120), contextlib.redirect_stdout(io.StringIO()):
            WN.load(case['lex'], case['order'])
            r.read(hg)
        # another handle: what it left in the store
        hg2 = HyperGraph({'backend': 'sqlite', 'hg': path, 'db': path})
        o['after'] = dump(hg2)
        o['times'] = [{'fact': f, 'ts': hg2.timestamp(tuple(f)), 'link': [hg2.timestamp((const.source, tuple(f), 'wordnet/gb'))]} for f in o['after']['facts']]
        for n in case['names']:
            o['names'].append({'name': root(n), 'syms': sorted(hg2.symbols_with_root(root(n)))})
        fs = o['after']['facts']
        for f in fs[:: max(1, len(fs) // 12)]:
            o['sources'].append({'fact': f, 'srcs': sorted(hg2.sources(tuple(f)))})
        with watchdog(120), contextlib.redirect_stdout(io.StringIO()):
            WN.load(case['lex'], case['order2'])
            r.read(hg)
        o['again'] = dump(hg2)
    except Hang:
        o['raised'] = 'Hang'
    except Exception as e:
        o['raised'] = '%s: %s' % (type(e).__name__, str(e)[:100])
    for c in store.Hooks.made:
        try:
            c.close()
        except Exception:
            pass
    store.Hooks.made[:] = []
    return o


def root(name):
    return name.replace('/', '_')


def spec_lex(lex):
    return [dict(s, lemmas=[{'root': root(m['name']), 'rels': m['rels']} for m in s['lemmas']]) for s in lex]


WORDS = ['TCP/IP', 'a/b/c', 'dog', 'cat', 'Hound', 'set', 'run', 'good', 'bad', "o'clock", 'New_York', 'mother-in-law', '.22', '1930s', 'U.S.', 'entity', 'éclair',
         'physical_entity', 'a', 'well', '7', '~x', 'rock_n_roll', 'i', 'A', 'Berlin', 'DNA', 'x-ray', "'s_gravenhage", 'hydroxychloroquine_' * 4, 'a_b_c_d_e', '-', '5_hydroxytryptamine',
         'http', 'n', 'wn', 'noun', 'o.d.', 'Dog', 'DOG', 'berlin', 'dna', 'SET', 'Good', 'Bad', '\u00c9clair', 'e\u0301clair', 'Stra\u00dfe', 'strasse',
         'ma%F1ana', '%20', 'a+b', 'x(1)', 'a"b', 'b\\', '\u65e5', 'AT&T', '#', '?', "d'", '3.14', '1e5', 'C++', '$', 'x:y', '*', '9/11']


def gen(rng, n, dense=None):
    lex = []
    names = set()
    nrel = rng.choice([0, 1, 2, 4]) if dense is None else dense
    # names of synsets as they are, or those that differ in case only
    cased = rng.random() < 0.3
    for _ in range(n):
        k = rng.choice([1, 1, 2, 3] if rng.random() < 0.97 else [5, 10, 25])
        words = rng.sample(WORDS, k)
        pos = rng.choice('nvasr')
        i = 1
        while True:
            name = '%s.%s.%02d' % (words[0] if cased else words[0].lower(), pos, i)
            if name not in names:
                break
            i += 1
        names.add(name)
        lex.append({'name': name, 'pos': pos, 'lemmas': [{'name': w, 'rels': []} for w in words], 'rels': []})
    for s in lex:
        for _ in range(rng.randrange(nrel + 1)):
            rel = rng.choice(list(SYNSET_RELS) if rng.random() < 0.3 else USED)
            s['rels'].append([rel, rng.randrange(1, n + 1)])
        for m in s['lemmas']:
            for _ in range(rng.randrange(nrel + 1)):
                rel = rng.choice(list(LEMMA_RELS) if rng.random() < 0.3 else LUSED)
                t = rng.randrange(1, n + 1)
                m['rels'].append([rel, t, rng.randrange(1, len(lex[t - 1]['lemmas']) + 1)])
    return lex


def sym(lex, s, i):
    return '%s/wn.%s' % (root(lex[s - 1]['lemmas'][i - 1]['name']), lex[s - 1]['name'])


def gen_case(rng, n, dense=None):
    lex = gen(rng, n, dense)
    order = list(range(1, n + 1))
    order2 = list(order)
    rng.shuffle(order)
    rng.shuffle(order2)
    pre = []
    for _ in range(rng.choice([0, 0, 1, 3, 5])):
        s = rng.randrange(1, n + 1)
        kind = rng.randrange(6)
        pos = {'n': 'noun/gb', 'v': 'verb/gb', 'a': 'adjective/gb', 's': 'adjective/gb', 'r': 'adverb/gb'}
        e = ['pos/gb', sym(lex, s, 1), pos[lex[s - 1]['pos']]]
        if lex[s - 1]['rels'] and rng.random() < 0.5:
            r = lex[s - 1]['rels'][0]
            e = [r[0] + '/gb', sym(lex, s, 1), sym(lex, r[1], 1)]
        if kind == 0:
            pre.append({'edge': e, 'src': None})
        elif kind == 1:
            pre.append({'edge': e, 'src': 'mary/1'})
        elif kind == 2:
            pre.append({'edge': e, 'src': 'wordnet/gb'})
        elif kind == 3:
            pre.append({'edge': ['likes/1', 'mary/1', 'food/1'], 'src': rng.choice(['wordnet/gb', 'john/1', None])})
        elif kind == 4:
            pre.append({'edge': ['is/1', sym(lex, s, 1), ['of/1', 'mary/1', 'x/1'], 7], 'src': rng.choice([None, 'mary/1'])})
        else:
            pre.append({'edge': ['hyponym/gb', sym(lex, s, 1), 'b/1'], 'src': 'wordnet/gb'})
    for op in pre:
        op['ts'] = rng.choice([-1, 0, 7, 1479000000])
    # the names of lemmas, of which nothing that was there before is a symbol
    have = sorted(set(m['name'] for s in lex for m in s['lemmas']))
    names = rng.sample(have, min(3, len(have)))
    return {'lex': lex, 'order': order, 'order2': order2, 'pre': pre, 'names': [x for x in names if x not in ('x', 'noun')]}


def rich_case(rng, n, k, r):
    lex = [{'name': 'w%d.%s.01' % (i, rng.choice('nvasr')), 'pos': '', 'lemmas': [{'name': '%s%d' % (rng.choice(['w', 'W', 'x_']), j), 'rels': []} for j in range(k)],
            'rels': []} for i in range(n)]
    for s in lex:
        s['pos'] = s['name'].split('.')[1]
        s['rels'] = [[rng.choice(USED), rng.randrange(1, n + 1)] for _ in range(r)] + [[rel, rng.randrange(1, n + 1)] for rel in USED]
        for m in s['lemmas']:
            for _ in range(rng.randrange(r // 3 + 1)):
                m['rels'].append([rng.choice(LUSED), rng.randrange(1, n + 1), rng.randrange(1, k + 1)])
    order = list(range(1, n + 1))
    return {'lex': lex, 'order': order, 'order2': order[::-1], 'pre': [], 'names': ['w%d' % (k - 1)]}


def single_cases():
    """One relation of each kind between two synsets, or lemmas of them, and of each to itself; each part of speech."""
    for pos in 'nvasr':
        for rel in list(SYNSET_RELS):
            for t in (1, 2):
                lex = [{'name': 'dog.%s.01' % pos, 'pos': pos, 'lemmas': [{'name': 'dog', 'rels': []}, {'name': 'cat', 'rels': []}], 'rels': [[rel, t]]},
                       {'name': 'cat.n.01', 'pos': 'n', 'lemmas': [{'name': 'cat', 'rels': []}, {'name': 'dog', 'rels': []}], 'rels': []}]
                yield {'lex': lex, 'order': [1, 2], 'order2': [2, 1], 'pre': [], 'names': ['dog', 'cat']}
    for rel in list(LEMMA_RELS):
        for i in (1, 2):
            for t in (1, 2):
                for j in (1, 2):
                    lex = [{'name': 'dog.n.01', 'pos': 'n', 'lemmas': [{'name': 'dog', 'rels': []}, {'name': 'cat', 'rels': []}], 'rels': []},
                           {'name': 'cat.n.01', 'pos': 'n', 'lemmas': [{'name': 'cat', 'rels': []}, {'name': 'dog', 'rels': []}], 'rels': []}]
                    lex[0]['lemmas'][i - 1]['rels'] = [[rel, t, j]]
                    yield {'lex': lex, 'order': [1, 2], 'order2': [1, 2], 'pre': [], 'names': ['dog', 'cat']}


def c28(replay):
    check = Check('C28', 'model_checking')
    check.rule = ('an evaluation is one import of a lexicon (twice, in two orders) into a store, whose edges before and after are decided by TLC; '
                  'distinct and non-trivial when lexicon or store differ and some relation is imported')
    rng = random.Random('C28-%s' % SEED)
    if replay:
        cs = [x['case'] for x in json.load(open(replay))]
    else:
        cs = list(single_cases())
        for n in (1, 2, 3, 4, 6, 9):
            cs += [gen_case(rng, n) for _ in range(25 if not THOROUGH else 400)]
        # synsets of many lemmas and with many relations
        for k, r in ((12, 3), (25, 12), (60, 40)):
            for n in (2, 5):
                cs.append(rich_case(rng, n, k, r))
        # more statements than the buffer of the importer holds, by a little and by much
        for n in ([30, 340, 700] if not THOROUGH else [30, 100, 300, 340, 499, 500, 501, 502, 700, 1500]):
            cs.append(gen_case(rng, n, 2))
            cs.append(gen_case(rng, n, 0))
        # right at the limit: n statements are 2n edges
        for n in (499, 500, 501):
            lex = [{'name': 'w%d.n.01' % i, 'pos': 'n', 'lemmas': [{'name': 'w%d' % i, 'rels': []}], 'rels': []} for i in range(n)]
            cs.append({'lex': lex, 'order': list(range(1, n + 1)), 'order2': list(range(n, 0, -1)), 'pre': [], 'names': ['w0', 'w%d' % (n - 1)]})
        cs.append({'lex': [], 'order': [], 'order2': [], 'pre': [{'edge': ['likes/1', 'mary/1', 'food/1'], 'src': 'mary/1'}], 'names': []})
    recs = []
    for c in cs:
        o = record(c)
        recs.append(o)
        check.evaluations += 1
        if len(o['after']['facts']) > len(c['lex']):
            check.distinct.add(hash(json.dumps([c['lex'], c['order'], c['pre']])))
    check.samples = [ps({'case': cs[i], 'after': recs[i]['after']}) for i in (0, min(len(cs) - 1, 290))]
    bad = decided.decide(check, 'Lexicon', recs, per_group=8)
    for i in sorted(bad, key=lambda i: len(json.dumps(cs[i]))):
        if 'law' in bad[i]:
            raise common.MachineryError('law')
        check.violation('import of %d synsets: %s %s' % (len(cs[i]['lex']), sorted(bad[i]), recs[i]['raised']), cs[i])
    return check.finish()
