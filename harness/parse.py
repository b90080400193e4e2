"""C30, C32: parsed texts, and their printed trees."""

import contextlib
import io
import itertools
import json
import random
import sys

import cases as decided
import common
from common import Check, SEED, THOROUGH, ps, watchdog, Hang

import spacy

sys.path.insert(0, common.REPO)


class SToken(object):
    """A token of the stand-in parser. As in spaCy, each access makes another object, which equals the others of its place."""

    def __init__(self, doc, i):
        self.doc, self.i = doc, i

    @property
    def _a(self):
        return self.doc.data['raw'][self.i]

    orth_ = text = property(lambda s: s._a['orth'])
    lower_ = property(lambda s: s._a['orth'].lower())
    lemma_ = property(lambda s: s._a['lemma'])
    shape_ = property(lambda s: s._a['shape'])
    prob = property(lambda s: s._a['prob'])
    pos_ = property(lambda s: s._a['pos'])
    tag_ = property(lambda s: 'tag-' + s._a['pos'])
    dep_ = property(lambda s: s._a['dep'])
    ent_type_ = property(lambda s: s._a['ent'])
    ent_iob_ = property(lambda s: 'B' if s._a['ent'] else 'O')
    idx = property(lambda s: sum(len(a['orth']) + 1 for a in s.doc.data['raw'][:s.i]))
    whitespace_ = ' '
    head = property(lambda s: SToken(s.doc, s.doc.data['head'][s.i] - 1))

    @property
    def lefts(self):
        for j in range(self.i):
            if self.doc.data['head'][j] - 1 == self.i:
                yield SToken(self.doc, j)

    @property
    def rights(self):
        for j in range(self.i + 1, len(self.doc)):
            if self.doc.data['head'][j] - 1 == self.i:
                yield SToken(self.doc, j)

    @property
    def children(self):
        for t in self.lefts:
            yield t
        for t in self.rights:
            yield t

    n_lefts = property(lambda s: len(list(s.lefts)))
    n_rights = property(lambda s: len(list(s.rights)))

    def __eq__(self, other):
        return isinstance(other, SToken) and self.doc is other.doc and self.i == other.i

    def __hash__(self):
        return hash((id(self.doc), self.i))

    def __len__(self):
        return len(self.orth_)

    def __str__(self):
        return self.orth_


class Span(object):
    def __init__(self, doc, start, end):
        self.doc, self.start, self.end = doc, start, end

    def __iter__(self):
        return (SToken(self.doc, i) for i in range(self.start, self.end))

    def __len__(self):
        return self.end - self.start

    def __getitem__(self, i):
        if isinstance(i, slice):
            return list(self)[i]
        return SToken(self.doc, range(self.start, self.end)[i])

    @property
    def root(self):
        for t in self:
            if self.doc.data['head'][t.i] - 1 == t.i:
                return t


class Doc(object):
    def __init__(self, data):
        self.data = data

    def __len__(self):
        return len(self.data['raw'])

    def __getitem__(self, i):
        if isinstance(i, slice):
            a, b, _ = i.indices(len(self))
            return Span(self, a, b)
        return SToken(self, range(len(self))[i])

    def __iter__(self):
        return (SToken(self, i) for i in range(len(self)))

    @property
    def sents(self):
        for a, b in self.data['spans']:
            yield Span(self, a - 1, b)


def load(*_args, **_kw):
    return lambda text: Doc(TEXTS[text])


TEXTS = {}
spacy.load = load

from gb.nlp.parser import Parser  # noqa: E402
from gb.nlp.sentence import Sentence  # noqa: E402


def record(case):
    """One parser for all the texts of the case; a record for each."""
    res = []
    TEXTS.clear()
    for k, t in enumerate(case['texts']):
        TEXTS['text %d' % k] = t
    parser = None
    parsed = []
    for k, t in enumerate(case['texts']):
        o = {'raised': '', 'text': {'toks': [{'word': a['low'], 'lemma': a['lemma'], 'shape': a['shape'], 'prob': enc(a['prob']), 'pos': a['pos'],
                                              'dep': a['dep'], 'ent': a['ent']} for a in t['raw']],
                                    'head': t['head'], 'spans': t['spans']}}
        res.append(o)
        try:
            with watchdog(20):
                if parser is None:
                    parser = Parser()
                parsed.append(parser.parse_text('text %d' % k))
        except Hang:
            o['raised'] = 'Hang'
            parsed.append(None)
        except Exception as e:
            o['raised'] = '%s: %s' % (type(e).__name__, str(e)[:100])
            parsed.append(None)
    # at the end: a text must not change the tokens of another one
    for o, t, sents in zip(res, case['texts'], parsed):
        if sents is None:
            continue
        try:
            with watchdog(20):
                look(o, t, sents)
        except Hang:
            o['raised'] = 'Hang'
        except Exception as e:
            o['raised'] = '%s: %s' % (type(e).__name__, str(e)[:100])
    return res


def enc(v):
    """Attributes as texts, so that any two of them can be compared."""
    return v if isinstance(v, str) else '<%r>' % (v,)


DRAW = False


def drawn(sentence):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        sentence.print_tree()
    text = out.getvalue()
    return text.rstrip('\n').split('\n') if text.strip() else []


def look(o, t, sents):
    toks = [x for s in sents for x in s]
    at = {}
    for i, x in enumerate(toks):
        at.setdefault(id(x), i + 1)
    place = lambda xs: [at.get(id(x), 0) for x in xs]
    o['sents'] = [place(s) for s in sents]
    o['toks'] = [{k: enc(v) for k, v in (('word', x.word), ('lemma', x.lemma), ('shape', x.shape), ('prob', x.logprob), ('pos', x.pos),
                                           ('dep', x.dep), ('ent', x.entity_type))} for x in toks]
    o['lefts'] = [place(x.left_children) for x in toks]
    o['rights'] = [place(x.right_children) for x in toks]
    o['parent'] = [0 if x.parent is None else at.get(id(x.parent), -1) for x in toks]
    for i in t['sep']:
        if i <= len(toks):
            toks[i - 1].separator = True
    o['sep'] = [i + 1 in t['sep'] for i in range(len(t['raw']))]
    if DRAW:
        o['drawn'] = [drawn(Sentence(s)) for s in sents]
        return
    roots = [Sentence(s).root() for s in sents]
    o['roots'] = [0 if r is None else at.get(id(r), -1) for r in roots]
    o['shown'] = [str(Sentence(s)) for s in sents]
    o['list'] = [place(x.to_list()) for x in toks]
    o['wlist'] = [place(x.to_word_token_list()) for x in toks]
    o['chunk'] = [x.chunk_str() for x in toks]


WORDS = [('The', 'the'), ('dog', 'dog'), ('SAW', 'saw'), ('Éva', 'éva'), ('\n ', ''), (' x', 'x'), ('dog', 'dog'), ('U.S.', 'u.s.'), (',', ','), ('-', '-'), ("'s", "'s"), ('1955', '1955'),
         ('Stra\u00dfe', 'stra\u00dfe'), ('\u01c5', '\u01c6'), ('\u017fo', '\u017fo'), ('A\u0301', 'a\u0301'), ('\u0391\u03a3', '\u03b1\u03c2'), ('\ufb01x', '\ufb01x'),
         ('\u2126', '\u03c9'), ('x ', 'x'), ('\u00a0y', 'y'), ('x y', 'x y'), ('\uff21', '\uff41'), ('\u00b2', '\u00b2'), ('a\u00adb', 'a\u00adb'), ('e-Mail', 'e-mail'),
         ('A' * 300, 'a' * 300), ('(', '('), ('New_York', 'new_york'), ('\u65e5\u672c', '\u65e5\u672c'), ('\U0001f600', '\U0001f600'), ('"', '"'), ('\\', '\\')]
POS = ['NOUN', 'VERB', 'PUNCT', 'SPACE', 'DET', 'ADJ', 'SYM', 'X', 'NUM', '']
DEP = ['nsubj', 'det', 'punct', '', 'dobj', 'root', 'ROOT', 'ROOT']


def attr(rng, i, dep):
    w, low = rng.choice(WORDS)
    if rng.random() < 0.3:
        # many tokens that look the same
        return {'orth': 'In', 'low': 'in', 'lemma': 'in', 'shape': 'xx', 'prob': -1, 'pos': 'ADP', 'dep': dep if dep == 'ROOT' else 'prep', 'ent': ''}
    return {'orth': w, 'low': low, 'lemma': rng.choice(['the', 'dog', 'SEE', '-PRON-', '']), 'shape': rng.choice(['Xxx', 'xx', 'dddd']),
            'prob': rng.randrange(-20, 0), 'pos': rng.choice(POS), 'dep': dep, 'ent': rng.choice(['', 'PERSON', 'GPE'])}


def projective(rng, a, b, head, out):
    """A random projective tree over the places a..b."""
    if a > b:
        return
    r = rng.randrange(a, b + 1)
    out[r] = head if head else r
    for lo, hi in ((a, r - 1), (r + 1, b)):
        cur = lo
        while cur <= hi:
            e = rng.randrange(cur, hi + 1)
            projective(rng, cur, e, r, out)
            cur = e + 1


def anytree(rng, a, b, out):
    order = list(range(a, b + 1))
    rng.shuffle(order)
    for k, i in enumerate(order):
        out[i] = i if k == 0 else rng.choice(order[:k])


def gen_text(rng, nsent, nmax):
    spans, heads, n = [], {}, 0
    for _ in range(nsent):
        m = rng.randrange(1, nmax + 1)
        if rng.random() < 0.8:
            projective(rng, n + 1, n + m, None, heads)
        else:
            anytree(rng, n + 1, n + m, heads)
        spans.append([n + 1, n + m])
        n += m
    head = [heads[i] for i in range(1, n + 1)]
    raw = [attr(rng, i, ('ROOT' if head[i] == i + 1 and rng.random() < 0.9 else rng.choice(DEP))) for i in range(n)]
    return {'raw': raw, 'head': head, 'spans': spans, 'sep': [i + 1 for i in range(n) if rng.random() < 0.1]}


def trees(n):
    """All assignments of heads to n tokens that are trees."""
    for hs in itertools.product(range(1, n + 1), repeat=n):
        if sum(h == i + 1 for i, h in enumerate(hs)) != 1:
            continue
        ok = True
        for i in range(n):
            x, steps = i, 0
            while hs[x] != x + 1 and steps <= n:
                x, steps = hs[x] - 1, steps + 1
            ok = ok and steps <= n
        if ok:
            yield list(hs)


def c30(replay):
    return run('C30', replay)


def c32(replay):
    global DRAW
    DRAW = True
    return run('C32', replay)


def run(prop, replay):
    check = Check(prop, 'model_checking')
    check.rule = ('an evaluation is one parsed text, whose %s are decided by TLC; distinct and non-trivial when the text '
                  'differs from all others and has a token with a dependent' % ('printed trees' if DRAW else 'tokens, links and listings'))
    rng = random.Random('%s-%s' % (prop, SEED))
    if replay:
        cs = [x['case'] for x in json.load(open(replay))]
    else:
        cs = [{'texts': [{'raw': [], 'head': [], 'spans': [], 'sep': []}]}]
        top = 5 if not THOROUGH else 6
        for n in range(1, top + 1):
            for hs in trees(n):
                raw = [attr(rng, i, 'ROOT' if h == i + 1 else rng.choice(DEP[:6])) for i, h in enumerate(hs)]
                cs.append({'texts': [{'raw': raw, 'head': hs, 'spans': [[1, n]], 'sep': [i + 1 for i in range(n) if rng.random() < 0.1]}]})
        for _ in range(500 if not THOROUGH else 6000):
            cs.append({'texts': [gen_text(rng, rng.choice([1, 2, 3, 5]), rng.choice([3, 6, 12])) for _ in range(rng.choice([1, 2, 4]))]})
        # a long and deep text
        n = 50
        chain = gen_text(rng, 1, 1)
        chain = {'raw': [attr(rng, i, 'ROOT' if i == 0 else 'x') for i in range(n)], 'head': [1] + list(range(1, n)), 'spans': [[1, n]], 'sep': []}
        cs.append({'texts': [chain]})
        cs.append({'texts': [gen_text(rng, 40, 5)]})
        # and wide ones: many dependents of one token, at one side or both, and of one of these
        for n in (9, 12, 20, 33):
            for r in sorted(set([1, 2, n // 2, n - 1, n])):
                raw = [attr(rng, i, 'ROOT' if i + 1 == r else rng.choice(DEP[:6])) for i in range(n)]
                cs.append({'texts': [{'raw': raw, 'head': [r] * n, 'spans': [[1, n]], 'sep': [rng.randrange(1, n + 1)]}]})
                d = n if r < n else 1
                at = (n + 1) // 2 if r in (1, n) else r
                # the tokens beyond the middle depend on the token at the end
                head = [r if (i + 1 <= at if d == n else i + 1 >= at) or i + 1 in (r, d) else d for i in range(n)]
                cs.append({'texts': [{'raw': raw, 'head': head, 'spans': [[1, n]], 'sep': []}]})
        check.extra['explanation'] = 'all trees of up to %d tokens in a sentence, and random texts of several sentences' % top
    recs, of = [], []
    for c in cs:
        for o in record(c):
            recs.append(o)
            of.append(c)
            check.evaluations += 1
            if any(h != i + 1 for i, h in enumerate(o['text']['head'])):
                check.distinct.add(hash(json.dumps(o['text'])))
    check.samples = [ps({'case': of[i], 'recorded': recs[i]}) for i in (min(5, len(recs) - 1), min(900, len(recs) - 1))]
    bad = decided.decide(check, 'Drawn' if DRAW else 'Parse', recs, per_group=20, spec='SpecDrawn' if DRAW else 'Spec')
    for i in sorted(bad, key=lambda i: len(json.dumps(of[i]))):
        if 'law' in bad[i]:
            raise common.MachineryError('law')
        check.violation('heads %s: %s %s' % (recs[i]['text']['head'][:30], sorted(bad[i]), recs[i]['raised']), of[i])
    return check.finish()
