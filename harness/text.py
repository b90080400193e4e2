"""C15 (text form of edges) and C16 (symbols)."""

import itertools
import json
import random
import re
import sys
import unicodedata

import common
from common import Check, SEED, THOROUGH, ps, watchdog, Hang
from cases import decide

sys.path.insert(0, common.REPO)
import gb.hypergraph.edge as ed  # noqa: E402
import gb.hypergraph.symbol as sym  # noqa: E402


def cps(s):
    return [ord(c) for c in s]


def enc(v):
    """A value as a record of Text.tla; what is none of the kinds keeps its type, and equals nothing."""
    if type(v) is tuple:
        return {'k': 'e', 'c': [enc(x) for x in v]}
    if type(v) is str:
        return {'k': 's', 't': cps(v)}
    if type(v) is int:
        return {'k': 'i', 't': cps(repr(v))}
    if type(v) is float:
        return {'k': 'f', 't': cps(repr(v)), 'x': v.hex()}
    return {'k': '?', 't': [], 'type': type(v).__name__}


def txt(s):
    return cps(s) if type(s) is str else [-1]


def guarded(rec, f):
    try:
        with watchdog(20):
            rec.update(f())
    except Hang:
        rec['raised'] = 'Hang'
    except Exception as e:
        rec['raised'] = '%s: %s' % (type(e).__name__, str(e)[:100])
    return rec


# ---------------------------------------------------------------------------------------------
# the code under test

SPACES = ['  ', '\t', '\n', ' \n\t ', '\r\n', '   ']


def rec_val(v):
    def f():
        t = ed.edge2str(v)
        o = {'text': txt(t), 'back': enc(ed.str2edge(t))}
        if isinstance(v, tuple):
            o['ltext'] = txt(ed.edge2str(lis(v)))
            o['split'] = [txt(x) for x in ed.split_edge_str(t)]
            o['etexts'] = [txt(ed.edge2str(x)) for x in v]
            k = sum(ord(c) for c in t)
            loose = t.replace(' ', SPACES[k % len(SPACES)])
            if k % 3 == 0:
                loose = loose[:1] + ' ' + loose[1:-1] + '\t' + loose[-1:]
            o['loose'], o['looseback'] = txt(loose), enc(ed.str2edge(loose))
            if not isinstance(v[0], tuple):
                o['inner'] = [txt(x) for x in ed.split_edge_str(ed.nodes2str(v))]
        return o
    return guarded({'kind': 'val', 'v': enc(v)}, f)


def rec_texts(vs):
    return guarded({'kind': 'texts'}, lambda: {'texts': [txt(ed.edge2str(v)) for v in vs]})


def rec_neg(v):
    def f():
        n = ed.negative(v)
        return {'once': enc(n), 'twice': enc(ed.negative(n)), 'isneg': bool(ed.is_negative(v)), 'isnegonce': bool(ed.is_negative(n))}
    return guarded({'kind': 'neg', 'v': enc(v)}, f)


def types(v):
    return [n for n in ('CONCEPT', 'EDGE', 'INTEGER', 'FLOAT', 'URL') if getattr(sym.SymbolType, n) == sym.sym_type(v)]


def rec_sym(s):
    def f():
        ns = sym.nspace(s)
        o = {'parts': [txt(p) for p in sym.parts(s)], 'root': txt(sym.root(s)), 'ns': [] if ns is None else [txt(ns)],
             'isroot': bool(sym.is_root(s)), 'built': txt(sym.build(sym.parts(s))), 'shown': txt(sym.symbol2str(s)),
             'types': types(s)}
        if s:
            # back again, of what is not negated more than once or all tilde
            o.update(neg=txt(sym.negative(s)), isneg=bool(sym.is_negative(s)),
                     negneg=txt(sym.negative(sym.negative(s))) if s != '~' and not s.startswith('~~') else txt(s))
        return o
    return guarded({'kind': 'sym', 't': cps(s)}, f)


def rec_num(v):
    def f():
        ns = sym.nspace(v)
        return {'parts': [enc(p) for p in sym.parts(v)], 'root': enc(sym.root(v)), 'ns': [] if ns is None else [enc(ns)],
                'isroot': bool(sym.is_root(v)), 'shown': txt(sym.symbol2str(v)), 'types': types(v)}
    return guarded({'kind': 'num', 'v': enc(v)}, f)


def rec_edge(v):
    return guarded({'kind': 'edge', 'v': enc(v)}, lambda: {'types': types(v), 'ltypes': types(lis(v))})


def rec_conv(s):
    def f():
        y = sym.str2symbol(s)
        return {'low': cps(s.lower()), 'sym': txt(y), 'again': txt(sym.str2symbol(y)), 'read': txt(sym.symbol2str(y))}
    return guarded({'kind': 'conv', 'text': cps(s)}, f)


def rec_mean(s, prefix):
    def f():
        if prefix is None:
            return {'one': txt(sym.new_meaning(s)), 'two': txt(sym.new_meaning(s)), 'prefix': []}
        return {'one': txt(sym.new_meaning(s, prefix)), 'two': txt(sym.new_meaning(s, prefix)), 'prefix': cps(prefix)}
    return guarded({'kind': 'mean', 't': cps(s)}, f)


def rec_many(s, n):
    """Many new meanings of one root: equal texts as equal numbers."""
    def f():
        ids = {}
        return {'ids': [ids.setdefault(sym.new_meaning(s), len(ids)) for _ in range(n)]}
    return guarded({'kind': 'many', 't': cps(s)}, f)


def rec_build(ps_, ctor):
    return guarded({'kind': 'build', 'parts': [cps(p) for p in ps_]}, lambda: {'sym': txt(sym.build(ctor(ps_)))})


def rec_hash(s):
    return guarded({'kind': 'hash', 't': cps(s)}, lambda: {'hash': txt(sym.hashed(s))})


RECS = {'val': rec_val, 'edge': rec_edge, 'texts': rec_texts, 'neg': rec_neg, 'sym': rec_sym, 'num': rec_num, 'conv': rec_conv,
        'mean': rec_mean, 'many': rec_many, 'build': lambda p, k='list': rec_build(p, {'list': list, 'tuple': tuple}[k]), 'hash': rec_hash}


# ---------------------------------------------------------------------------------------------
# cases: (kind, arguments), arguments JSON with edges as lists

def tup(j):
    return tuple(tup(x) for x in j) if isinstance(j, list) else j


def lis(v):
    return [lis(x) for x in v] if isinstance(v, tuple) else v


def small_values():
    """All edges of a small model: atoms of every kind, one level of arity up to 3, two levels of arity 2."""
    atoms = ['a', '~a', 'a/1', 7, 7.0, -7, 'a(b)', '-', 'http://a.b/c_(d)']
    lv1 = [t for n in (2, 3) for t in itertools.product(atoms, repeat=n)]
    pairs = [t for t in itertools.product(atoms[:7], repeat=2)]
    lv2 = [(x, y) for x in pairs for y in atoms[:5]] + [(y, x) for x in pairs for y in atoms[:5]]
    lv3 = [('a', x, y) for x in pairs[:20] for y in pairs[:20]]
    return atoms + lv1 + lv2 + lv3


ATOMCHARS = 'abz/~_-.#+:;\'"!?%&=@|\\*0179\u00e9\u00df\u65e5\u0130\U0001F600'


def rand_symbol(rng):
    while True:
        s = ''.join(rng.choice(ATOMCHARS) for _ in range(rng.randrange(1, 8)))
        k = rng.random()
        if k < 0.1:
            s = s + '_(' + rng.choice(['x', 'a(b)c', '']) + ')'
        elif k < 0.15:
            s = s + '(' + s + ')' + s
        elif k < 0.25:
            s = rng.choice(['http://', 'https://']) + s
        # a symbol that reads as a number is one of the limits
        if not re.match(r'-?[0-9.]*[0-9][0-9.]*(e[+-][0-9]+)?\Z', s) and not re.match(r'[-.0-9e+]+\Z', s) or s in ('-', '.', '..', 'e', '1e', '+'):
            return s


def rand_num(rng):
    k = rng.random()
    if k < 0.25:
        return rng.choice([0, 1, -1, 7, 10, 100, -10])
    if k < 0.4:
        return rng.randrange(-10 ** rng.choice([1, 3, 18, 30]), 10 ** rng.choice([1, 3, 18, 30]))
    if k < 0.6:
        return float(rng.randrange(-1000, 1000))
    if k < 0.8:
        return rng.uniform(-1, 1) * 10.0 ** rng.randrange(-300, 300)
    return rng.choice([0.1, -0.1, 1e-07, 1.5e-7, 1e16, 1e22, 123456789.123, 0.0, -0.0, 5e-324, 1.7976931348623157e308, 3.0e-5, -2.5e-10, 1e100])


def rand_value(rng, depth=0):
    k = rng.random()
    if depth > 0 and (depth > 4 or k < 0.6):
        return rand_num(rng) if rng.random() < 0.35 else rand_symbol(rng)
    return tuple(rand_value(rng, depth + 1) for _ in range(rng.choice([2, 2, 3, 3, 4, 5, 7])))


def size(v):
    return 1 + sum(size(x) for x in v) if isinstance(v, tuple) else 1


def folded(s):
    w = s + 'e\u0301'
    return [w, s + '\u00e9', s + 'e', s + '\ufb01', s + 'fi', s + '\u2126', s + '\u03a9', s.swapcase(), s.casefold(), s.lower(), s.title(), s + '\u200b', s + '\ufeff',
            s + '\u00ad', unicodedata.normalize('NFC', s), unicodedata.normalize('NFD', s), unicodedata.normalize('NFKD', s)]


def readable(s):
    """Not one of the limits: not empty, no space, not read as a number."""
    return s and not re.search(r'\s', s) and not re.match(r'[-.0-9e+]+\Z', s)


def lookalikes(rng, v):
    """Values that resemble v."""
    res = [v]
    if isinstance(v, tuple):
        res.append(v[::-1])
        res.append(v + (v[0],))
        if len(v) > 2:
            res.append(v[:-1])
            res.append((v[0], v[1:]))
            res.append((v[:-1], v[-1]))
        i = rng.randrange(len(v))
        for x in lookalikes(rng, v[i])[1:]:
            res.append(v[:i] + (x,) + v[i + 1:])
    elif isinstance(v, str):
        res += [v + '/1', v + 'a', '~' + v, v.upper() + 'X']
        # and texts that a folded form would not tell from it
        res += [f for f in folded(v) if readable(f)]
    elif isinstance(v, int) and abs(v) < 10 ** 15:
        res += [float(v), v * 10, -v if v else 1]
    elif isinstance(v, float):
        res += [v + 1.0 if abs(v) < 1e15 else v / 2, -v]
        if v == int(v):
            res.append(int(v))
    return res


def distinct(vs):
    seen, res = set(), []
    for v in vs:
        k = json.dumps(enc(v))
        if k not in seen:
            seen.add(k)
            res.append(v)
    return res


NUMBER = re.compile(r'-?([0-9]+|[0-9]+\.[0-9]*|\.[0-9]+|([0-9]+(\.[0-9]+)?)e[+-][0-9]+)\Z')


def short_symbols():
    """All short texts of what numbers are made of that do not read as one."""
    for n in range(1, 5):
        for p in itertools.product('01-.e+a', repeat=n):
            s = ''.join(p)
            if not NUMBER.match(s):
                yield s
    for s in ['inf', 'nan', '-inf', 'Infinity', 'NaN', '1_000', '0x1f', '0b1', '1j', '1L', '1,5', '\u0661', '\u00b2', '1e5', '1E5', '1e+', '1.e+5', '.5e+5', '1e+5e+5',
              '1.5.5e+1', '+1', '++', '--', '1--', '-1-', 'True', 'None', '1f', '1/2', '5%', '1..2', '-.', '.-5', 'e+5', '-e+5', '1 '.strip() + 'e-']:
        yield s


def cases_c15(rng):
    for v in (['~', 'a'], ['~', '~'], ['~', 7], ['~~', 'a'][1:] + ['b']):
        yield 'neg', [v]
    for s in short_symbols():
        yield 'val', [s]
        yield 'val', [['a', s, 1]] if len(s) < 4 else [[s, 7]]
    for n in (6, 8, 9, 10, 11, 12, 16, 20, 33):
        for side in (0, 1, 2):
            # deep ones, wide ones
            v = ['a', 7]
            for i in range(n):
                v = [v, 'b%d' % (i % 3)] if side == 0 or side == 2 and i % 2 else ['c', v]
            yield 'val', [v]
        yield 'val', [['a'] * n + [['b', n], 1.5] + ['c'] * n]
    vals = small_values()
    for v in vals:
        yield 'val', [lis(v)]
    yield 'texts', [[lis(v) for v in vals]]
    for v in vals:
        if isinstance(v, tuple) and isinstance(v[0], str):
            yield 'neg', [lis(v)]
    for _ in range(700 if not THOROUGH else 30000):
        v = rand_value(rng)
        while size(v) > (14 if rng.random() < 0.95 else 40):
            v = rand_value(rng)
        vs = distinct(lookalikes(rng, v))
        for x in vs[:4] + rng.sample(vs, min(2, len(vs))):
            if isinstance(x, tuple):
                yield 'val', [lis(x)]
        yield 'texts', [[lis(x) for x in vs]]
        a = rand_num(rng) if rng.random() < 0.4 else rand_symbol(rng)
        yield 'val', [a]
        if isinstance(v[0], str) and not v[0].startswith('~~'):
            yield 'neg', [lis(v)]


def rand_text(rng):
    k = rng.random()
    chars = 'aBz/~_-. ()\t\n0\u00c9\u0130\u00df\u3000\u2028\u00a0\x1c\U0001F600'
    if k < 0.2:
        return rng.choice(['Graph Brain', 'A/B (c)', 'http://a.b/C d', '  ', '(', ')/(', 'a\r\nb', '\u2003x', 'x\x85y', 'name_(kind)', 'AC/DC (band)', ''])
    return ''.join(rng.choice(chars) for _ in range(rng.randrange(0, 12) if k < 0.9 else rng.choice([20, 33, 48, 70, 130, 260])))


def near_texts(rng, s):
    """Texts that a short part of them, or a folded form, would not tell from s."""
    def ok(c):
        return c if c != '\x00' else 'x'
    n = len(s)
    res = [s]
    for i in sorted({0, n // 2, n - 1}):
        if 0 <= i < n:
            c = s[i]
            for d in (c.swapcase(), 'q', '_', 'e\u0301'):
                res.append(s[:i] + ok(d) + s[i + 1:])
            res.append(s[:i] + s[i + 1:])
            res.append(s[:i] + c + s[i:])
    res += [s + ' ', ' ' + s, s[::-1], s + s[-1:], s + 's', s * 2]
    return list(dict.fromkeys(res))


def cases_c16(rng):
    small = [''.join(p) for n in range(0, 5) for p in itertools.product('a/~_', repeat=n)]
    for s in small:
        yield 'sym', [s]
        if s:
            yield 'mean', [s, None]
    for n in range(0, 5):
        for p in itertools.product('aB /(_', repeat=n):
            yield 'conv', [''.join(p)]
    for n in range(0, 4):
        for p in itertools.product('az0', repeat=n):
            yield 'hash', [''.join(p)]
    yield 'many', ['bank', 3000]
    for t in ('HTTP://a/b', 'Http://a', 'hTTps://a/b', 'HTTPS://a.b/c/d', 'http:/a/b', 'http:a/b', 'https:/a', 'http', 'ftp://a/b', 'xhttp://a/b', ' http://a/b',
              'file:///a', 'https', 'http:///', 'httpS://a/b', 'www.a/b', '//a/b', 'mailto:a/b'):
        yield 'sym', [t]
        if sym_ok(t):
            yield 'mean', [t, 'p']
    yield 'hash', [''.join(rng.choice('abcdefgh /_(') for _ in range(5000))]
    for n in (63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1500):
        t = ''.join(rng.choice('abcdefgh /_(') for _ in range(n))
        for x in near_texts(rng, t)[:12 if n < 600 else 4]:
            yield 'hash', [x]
    for n in (1, 3, 8, 20, 45):
        for _ in range(4 if not THOROUGH else 40):
            for x in near_texts(rng, ''.join(rng.choice('abcE\u00e9g/_1') for _ in range(n))):
                yield 'hash', [x]
                yield 'conv', [x]
                yield 'sym', [x]
                if sym_ok(x) and x:
                    yield 'mean', [x, 'p']
    for v in [0, 7, -7, 10 ** 20, 7.0, -0.5, 1e-7, 1e30]:
        yield 'num', [v]
    for v in small_values():
        if isinstance(v, tuple):
            yield 'edge', [lis(v)]
    for n in range(1, 5):
        for p in itertools.product(['a', '', 'b_', '1', '~x'], repeat=n):
            if '/'.join(p)[:7] != 'http://':
                yield 'build', [list(p), 'tuple' if n % 2 else 'list']
    for _ in range(800 if not THOROUGH else 30000):
        s = rand_symbol(rng)
        yield 'sym', [s]
        if sym_ok(s):
            yield 'mean', [s, rng.choice([None, '', 'p', 'wn', '1_'])]
        yield 'conv', [rand_text(rng)]
        yield 'num', [rand_num(rng)]
        n = rng.choice([1, 5, 20, 100])
        yield 'hash', [''.join(chr(rng.choice([rng.randrange(32, 127), rng.randrange(160, 0xD800), rng.randrange(0x10000, 0x10FFFF)])) for _ in range(rng.randrange(0, n)))]


def sym_ok(s):
    return s[:7] != 'http://' and s[:8] != 'https://'


def run(prop, replay):
    check = Check(prop, 'model_checking')
    check.rule = ('an evaluation is one recorded conversion decided by TLC on Text.tla; distinct and non-trivial when its input '
                  'is not empty and differs from all others')
    rng = random.Random('%s-%s' % (prop, SEED))
    if replay:
        cases = [x['case'] for x in json.load(open(replay))]
    else:
        cases = list({'C15': cases_c15, 'C16': cases_c16}[prop](rng))
    recs = []
    for kind, args in cases:
        if kind in ('val', 'neg', 'num', 'edge'):
            args = [tup(args[0])] + args[1:]
        elif kind == 'texts':
            args = [[tup(x) for x in args[0]]]
        recs.append(RECS[kind](*args))
        check.evaluations += 1
        if args[0] not in ('', ()):
            check.distinct.add(hash((kind, json.dumps(args))))
    # a case may not be of a type TLC can not compare: fields of one kind all have the same shape
    bad = decide(check, 'TextTrace', recs)
    check.samples = [ps({'case': cases[i], 'recorded': recs[i]}) for i in range(0, len(cases), max(1, len(cases) // 3))]
    for i, cl in sorted(bad.items()):
        if 'law' in cl:
            raise common.MachineryError('law of Text.tla fails on %s' % ps(cases[i]))
        check.violation('clause %s fails for %s: %s' % ('/'.join(sorted(cl)), ps(cases[i])[:300], ps(recs[i])[:500]), cases[i])
    return check.finish()
