"""Histories over large stores: an entity in thousands of edges, a root with thousands of meanings, a fact with
hundreds of sources, edges of many elements. Nothing the properties say depends on how much there is."""

import itertools

import gb.hypergraph.constants as const
from common import THOROUGH
from store import Universe, canon, is_edge, listed


class Vals(object):
    def __init__(self):
        self.vals, self.seen = [], set()

    def put(self, v):
        k = canon(v)
        if k not in self.seen:
            if is_edge(v):
                for x in v:
                    self.put(x)
            self.seen.add(k)
            self.vals.append(v)
        return v


def hub(rng, what, n):
    """An entity in n edges, at different places in them."""
    V = Vals()
    h, rel = rng.choice([('hub/1', 'is/1'), (7, 'r'), ('http://a.b/c', 'is/1'), (('r', 'x', 'y'), 'is/1'), ('hub', ('+', 'a', 'b'))])
    edges = []
    same = rng.choice(['x', 'ab', "o'c"])
    for i in range(n):
        k = i % 7
        m = '%s/%d' % (same, i)
        edges.append((rel, h, m) if k == 0 else (rel, m, h) if k < 4 else (h, m) if k == 4 else
                     (rel, m, h, h) if k == 5 else ('on', (rel, m, h), 'y/1'))
    for e in edges:
        V.put(e)
    few = []
    for i in range(4):
        few.append(V.put(('of', '%s/%d' % (same, i), 'lone/1')))
    V.put('unknown/1')
    case = {'vals': [listed(v) for v in V.vals], 'roots': [same, 'hub', 'unknown', same[:1]]}
    u = Universe(case)
    es = [u.id(e) for e in edges]
    fs = [u.id(e) for e in few]
    vs = [u.id(h), u.id(rel), u.id('y/1'), u.id('unknown/1'), u.id('%s/3' % same), fs[0], u.id('lone/1')] + rng.sample(es, 5)
    exq = rng.sample(u.edges, min(len(u.edges), 200)) + fs
    hi, ri = u.id(h), u.id(rel)
    pats = [[ri, 0, hi], [0, 0, hi], [0, 0], [hi, 0], [0, 0, 0], [ri, 0, hi, hi], [0, hi, 0], [ri, 0, 0, 0]]

    def obs():
        o = {'op': 'obs', 'what': list(what), 'h': 'w', 'vs': vs, 'exq': exq}
        if 'pats' in what:
            o['pats'] = pats
        return o
    rng.shuffle(es)
    if 'srcs' in what:
        return None
    rmpat = [{'op': 'rmpat', 'p': [ri, 0, hi]}] if 'pats' in what and 'deg' in what else []
    gone = es[:n // 3]
    ops = [{'op': 'add', 'es': fs, 'ts': 5, 'many': True}, {'op': 'batch', 'funs': [[{'op': 'add', 'es': es, 'ts': 1478000000, 'many': True}]]},
           obs()] + rmpat + \
          [{'op': 'batch', 'funs': [[{'op': 'rem', 'es': gone, 'many': True}]]}, obs(),
           {'op': 'batch', 'funs': [[{'op': 'add', 'es': es[:n // 4], 'ts': 1478000123, 'many': True}]]}, obs(),
           {'op': 'add', 'es': fs[:1] + [es[-1]], 'ts': 9}, {'op': 'rem', 'es': fs[1:2]}, obs()]
    case['ops'] = ops
    return case


def believed(rng, what, n):
    """A fact that n sources believe."""
    V = Vals()
    V.put(const.source)
    fact = rng.choice([('is/1', 'a/1', 'b/1'), ('is', ('+', 'a', 'b'), 'c')])
    other = ('is/1', 'b/1', 'a/1')
    V.put(fact)
    V.put(other)
    srcs = ['s%d/1' % i for i in range(n)]
    for s in srcs:
        V.put((const.source, fact, s))
    V.put((const.source, other, srcs[0]))
    case = {'vals': [listed(v) for v in V.vals], 'roots': ['s1', 'a']}
    u = Universe(case)
    f, o = u.id(fact), u.id(other)
    ids = [u.id(s) for s in srcs]
    links = [u.id((const.source, fact, s)) for s in srcs]
    vs = [f, o, u.src, ids[0], ids[1], ids[-1], links[0], u.id('a/1')]

    def obs():
        r = {'op': 'obs', 'what': list(what), 'h': 'w', 'vs': vs, 'exq': u.edges[:150]}
        if 'pats' in what:
            r['pats'] = [[u.src, f, 0], [u.src, 0, ids[0]], [0, f, 0]]
        if 'srcs' in what:
            r['facts'] = [f, o]
        return r

    def bel(s, e=f):
        return {'op': 'bel', 'es': [e], 'a': s, 'ts': 5}

    def unbel(s, e=f):
        return {'op': 'unbel', 'es': [e], 'a': s}
    order = list(ids)
    rng.shuffle(order)
    case['ops'] = [{'op': 'batch', 'funs': [[bel(s) for s in ids] + [bel(ids[0], o)]]}, obs(), unbel(order[0]), unbel(ids[0], o), obs(),
                   {'op': 'batch', 'funs': [[unbel(s) for s in order[1:n - 2]]]}, obs(), unbel(order[-2]), obs(), unbel(order[-1]), obs()]
    return case


def wide(rng, what, k):
    """Edges of k elements, all of them different, with every subset of their places as a pattern."""
    V = Vals()
    pool = ['is/1', 'a/1', 'b', 7, 'http://a.b/c', ('r', 'x', 'y'), 'c-d', '~e', -1.5, 'E']
    e1 = tuple(pool[:k])
    e2 = tuple(rng.sample(pool, k))
    e3 = tuple(reversed(e1))
    e4 = e1[:-1] + (e1[0],)
    es = []
    for e in (e1, e2, e3, e4):
        if canon(e) not in [canon(x) for x in es]:
            es.append(V.put(e))
    case = {'vals': [listed(v) for v in V.vals], 'roots': ['is', 'a']}
    u = Universe(case)
    ids = [u.id(e) for e in es]
    masks = list(itertools.product([0, 1], repeat=k))
    if len(masks) > 64 and not THOROUGH:
        masks = rng.sample(masks, 64)

    def obs():
        o = {'op': 'obs', 'what': list(what), 'h': 'w'}
        if 'pats' in what:
            o['pats'] = [[x if m else 0 for x, m in zip(u.el[e - 1], mask)] for e in ids[:2] for mask in masks]
        if 'srcs' in what:
            o['facts'] = ids
        return o
    case['ops'] = [{'op': 'add', 'es': ids, 'ts': 5}, obs(), {'op': 'rem', 'es': ids[:1]}, obs(), {'op': 'rem', 'es': ids[1:], 'many': True}, obs()]
    return case


def cases(prop, what, rng):
    res = []
    if prop != 'C08':
        for n in ([300, 1300, 2700] if not THOROUGH else [250, 260, 520, 1030, 2060, 4100, 8300]):
            res.append(hub(rng, what, n))
    if prop in ('C04', 'C06', 'C08', 'C20'):
        for n in ([300] if not THOROUGH else [130, 260, 520, 1030]):
            res.append(believed(rng, what, n))
    for k in ([5, 6, 7] if not THOROUGH else [5, 6, 7, 8]):
        res.append(wide(rng, what, k))
    return res


def bulk(rng, what, n, kind):
    """One operation with n edges, for the checks of failures and crashes."""
    V = Vals()
    es = [V.put(('r/1', 'a/1', 'x/%d' % i)) if i % 2 else V.put(('y/%d' % i, 'a/1')) for i in range(n)]
    more = [V.put(('r/1', 'b/1', 'c/1')), V.put(('on/1', es[0], 'b/1')), V.put(('z', 'b/1'))]
    case = {'vals': [listed(v) for v in V.vals], 'roots': ['x', 'a']}
    u = Universe(case)
    ids = [u.id(e) for e in es]
    ms = [u.id(e) for e in more]
    obs = {'op': 'obs', 'what': [w for w in what if w in ('ex', 'deg', 'ts', 'star', 'fall')], 'h': 'w',
           'vs': [u.id('a/1'), u.id('r/1'), u.id('b/1'), u.id('x/1'), ids[0], ids[-1]] + ms, 'exq': ids + ms}
    add = {'op': 'add', 'es': ids, 'ts': 5, 'many': True}
    rem = {'op': 'rem', 'es': ids, 'many': True}
    base = [{'op': 'add', 'es': ms[:2], 'ts': 3}]
    if kind == 'add':
        x = add
    elif kind == 'rem':
        base.append({'op': 'batch', 'funs': [[add]]})
        x = rem
    elif kind == 'destroy':
        base.append(add)
        x = {'op': 'destroy'}
    else:
        x = {'op': 'batch', 'funs': [[dict(add, es=[i], many=False)] for i in ids]}
    after = [{'op': 'add', 'es': ms[2:], 'ts': 7}]
    case.update(base=base, x=x, after=after, obs=obs, kind=kind, big=n, facts=[])
    return case


def broad(rng, what, kind):
    """One operation with edges of five elements among others: of the hundreds of rows one of them has, none is seen
    before all of them are."""
    V = Vals()
    pool = ['is/1', 'a/1', 'b', 7, 'http://a.b/c', ('r', 'x', 'y'), 'c-d', '~e', -1.5, 'E']
    es = [V.put(('r/1', 'a/1', 'x/1')), V.put(tuple(rng.sample(pool, 5))), V.put(('y/1', 'a/1')), V.put(tuple(rng.sample(pool, 5))),
          V.put(('r/1', 'b', 'x/1'))]
    more = [V.put(('r/1', 'b', 'c/1')), V.put(('on/1', es[0], 'b')), V.put(('z', 'b'))]
    src = V.put('s/1')
    V.put(const.source)
    for e in es:
        V.put((const.source, e, src))
    case = {'vals': [listed(v) for v in V.vals], 'roots': ['x', 'a']}
    u = Universe(case)
    ids = [u.id(e) for e in es]
    ms = [u.id(e) for e in more]
    obs = {'op': 'obs', 'what': [w for w in what if w in ('ex', 'deg', 'ts', 'star', 'fall')], 'h': 'w'}
    add = {'op': 'add', 'es': ids, 'ts': 5, 'many': True}
    rem = {'op': 'rem', 'es': ids, 'many': True}
    bel = {'op': 'bel', 'es': [ids[1]], 'a': u.id(src), 'ts': 5}
    base = [{'op': 'add', 'es': ms[:2], 'ts': 3}]
    if kind in ('rem', 'rem1', 'mixed'):
        base.append(dict(add, es=ids[:4]))
    if kind in ('unbel', 'mixed'):
        base.append(bel)
    x = {'add': add, 'rem': rem, 'add1': dict(add, es=ids[1:2], many=False), 'rem1': dict(rem, es=ids[3:4], many=False), 'bel': bel,
         'unbel': {'op': 'unbel', 'es': [ids[1]], 'a': u.id(src)},
         'mixed': {'op': 'batch', 'funs': [[dict(rem, es=ids[1:2], many=False), dict(add, es=ids[4:], many=False)],
                                           [dict(rem, es=ids[3:4], many=False), {'op': 'unbel', 'es': [ids[1]], 'a': u.id(src)}]]}}[kind]
    after = [{'op': 'add', 'es': ms[2:], 'ts': 7}]
    case.update(base=base, x=x, after=after, obs=obs, kind='broad', big=5, facts=[])
    return case
