"""C18 (neighbourhoods) and C19 (intersections)."""

import itertools
import json
import random

import common
from common import Check, SEED, THOROUGH, ps, watchdog, Hang
import store
from store import Runner, Universe, make_universe, listed, to_val, canon
from cases import decide
import gb.hypergraph.queries as queries
import gb.hypergraph.constants as const


def distinct_edges(vals):
    """Edges that Python takes for equal can not be told apart in its sets."""
    u = Universe({'vals': vals})
    cls = [u.cls[e - 1] for e in u.edges]
    return len(set(cls)) == len(cls)


def graph_case(rng, hubs=False):
    """Mostly connected: few participants, several relations."""
    while True:
        np = rng.choice([3, 4, 5, 6, 7])
        parts = rng.sample(['p%d/1' % i for i in range(8)] + ['http://a.b/c', 'https://x', 7, -1.5, 'ab', 'a'], np)
        if rng.random() < 0.3:
            # numbers that Python takes for equal are different entities
            parts[:2] = [7, 7.0]
            rng.shuffle(parts)
            parts = [p for i, p in enumerate(parts) if canon(p) not in set(canon(x) for x in parts[:i])]
        # beliefs are edges like others
        rels = ['is/1', 'r/1', 'has'] + ([const.source] if rng.random() < 0.4 else [])
        edges = []
        for _ in range(rng.randrange(1, 9)):
            k = rng.random()
            n = rng.choice([1, 2, 2, 2, 2, 3]) if rng.random() < 0.93 else rng.choice([4, 4, 5])
            pool = parts + ([rng.choice(edges)] if edges and k < 0.25 else []) + (['r/1'] if k > 0.9 else [])
            first = rng.choice(rels) if k < 0.9 else rng.choice(parts + (edges[:1]))
            e = (first,) + tuple(rng.choice(pool) for _ in range(n))
            if canon(e) not in set(canon(x) for x in edges):
                edges.append(e)
        vals, seen = [], set()

        def put(v):
            if canon(v) in seen:
                return
            if isinstance(v, tuple):
                for x in v:
                    put(x)
            seen.add(canon(v))
            vals.append(v)
        for e in edges:
            put(e)
        for p in parts:
            put(p)
        put('unknown/1')
        # with edges that were removed again
        if distinct_edges([listed(v) for v in vals]):
            break
    gone = [e for e in edges if rng.random() < 0.12]
    case = {'vals': [listed(v) for v in vals]}
    u = Universe(case)
    case['edges'] = [u.id(e) for e in edges]
    case['gone'] = [u.id(e) for e in gone]
    case['egos'] = [[v, n] for v in range(1, u.n + 1) for n in ([0, 1, 2, 3] if u.n < 16 else [1, 2])]
    known = [u.id(p) for p in parts] + [u.id(e) for e in edges if rng.random() < 0.3]
    case['inters'] = [[rng.choice(known) for _ in range(n)] for n in (1, 2, 2, 2, 2, 3, 3, 4)]
    case['inters'].append([known[0], u.id('unknown/1')])
    case['inters'].append([u.id('unknown/1'), known[0]])
    return case


def hub_case(rng, degree, place=1):
    """Entities connected only by a vertex of this degree, in one or another place, and perhaps by a longer way."""
    long_way = rng.random() < 0.6
    edges = [('is/1',) + (('a/1', 'hub/1'), ('hub/1', 'a/1'), ('m/1', 'hub/1', 'a/1'))[place % 3],
             ('is/1',) + (('b/1', 'hub/1'), ('hub/1', 'b/1'), ('hub/1', 'm/1', 'b/1'))[rng.randrange(3) if place > 2 else place]]
    place = place % 3
    first = rng.random() < 0.3
    have = 2
    if first:
        # occurrences as first element count too
        edges.append(('hub/1', 'q/1'))
        have += 1
    if rng.random() < 0.5:
        edges.append(('x/1', 'hub/1', 'hub/1', 'hub/1'))
        have += 3
    for i in range(degree - have):
        edges.append(('s%d' % i, 'hub/1'))
    if long_way:
        edges += [('is/1', 'a/1', 'c/1'), ('is/1', 'c/1', 'b/1')]
    hub = 'hub/1'
    k = rng.random()
    if k < 0.45:
        # an edge, a number or a link
        hub = ('has', 'x/1', 'y/1') if k < 0.25 else 250 if k < 0.35 else 'http://hub/1'
        edges = [tuple(hub if v == 'hub/1' else v for v in e) for e in edges]
    vals, seen = [], set()

    def put(v):
        if v in seen:
            return
        if isinstance(v, tuple):
            for x in v:
                put(x)
        seen.add(v)
        vals.append(v)
    for e in edges:
        put(e)
    case = {'vals': [listed(v) for v in vals]}
    u = Universe(case)
    case['edges'] = [u.id(e) for e in edges]
    case['gone'] = []
    case['egos'] = []
    a, b, h = u.id('a/1'), u.id('b/1'), u.id(hub)
    case['inters'] = [[a, b], [b, a], [a, h]]
    return case


def crowded_case(rng, n, prop):
    """An entity in n edges, as a participant or as their relation, within neighbourhoods."""
    edges = [('is/1', 'a/1', 'hub/1'), ('is/1', 'b/1', 'c/1'), ('is/1', 'c/1', 'a/1'), ('has', 'b/1', ('is/1', 'a/1', 'hub/1'))]
    for i in range(n):
        k = i % 5
        edges.append(('rel/1', 'm%d/1' % (i % 7), 's%d/1' % i) if k == 0 else ('rel/1', 's%d/1' % i, 'hub/1') if k < 3 else
                     ('hub/1', 's%d/1' % i) if k == 3 else ('is/1', 's%d/1' % i, 'c/1' if prop == 'C18' else 't%d' % i))
    # further on from some of the many
    for i in rng.sample(range(n), min(n, 25)):
        edges.insert(rng.randrange(len(edges)), ('on/1', 's%d/1' % i, 'w%d/1' % i))
    edges += [('rel/1', 'p/1', 'q/1'), ('rel/1', 'q/1', 'r/1', 'p/1'), ('x', 'r/1', 'z/1')]
    vals, seen = [], set()

    def put(v):
        if v in seen:
            return
        if isinstance(v, tuple):
            for x in v:
                put(x)
        seen.add(v)
        vals.append(v)
    for e in edges:
        put(e)
    case = {'vals': [listed(v) for v in vals]}
    u = Universe(case)
    case['edges'] = [u.id(e) for e in edges]
    case['gone'] = [u.id(e) for e in edges[-5:-3]]
    vs = ['a/1', 'hub/1', 'p/1', 's1/1', 'z/1', edges[0]]
    case['egos'] = [[u.id(v), d] for v in vs for d in (1, 2, 3) if d < 3 or v in ('p/1', 'z/1') or v == 'a/1' and n < 300] if prop == 'C18' else []
    case['inters'] = [[u.id(x) for x in s] for s in (('p/1', 'q/1'), ('r/1', 'p/1'), ('p/1', 'z/1'), ('q/1', 'z/1', 'p/1'), ('b/1', 'a/1'))]
    return case


def chain_case(rng, n):
    """A long chain: the neighbourhood grows by one step at a time."""
    edges = [('r/1', 'v%d' % i, 'v%d' % (i + 1)) for i in range(n)]
    vals = ['r/1'] + ['v%d' % i for i in range(n + 1)] + edges
    case = {'vals': [listed(v) for v in vals]}
    u = Universe(case)
    case['edges'] = [u.id(e) for e in edges]
    case['gone'] = []
    case['egos'] = [[u.id('v0'), d] for d in range(0, 9)] + [[u.id('v%d' % (n // 2)), d] for d in (1, 4, 6)]
    case['inters'] = [[u.id('v0'), u.id('v%d' % k)] for k in range(1, 7)] + [[u.id('v3'), u.id('v%d' % k), u.id('v5')] for k in (1, 2, 4, 7)]
    # several entities, far from each other
    for s in ((0, 4, 8), (8, 4, 0), (0, 5, 10), (0, 3, 6, 9), (9, 0, 6, 3), (1, n), (0, n), (n, 0), (0, n // 2, n)):
        if max(s) <= n:
            case['inters'].append([u.id('v%d' % k) for k in s])
    return case


def ring_case(rng, n, k):
    """A ring with k entities on it at equal distances, or a star of long arms."""
    if rng.random() < 0.5:
        edges = [('r%d' % (i % 3), 'v%d' % i, 'v%d' % ((i + 1) % n)) for i in range(n)]
        at = ['v%d' % (i * n // k) for i in range(k)]
    else:
        arm = n // k
        edges = [('r/1', 'c', 'v%d' % (j * arm)) for j in range(k)]
        edges += [('r/1', 'v%d' % (j * arm + i), 'v%d' % (j * arm + i + 1)) for j in range(k) for i in range(arm - 1)]
        at = ['v%d' % (j * arm + arm - 1) for j in range(k)]
    rng.shuffle(edges)
    vals = []
    for e in edges:
        for x in e:
            if x not in vals:
                vals.append(x)
    case = {'vals': [listed(v) for v in vals + edges]}
    u = Universe(case)
    case['edges'] = [u.id(e) for e in edges]
    case['gone'] = [u.id(rng.choice(edges))] if rng.random() < 0.3 else []
    case['egos'] = [[u.id(at[0]), d] for d in range(0, 5)]
    rng.shuffle(at)
    case['inters'] = [[u.id(x) for x in at[:j]] for j in range(1, k + 1)]
    return case


def small_cases():
    """All stores of at most 3 of the binary and ternary edges over 3 participants and one relation."""
    ps_ = ['p', 'q', 's']
    edges = [('r', x) for x in ps_[:2]] + [('r', x, y) for x in ps_ for y in ps_ if x < y] + [('p', 'q', 's'), ('r', 'p', 'q', 's'), ('r', ('r', 'p', 'q'), 's')]
    vals, seen = ['u'], set()
    for e in edges:
        for x in list(e) + [e]:
            if x not in seen:
                seen.add(x)
                vals.append(x)
    u = Universe({'vals': [listed(v) for v in vals]})
    for n in range(0, 4):
        for c in itertools.combinations(edges, n):
            yield {'vals': [listed(v) for v in vals], 'edges': [u.id(e) for e in c], 'gone': [],
                   'egos': [[v, d] for v in range(1, u.n + 1) for d in (0, 1, 2)],
                   'inters': [[u.id(x) for x in s] for k in (1, 2, 3) for s in itertools.permutations(ps_, k)] + [[u.id(('r', 'p', 'q')), u.id('s')]]}


def with_rounds(rng, case):
    """The same questions again, after changes through this handle or another one, and perhaps inside a batch."""
    here = set(case['edges']) - set(case['gone'])
    case['rounds'] = []
    for _ in range(rng.choice([1, 1, 2])):
        change = rng.sample(sorted(case['edges']), min(len(case['edges']), rng.choice([1, 1, 2, 3])))
        rem = [e for e in change if e in here]
        add = [e for e in change if e not in here]
        here = (here - set(rem)) | set(add)
        case['rounds'].append({'add': add, 'rem': rem, 'other': rng.random() < 0.3, 'batch': rng.random() < 0.3})
    return case


def record(case, prop):
    """One record per round of questions."""
    r = Runner({'vals': case['vals'], 'ops': []})
    u = r.u
    us = u.spec()
    here = [e for e in case['edges'] if e not in case['gone']]
    recs = [{'u': us, 'E': here, 'before': [], 'after': []}]
    try:
        r.start()
        hg = r.hg
        hg.batch_exec([lambda h: [h.add([u.val(e)], 5) for e in case['edges']]])
        for e in case['gone']:
            hg.remove([u.val(e)])
        ask(case, prop, r, recs[-1], hg)
        for k, rd in enumerate(case.get('rounds', [])):
            here = [e for e in here if e not in rd['rem']] + rd['add']
            recs.append({'u': us, 'E': here, 'before': [], 'after': []})
            h = hg
            if rd['other']:
                r.do_open({}, hg)
                h = r.hgs['c']
            for e in rd['rem']:
                h.remove([u.val(e)])
            for e in rd['add']:
                h.add([u.val(e)], 5)
            if rd['batch']:
                hg.batch_exec([lambda _: ask(case, prop, r, recs[-1], hg)])
            else:
                ask(case, prop, r, recs[-1], hg)
    except store.Stop:
        recs[-1]['raised'] = 'open'
    finally:
        r.close()
    return recs


def ask(case, prop, r, rec, hg):
    """The questions to this store, and what it holds before and after them."""
    u = r.u
    def snap():
        small = u.n < 60
        vs = range(1, u.n + 1) if small else []
        return [[1 if hg.exists(u.val(e)) is True else 0 for e in (u.edges if small else [])],
                [hg.degree(u.val(v)) for v in vs], [hg.timestamp(u.val(v)) for v in vs],
                sorted([u.id(m['vertex']), m['degree']] for m in hg.f_all(lambda m: m))]
    rec['before'] = snap()
    try:
        with watchdog(60):
            if prop == 'C18':
                rec['egos'] = [[v, n, u.idset(hg.ego(u.val(v), n))] for v, n in case['egos']]
            else:
                rec['inters'] = [[s, sorted(set(u.id(e) for e in queries.intersect(hg, [u.val(v) for v in s])))] for s in case['inters']]
    except Hang:
        rec['raised'] = 'Hang'
    except Exception as e:
        rec['raised'] = '%s: %s' % (type(e).__name__, str(e)[:100])
    rec['after'] = snap()


def run(prop, replay):
    check = Check(prop, 'model_checking')
    check.rule = ('an evaluation is one neighbourhood or intersection asked of one store and decided by TLC; it is distinct and '
                  'non-trivial when its answer is not empty and (store, question) differs from all others')
    rng = random.Random('%s-%s' % (prop, SEED))
    if replay:
        cases = [x['case'] for x in json.load(open(replay))]
    else:
        cases = list(small_cases())
        small = len(cases)
        cases += [graph_case(rng) for _ in range((200 if prop == 'C18' else 350) if not THOROUGH else 5000)]
        cases += [crowded_case(rng, n, prop) for n in ((280, 1700 if prop == 'C18' else 1100) if not THOROUGH else (140, 280, 550, 1100, 2300))]
        cases += [chain_case(rng, n) for n in (6, 10, 13)]
        cases += [ring_case(rng, n, k) for n, k in ((6, 3), (8, 2), (9, 3), (12, 3), (12, 4), (16, 4), (15, 5)) for _ in range(2 if not THOROUGH else 20)]
        if prop == 'C19':
            cases += [hub_case(rng, d, i % 6) for i, d in enumerate([250, 251, 251, 250, 252, 250, 249, 250, 250, 251, 251, 251]
                                                               if not THOROUGH else [249, 250, 251, 252, 300] * 7)]
        for c in cases[:small:7] + cases[small:]:
            # twice in a store that changes in between
            if len(c['edges']) < 40 and rng.random() < 0.4 or c['edges'] and not c['egos']:
                with_rounds(rng, c)
    recs, of = [], []
    for c in cases:
        for rec in record(c, prop):
            recs.append(rec)
            of.append(c)
            key = json.dumps([c['vals'], rec['E']])
            for q in rec.get('egos', []) + rec.get('inters', []):
                check.evaluations += 1
                if q[-1]:
                    check.distinct.add(hash((key, json.dumps(q))))
    check.samples = [ps({'case': of[i], 'recorded': recs[i].get('egos', recs[i].get('inters'))}) for i in range(0, len(recs), max(1, len(recs) // 3))]
    bad = decide(check, 'QueryTrace', recs, per_group=8)
    for i, cl in sorted(bad.items()):
        if 'law' in cl:
            raise common.MachineryError('law of Queries.tla fails')
        check.violation('clause %s fails: %s' % ('/'.join(sorted(cl)), ps({k: v for k, v in recs[i].items() if k != 'u'})[:500]), of[i])
    return check.finish()
