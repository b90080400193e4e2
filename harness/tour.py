"""Every transition of a small model of the store, as histories for the real one."""

import re
from collections import deque

import common
from common import THOROUGH, tlc
from store import Universe, const

ADD, REM, BEL, UNBEL = 'add', 'rem', 'bel', 'unbel'


def small(name):
    """Universe, operations, depth of batches of the small models."""
    a, b = 'a', 'a/1'
    if name == 'plain':
        e1, e2 = ['a', 'a/1'], ['a', 'a/1', 'a']
        e3 = [e1, 'a']
        e4 = [e3, e1] if THOROUGH else None
        edges = [e for e in (e1, e2, e3, e4) if e]
        vals = [a, b] + edges
        ops = [(ADD, [e], 1) for e in edges] + [(REM, [e]) for e in edges] + \
              [('destroy',), (ADD, [e1, e3], 1), (REM, [e1, e3])]
        depth = 0
    elif name == 'numbers':
        e1, e2, e3 = ['a', 7], ['a', 7.0], [7, 'a']
        edges = [e1, e2, e3]
        vals = ['a', 7, 7.0] + edges
        ops = [(ADD, [e], 1) for e in edges] + [(REM, [e]) for e in edges] + [('destroy',)]
        depth = 0
    elif name == 'ts':
        e1 = ['a', 'a/1']
        e3 = [e1, 'a']
        edges = [e1, e3]
        vals = [a, b] + edges
        ops = [(ADD, [e], t) for e in edges for t in (1, 2)] + [(REM, [e]) for e in edges] + \
              [('destroy',), (ADD, [e1], -1)]
        depth = 0
    elif name == 'belief':
        e1 = ['a', 'a/1']
        e3 = [e1, 'a'] if THOROUGH else None
        facts = [e for e in (e1, e3) if e]
        srcs = ['a', 's']
        vals = [a, b, const.source, 's'] + facts + [[const.source, f, s] for f in facts for s in srcs]
        ops = [(BEL, [f], s, 1) for f in facts for s in srcs] + [(UNBEL, [f], s) for f in facts for s in srcs] + \
              [(ADD, [e1], 1), (REM, [e1]), ('destroy',)]
        depth = 0
    elif name == 'pattern':
        e1, e2, e3 = ['a', 'a/1'], ['a', 's'], [['a', 'a/1'], 'a/1']
        edges = [e1, e2, e3]
        vals = [a, b, 's'] + edges
        ops = [(ADD, [e], 1) for e in edges] + [(REM, [e1])] + \
              [('rmpat', p) for p in ([None, None], ['a', None], [None, 'a/1'], [e1, None], e2)]
        depth = 0
    elif name == 'batch':
        e1 = ['a', 'a/1']
        e3 = [e1, 'a']
        edges = [e1, e3]
        vals = [a, b] + edges
        ops = [(ADD, [e1], 1), (ADD, [e3], 1), (REM, [e1]), (REM, [e3]), ('destroy',)]
        depth = 2
    case = {'vals': vals, 'roots': ['a', 's']}
    u = Universe(case)

    def vid(x):
        from store import to_val
        i = u.id(to_val(x))
        assert i
        return i
    recs = []
    for o in ops:
        if o[0] == ADD:
            recs.append({'op': 'add', 'es': [vid(e) for e in o[1]], 'ts': o[2]})
        elif o[0] == REM:
            recs.append({'op': 'rem', 'es': [vid(e) for e in o[1]]})
        elif o[0] == BEL:
            recs.append({'op': 'bel', 'es': [vid(e) for e in o[1]], 'a': vid(o[2]), 'ts': o[3]})
        elif o[0] == UNBEL:
            recs.append({'op': 'unbel', 'es': [vid(e) for e in o[1]], 'a': vid(o[2])})
        elif o[0] == 'rmpat':
            recs.append({'op': 'rmpat', 'p': [0 if x is None else vid(x) for x in o[1]]})
        else:
            recs.append({'op': o[0]})
    return case, u, recs, depth


CFG = '''SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT ShowTransition
INVARIANTS Inv Presence ManyLaws PatternLaws DegreeLaws BeliefLaws
PROPERTIES TimestampsStay Isolation
'''


def graph(name, check):
    case, u, recs, depth = small(name)
    data = {'universe': u.spec(), 'ops': recs, 'depth': depth}
    r = tlc('StoreMC', CFG, data, workers=1)
    check.add_tlc(r)
    edges = {}
    init = None
    for m in re.finditer(r'"TR\|(.*?)\|(-?\d+)\|(.*?)"', r.out):
        a, op, b = m.group(1), int(m.group(2)), m.group(3)
        if init is None:
            init = a
        edges.setdefault(a, {})[op] = b
    return case, u, recs, init, edges


def walks(init, edges, maxlen):
    """Walks from init that take every transition."""
    todo = {a: set(d) for a, d in edges.items()}
    left = sum(len(x) for x in todo.values())
    res = []
    while left:
        at, walk = init, []
        while len(walk) < maxlen:
            if todo.get(at):
                op = min(todo[at], key=lambda o: (edges[at][o] == at, o != 0 and o < 0, o))
                path = [op]
            else:
                prev = {at: None}
                q = deque([at])
                path = None
                while q:
                    x = q.popleft()
                    if todo.get(x):
                        path = []
                        while prev[x] is not None:
                            path.append(prev[x][1])
                            x = prev[x][0]
                        path.reverse()
                        break
                    for o, y in sorted(edges.get(x, {}).items()):
                        if y not in prev:
                            prev[y] = (x, o)
                            q.append(y)
                if path is None:
                    break
                if walk and len(walk) + len(path) >= maxlen:
                    break
            for o in path:
                if o in todo.get(at, ()):
                    todo[at].discard(o)
                    left -= 1
                walk.append(o)
                at = edges[at][o]
        if not walk:
            break
        res.append(walk)
    return res


MODELS = {'C01': ['plain', 'numbers'], 'C02': ['pattern'], 'C03': ['plain'], 'C04': ['plain', 'belief'], 'C05': ['ts'],
          'C06': ['plain'], 'C07': ['plain'], 'C08': ['belief'], 'C20': ['pattern']}


def cases(prop, what, check):
    res = []
    ntrans = 0
    for name in MODELS.get(prop, []):
        case, u, recs, init, edges = graph(name, check)
        ntrans += sum(len(d) for d in edges.values())
        pats = []
        if 'pats' in what:
            for e in u.edges:
                n = len(u.el[e - 1])
                for mask in range(2 ** n):
                    p = [x if mask >> i & 1 else 0 for i, x in enumerate(u.el[e - 1])]
                    if p not in pats:
                        pats.append(p)
        for w in walks(init, edges, 60):
            ops = []
            for o in w:
                ops.append(dict(recs[o - 1]))
                obs = {'op': 'obs', 'what': what, 'h': 'w', 'pats': pats}
                if 'srcs' in what:
                    obs['facts'] = [e for e in u.edges if u.src not in u.el[e - 1][:1]]
                ops.append(obs)
            res.append(dict(case, ops=ops, model=name))
    check.extra['model_transitions_replayed'] = check.extra.get('model_transitions_replayed', 0) + ntrans
    return res
