"""Batches, buffered writing, reopening, backends: C09, C13, C14, C17. The specification decides every
observation; a failed clause belongs to the property only if the control execution, which does the same
without batches (or directly, or on SQLite), does not fail it too."""

import copy
import json
import random
import time

import common
import design
from common import Check, SEED, THOROUGH, ps
import store
from store import Runner, HyperGraph
from gen import Gen
from seq import validate, describe

CORE = ['ex', 'deg', 'ts', 'star', 'pats', 'fall', 'roots', 'srcs']


def number(ops, start=0):
    """Gives each operation an identity, to find it again in the control execution."""
    n = start
    for o in ops:
        n += 1
        o['oid'] = n
        if 'funs' in o:
            for f in o['funs']:
                n = number(f, n)
    return n


def flat(ops, single=True):
    """The same operations one at a time."""
    res = []
    for o in ops:
        if o['op'] == 'batch':
            if not aborts(o):
                for f in o['funs']:
                    res += flat(f, single)
        elif o['op'] in ('add', 'rem', 'bel') and single:
            for e in o['es']:
                res.append(dict(o, es=[e]))
        else:
            o = dict(o)
            o.pop('outer', None)
            res.append(o)
    return res


def aborts(o):
    """Does this batch contain a function that raises?"""
    return any(x['op'] == 'raise' or (x['op'] == 'batch' and aborts(x)) for f in o['funs'] for x in f)


class Pairs(object):
    """Executions, each with its control."""

    def __init__(self, check):
        self.check = check
        self.cases, self.runs = [], []

    def add(self, case, run, control):
        self.cases.append(case)
        self.runs.append((run, control))

    def count(self, run):
        c = self.check
        for x in run.lines:
            if x['op'] in ('obs', 'peek', 'same', 'either') or 'ret' in x:
                c.evaluations += 1
            if x['op'] in ('obs', 'peek') and any(x.get('ex', [1])):
                c.distinct.add(hash((json.dumps({k: v for k, v in x.items() if k not in ('exq', 'oid')}, sort_keys=True),
                                     json.dumps(run.case['vals']))))

    def decide(self, only=None):
        """only: the clauses that count (all by default)."""
        check = self.check
        traces, us = [], []
        for run, control in self.runs:
            for r in (run, control):
                if r is not None:
                    us.append(r.u)
                    traces.append(r.trace(len(us) - 1))
        bad = validate(check, traces, us)
        k = 0
        for case, (run, control) in zip(self.cases, self.runs):
            self.count(run)
            mine = [(li, cl) for (ti, li), cl in bad.items() if ti == k]
            k += 1
            excused = set()
            if control is not None:
                for (ti, li), cl in bad.items():
                    if ti == k:
                        for c in cl:
                            excused.add((control.lines[li].get('oid'), c))
                            if c == 'raised':
                                excused.add('raised')
                k += 1
            for li, cl in sorted(mine):
                line = run.lines[li]
                for c in sorted(cl):
                    if (line.get('oid'), c) in excused or (c == 'raised' and 'raised' in excused):
                        continue
                    if only is not None and c not in only:
                        continue
                    check.violation(describe(case, line, c), case)


def execute(case, opener=None, prepare=None):
    r = Runner(case, opener)
    try:
        if prepare:
            prepare(r)
        r.run()
    finally:
        r.close()
    return r


def run_control(case, ops, opener=None):
    c = {k: v for k, v in case.items() if k not in ('ops', 'buffer_max', 'null')}
    c['ops'] = ops
    return execute(c, opener)


# ---------------------------------------------------------------------------------------------
# C09

def c09_case(rng, idx):
    g = Gen(rng, CORE, nedges=8, natoms=6, maxar=3 if idx % 3 else 4, npats=3, nfact=2,
            weights=dict(add=2, rem=1.2, bel=0.6, unbel=0.5, rmpat=0.3, destroy=0.1, batch=4, reopen=0.3), c_view=0.5)
    case = g.history(rng.choice([3, 5, 8]))
    case['ops'].append({'op': 'reopen'})
    case['ops'].append(g.obs())
    number(case['ops'])
    return case


def c09_pair(case):
    run = execute(case)
    return run, run_control(case, flat(case['ops']))


def batch_tours(check):
    """Every transition of the small model with batches."""
    import tour
    case, u, recs, init, edges = tour.graph('batch', check)
    res = []
    for w in tour.walks(init, edges, 40):
        # the walk as nested batches; what is open at its end is closed
        def build(i):
            """Operations from w[i] until the end of the enclosing batch; how they ended."""
            ops = []
            while i < len(w):
                o = w[i]
                i += 1
                if o == 0:
                    inner, i, how = build(i)
                    ops.append({'op': 'batch', 'funs': split(inner)})
                    if how == 'abort':
                        return ops, i, 'abort'
                elif o == -1:
                    return ops, i, 'end'
                elif o == -2:
                    ops.append({'op': 'raise', 'n': len(res) + i})
                    return ops, i, 'abort'
                else:
                    ops.append(dict(recs[o - 1]))
                    ops.append({'op': 'obs', 'what': ['ex', 'deg', 'ts'], 'h': 'w'})
            return ops, i, 'end'

        def split(ops):
            return [ops[:2], ops[2:]] if len(ops) > 2 else [ops]
        ops = []
        i = 0
        while i < len(w):
            part, i, how = build(i)
            for o in part:
                ops.append(o)
                if o['op'] == 'batch':
                    ops.append({'op': 'obs', 'what': ['ex', 'deg', 'ts'], 'h': 'w'})
                    ops.append({'op': 'obs', 'what': ['ex', 'deg', 'ts'], 'h': 'c'})
        c = dict(case, ops=ops, model='batch')
        number(c['ops'])
        res.append(c)
    check.extra['model_transitions_replayed'] = sum(len(d) for d in edges.values())
    return res


def large(check):
    """Batches of many functions and calls with many edges, one of which fails in the end."""
    import big
    rng = random.Random('large-%s' % SEED)
    for n in ((150, 1100) if not THOROUGH else (60, 150, 300, 600, 1100, 2200)):
        c = big.bulk(rng, CORE, n, 'batch')
        obs = c.pop('obs')
        base, x, after = c.pop('base'), c.pop('x'), c.pop('after')
        del c['kind']
        bad = dict(x, funs=x['funs'] + [[dict(obs, h='c'), {'op': 'raise'}]])
        c['ops'] = base + [{'op': 'open', 'name': 'c'}, bad, obs, dict(obs, h='c')] + \
            [dict(x, funs=x['funs'] + [[dict(obs), dict(obs, h='c')]]), obs, dict(obs, h='c')] + after + [{'op': 'reopen'}, obs]
        c['ops'] = json.loads(json.dumps(c['ops']))
        number(c['ops'])
        yield c


def fixed09(check):
    for c in batch_tours(check):
        yield c
    for c in large(check):
        yield c


def c09(replay):
    check = Check('C09', 'model_checking')
    check.rule = ('histories of nested batches, multi-edge calls and queries inside batches, against the same operations one at a '
                  'time; an evaluation is one observation, distinct and non-trivial when the store is not empty and it differs '
                  'from the others of its universe')
    p = Pairs(check)
    for case in sourced(check, replay, 'C09', c09_case, 300, fixed09):
        p.add(case, *c09_pair(case))
    p.decide()
    if not replay:
        design.run(check, 'C09')
    return check.finish()


def sourced(check, replay, prop, make, limit, fixed=None, budget=60):
    """The cases of a check: a replay file, or the fixed ones and random ones."""
    if replay:
        for x in json.load(open(replay)):
            yield x['case']
        return
    if fixed:
        for c in fixed(check):
            yield c
    rng = random.Random('%s-%s' % (prop, SEED))
    t0 = time.time()
    for idx in range(limit * (40 if THOROUGH else 1)):
        if time.time() - t0 > (240 if THOROUGH else budget):
            break
        case = make(rng, idx)
        if len(check.samples) < 2:
            check.samples.append(ps(case))
        yield case


# ---------------------------------------------------------------------------------------------
# C14

def c14_case(rng, idx):
    g = Gen(rng, CORE, nedges=9, natoms=6, maxar=3 if idx % 3 else 4, npats=3, nfact=2,
            weights=dict(add=6, rem=1, bel=1.5, unbel=0.4, rmpat=0.2, destroy=0.08, batch=0.3), obs_every=0.25,
            ts_default=0.5)
    case = g.history(rng.choice([5, 9, 14]))
    case['buffer_max'] = rng.choice([0, 1, 2, 3, 5, 8, 1000])
    tss = rng.sample([0, 1, 7, 1478000000123], 2) + [-1]
    ops = []
    for o in case['ops']:
        if o['op'] in ('add', 'bel') and rng.random() < 0.6:
            o['ts'] = rng.choice(tss)  # runs of adds with the same timestamp
        if o['op'] == 'batch':
            strip_outer(o)
        if o['op'] in ('add', 'bel') and idx % 4 == 3 and rng.random() < 0.4:
            # the database fails at a step of what it writes, if it does, then it is done again
            o['fail'] = rng.choice([1, 2, 3, 5, 9, 15])
        ops.append(o)
        if o['op'] != 'obs' and rng.random() < 0.35:
            pk = g.obs()
            pk['op'] = 'peek'
            ops.append(pk)
        if idx % 4 == 1 and o['op'] != 'obs' and rng.random() < 0.3:
            # the database fails at a step of a flush
            ops.append({'op': 'flush', 'fail': rng.choice([1, 2, 3, 4, 6, 9, 15, 30])})
            pk = g.obs()
            pk['op'] = 'peek'
            ops.append(pk)
        if rng.random() < 0.12:
            ops.append({'op': 'flush'})
            ops.append(dict(g.obs(), h='d'))
            if rng.random() < 0.5:
                ops.append({'op': 'flush'})
                ops.append(dict(g.obs(), h='d'))
    ops.append({'op': 'flush'})
    ops.append(dict(g.obs(), h='d'))
    ops.append(dict(g.obs(), h='c'))
    case['ops'] = ops
    number(case['ops'])
    return case


def strip_outer(o):
    for f in o['funs']:
        for x in f:
            x.pop('outer', None)
            if x['op'] == 'batch':
                strip_outer(x)
            if x['op'] in ('bel', 'unbel', 'rmpat'):
                # the argument of the functions of a batch is the backend, it has no beliefs
                es = x.get('es', [1])
                x.clear()
                x.update({'op': 'note'} if not es else {'op': 'obs', 'what': ['deg'], 'h': 'w'})


def c14_pair(case):
    run = execute(case)
    ops = [{k: v for k, v in o.items() if k != 'fail'} for o in flat(case['ops'], single=False) if o['op'] not in ('flush', 'peek')]
    ops = [dict(o, h='w') if o['op'] == 'obs' and o.get('h') == 'd' else o for o in ops]
    return run, run_control(case, ops)


def c14(replay):
    check = Check('C14', 'model_checking')
    check.rule = ('operations through a buffered hypergraph of random buffer size, observed through it, through the store under it '
                  'and through another handle, against the same operations done directly; an evaluation is one observation, '
                  'distinct and non-trivial when the store is not empty and it differs from the others of its universe')
    p = Pairs(check)
    for case in sourced(check, replay, 'C14', c14_case, 500):
        p.add(case, *c14_pair(case))
    p.decide()
    return check.finish()


# ---------------------------------------------------------------------------------------------
# C17

def mysql_opener(directory):
    import fakemysql

    def f(path):
        fakemysql.install(directory)
        return HyperGraph({'backend': 'mysql', 'db': 'gb', 'host': 'h', 'user': 'u', 'password': 'p'})
    return f


def c17_case(rng, idx):
    kind = ['mysql', 'mysql', 'mysql', 'null'][idx % 4]
    g = Gen(rng, CORE, nedges=8, natoms=6, maxar=3 if idx % 3 else 4, npats=3, nfact=2,
            weights=dict(add=4, rem=2, bel=1, unbel=0.7, rmpat=0.4, destroy=0.2, batch=1, reopen=0.3 if kind == 'mysql' else 0),
            c_view=0.4 if kind == 'mysql' else 0)
    case = g.history(rng.choice([4, 7, 12]))
    case['kind'] = kind
    if kind == 'mysql':
        for o in case['ops']:
            if o['op'] == 'batch' and rng.random() < 0.3:
                o['funs'].append([{'op': 'raise', 'n': rng.randrange(44)}])
            if o['op'] == 'batch' and rng.random() < 0.5:
                # others see nothing of an unfinished batch
                f = o['funs'][rng.randrange(len(o['funs']))]
                f.insert(rng.randrange(len(f) + 1), g.obs('c'))
        case['ops'].insert(0, {'op': 'open', 'name': 'c'})
        case['ops'].append({'op': 'reopen'})
        case['ops'].append(g.obs())
    number(case['ops'])
    return case


def c17_pair(case):
    if case['kind'] == 'null':
        r = execute(case, lambda p: HyperGraph({'backend': 'null'}))
        return r, None
    import tempfile
    d = tempfile.mkdtemp(prefix='mysql.', dir=common.scratch())
    run = execute(case, mysql_opener(d))
    return run, execute(case)


def c17(replay):
    check = Check('C17', 'model_checking')
    check.rule = ('histories on the null backend, and on the MySQL backend over an emulated driver against the same on SQLite; an '
                  'evaluation is one observation, distinct and non-trivial when something is reported to be there (or, on the null '
                  'backend, something was asked)')
    check.assumptions = ['the emulation of the MySQL driver has the parameter style, transactions and row counts of the real one; '
                         'collation and key length of MySQL are not represented']
    p = Pairs(check)
    for case in sourced(check, replay, 'C17', c17_case, 450):
        run, control = c17_pair(case)
        if case['kind'] == 'null':
            run.null = True
        p.add(case, run, control)
    p.decide()
    for name in ('', 'SQLITE', 'mysq', 'nul', 'postgres', None, 'sqlite3', 'sqlite '):
        check.evaluations += 1
        try:
            HyperGraph({'backend': name, 'db': common.scratch() + '/unknown.db'})
            check.violation('backend %r is accepted' % name, {'backend': name})
        except Exception:
            pass
    return check.finish()


# ---------------------------------------------------------------------------------------------
# C13

def encode(v):
    if isinstance(v, tuple):
        return '(%s)' % ' '.join(encode(x) for x in v)
    return str(v)


def write_file(path, u, present, degrees, tss, timestamps=True):
    """A store file as all versions before have written it."""
    import itertools
    con = store._real_connect(path)
    con.execute('CREATE TABLE vertices (id TEXT PRIMARY KEY)')
    con.execute('ALTER TABLE vertices ADD COLUMN degree INTEGER DEFAULT 0')
    if timestamps:
        con.execute('ALTER TABLE vertices ADD COLUMN timestamp INTEGER DEFAULT -1')
    con.execute('CREATE TABLE perms (id TEXT PRIMARY KEY)')
    for v in sorted(degrees):
        if timestamps:
            con.execute('INSERT INTO vertices (id, degree, timestamp) VALUES (?, ?, ?)', (encode(u.val(v)), degrees[v], tss[v]))
        else:
            con.execute('INSERT INTO vertices (id, degree) VALUES (?, ?)', (encode(u.val(v)), degrees[v]))
    for e in present:
        val = u.val(e)
        # permutation k is the k-th in the order of itertools.permutations
        for k, perm in enumerate(itertools.permutations(range(len(val)))):
            con.execute('INSERT OR IGNORE INTO perms (id) VALUES (?)',
                        ('%s %s' % (' '.join(encode(val[i]) for i in perm), k),))
    con.commit()
    con.close()


def c13_case(rng, idx):
    g = Gen(rng, CORE, nedges=8, natoms=6, maxar=3 if idx % 3 else 4, npats=3, nfact=2,
            weights=dict(add=5, rem=1.5, bel=1, unbel=0.7, rmpat=0.3, destroy=0.1, batch=0.5), obs_every=0.0)
    kind = ['live', 'old', 'file', 'empty'][idx % 4]
    case = g.case
    case['kind'] = kind
    if kind in ('old', 'file'):
        case['present'] = sorted(rng.sample(g.edges, rng.randrange(1, min(7, len(g.edges)) + 1)))
        g.present.update(case['present'])
        case['ftss'] = [rng.choice([-1, 5, 77, 1478000000123]) for _ in range(g.u.n)]
    part = []
    first = [g.modify() for _ in range(rng.choice([2, 4, 6]))] if kind == 'live' else []
    part += first
    o = g.obs()
    part.append(o)
    for _ in range(rng.choice([1, 2, 3])):
        k = rng.random()
        if k < 0.5:
            part.append({'op': 'reopen'})
        else:
            part.append({'op': 'open', 'name': rng.choice(['c', 'd2'])})
        part.append(dict(o, h=rng.choice(['w', 'c'])))
    part.append(dict(o, h='w'))
    if rng.random() < 0.5:
        # opened while a batch is under way
        part.append({'op': 'batch', 'funs': [[g.add(), {'op': 'open', 'name': 'c'}, dict(o, h='c'), g.add()]]})
        part.append(g.obs('w'))
        part.append(g.obs('c'))
    for _ in range(3):
        part.append(g.modify())
        part.append(g.obs(rng.choice(['w', 'c'])))
    part.append({'op': 'reopen'})
    part.append(g.obs())
    case['ops'] = part
    number(part)
    return case


def c13_exec(case):
    # whoever opens a store that is being written waits no longer than this
    store.Hooks.connect_args = {'timeout': 0.2}
    try:
        return c13_exec1(case)
    finally:
        store.Hooks.connect_args = {}


def c13_exec1(case):
    kind = case['kind']

    def prepare(r):
        u = r.u
        if kind == 'empty' and len(case['vals']) % 2:
            open(r.path, 'w').close()
        if kind in ('old', 'file'):
            degrees = {}
            for e in case['present']:
                degrees.setdefault(e, 0)
                for v in u.el[e - 1]:
                    degrees[v] = degrees.get(v, 0) + 1
            tss = {v: case['ftss'][v - 1] for v in degrees}
            write_file(r.path, u, case['present'], degrees, tss, kind == 'file')
            # in the specification: each vertex gets the timestamp it has in the file
            r.emit({'op': 'load', 'es': case['present'],
                    'tss': [[v, r.ts(tss[v]) if kind == 'file' else -1] for v in sorted(degrees)]})
    return execute(case, prepare=prepare)


def c13_control(case):
    """The same without reopening, on a store made by the operations themselves."""
    ops = [o for o in case['ops'] if o['op'] not in ('reopen', 'open')]
    ops = [dict(o, h='w') if o['op'] == 'obs' else dict(o) for o in ops]
    for o in ops:
        if o['op'] == 'batch':
            o['funs'] = [[x for x in f if x['op'] not in ('open',) and x.get('h') != 'c'] for f in o['funs']]
    if case.get('present'):
        ops = [{'op': 'add', 'es': [e], 'ts': -1, 'many': True, 'oid': 0} for e in case['present']] + ops
    return run_control(case, ops)


def c13(replay):
    check = Check('C13', 'model_checking')
    check.rule = ('stores made by histories, files written as earlier versions wrote them (with and without timestamps), new and '
                  'empty files, reopened by several handles, also during a batch; an evaluation is one observation, distinct and '
                  'non-trivial when the store is not empty and it differs from the others of its universe')
    p = Pairs(check)
    for case in sourced(check, replay, 'C13', c13_case, 600):
        p.add(case, c13_exec(case), c13_control(case))
    p.decide()
    return check.finish()
