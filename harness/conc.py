"""C12: two or three handles at work on one store file, under a scheduler that decides at each database
step who goes on. TLC searches a sequential order for what they did (ConcTrace)."""

import json
import random
import threading
import time

import common
import design
from common import Check, SEED, THOROUGH, tlc, tagged, ps
import store
from store import Hooks, HyperGraph, Universe, Runner, is_edge, listed, make_universe, rand_pattern, canon
import sqlite3

CFG = 'SPECIFICATION Spec\nINVARIANT StateOk\nINVARIANT Report\nCHECK_DEADLOCK FALSE\n'


class Aborted(BaseException):
    pass


class Scheduler(object):
    """Runs the threads one at a time. Whoever is about to do a database step asks for the turn. `plan` is a list of
    (step number, thread): before that step (counted over all threads) the turn goes to that thread, if it can go on."""

    def __init__(self, n, plan, first):
        self.n = n
        self.plan = dict(plan)
        self.turn = first
        self.cv = threading.Condition()
        self.done = [False] * n
        self.blocked = [False] * n
        self.deadlock = False
        self.steps = 0
        self.me = {}
        self.trace = []
        self.failed = None

    def _runnable(self):
        return [i for i in range(self.n) if not self.done[i] and not self.blocked[i]]

    def _wait(self, i):
        end = time.time() + 30
        while self.turn != i and self.failed is None:
            if not self.cv.wait(1) and time.time() > end:
                self.failed = 'Hang'
                self.cv.notify_all()
        if self.failed is not None:
            raise Aborted()

    def start(self, i):
        with self.cv:
            self.me[threading.get_ident()] = i
            self._wait(i)

    def _switch(self, to):
        self.turn = to
        self.cv.notify_all()

    def finish(self, i):
        with self.cv:
            self.done[i] = True
            self.blocked = [False] * self.n
            r = self._runnable()
            if r:
                self._switch(r[0])

    def before(self, conn, kind, sql, f):
        """A database step."""
        i = self.me.get(threading.get_ident())
        if i is None:
            return f()
        while True:
            with self.cv:
                self.steps += 1
                to = self.plan.get(self.steps)
                if to is not None and to != i and not self.done[to] and not self.blocked[to]:
                    self._switch(to)
                    self._wait(i)
            try:
                res = f()
            except sqlite3.OperationalError as e:
                if 'locked' not in str(e) and 'busy' not in str(e):
                    raise
                with self.cv:
                    # wait for the others, as the driver does
                    self.blocked[i] = True
                    r = self._runnable()
                    if not r:
                        self.deadlock = True
                        self.blocked[i] = False
                        raise
                    self._switch(r[0])
                    self._wait(i)
                continue
            with self.cv:
                # whoever waited may try again, once it gets the turn
                if kind in ('commit', 'rollback') or sql.lstrip()[:6].upper() in ('COMMIT', 'ROLLBA'):
                    self.blocked = [False] * self.n
            return res


class RealTime(object):
    """No scheduler: the threads run by themselves, with the patience that the code under test has."""
    deadlock = False
    failed = None
    before = None

    def __init__(self):
        self.steps = 0
        self.held = threading.Event()

    def start(self, i):
        pass

    def finish(self, i):
        self.held.set()


class Conc(Runner):
    """One thread of a case: executes operations with its own handle."""
    timeout = 60

    def call(self, line, f):
        try:
            return f()
        except Aborted:
            raise
        except Exception as e:
            line['raised'] = type(e).__name__
            line['msg'] = str(e)[:120]
            raise store.Stop()


def nowatch(seconds):
    import contextlib
    return contextlib.nullcontext()


def query1(u, hg, q):
    """A query of a single answer: one moment in time."""
    k, x = q[0], q[1]
    if k == 'ex1':
        return {'ex1': [x, hg.exists(u.val(x)) is True]}
    if k == 'deg1':
        d = hg.degree(u.val(x))
        return {'deg1': [x, d if isinstance(d, int) and abs(d) < 10 ** 6 else -99]}
    if k == 'ts1':
        return {'ts1': [x, hg.timestamp(u.val(x))]}
    if k == 'star1':
        return {'star1': [x, u.idset(hg.star(u.val(x)))]}
    if k == 'pats':
        return {'pats': [[x, u.idset(hg.pattern2edges(tuple(None if i == 0 else u.val(i) for i in x)))]]}
    if k == 'fall':
        seen = []
        list(hg.f_all(lambda m: seen.append([u.id(m['vertex']), m['degree'] if isinstance(m['degree'], int) else -99])))
        return {'fall': seen}
    if k == 'srcs':
        return {'srcs': [[x, u.idset(hg.sources(u.val(x)))]]}
    raise ValueError(k)


class Thread(object):
    def __init__(self, run, i, prog):
        self.run = run
        self.i = i
        self.prog = prog
        self.ops = []
        self.returned = 0
        self.hg = None
        self.error = None

    def one(self, o, hg, lines):
        """One operation on hg; appends what was done to lines."""
        u = self.run.u
        r = self.run
        if o['op'] == 'q':
            line = {'op': 'obs'}
            lines.append(line)
            fac = hg if not o['q'][0] == 'srcs' else self.hg
            res = query1(u, fac, o['q'])
            if 'ts1' in res:
                res['ts1'][1] = r.ts_seen(res['ts1'][1])
            line.update(res)
        elif o['op'] == 'add':
            vs = [u.val(i) for i in o['es']]
            lines.append({'op': 'add', 'es': o['es'], 'ts': r.ts(o['ts'])})
            hg.add(vs[0] if len(vs) == 1 and not is_edge(vs[0][0]) else vs, o['ts'])
        elif o['op'] == 'rem':
            vs = [u.val(i) for i in o['es']]
            lines.append({'op': 'rem', 'es': o['es']})
            hg.remove(vs[0] if len(vs) == 1 and not is_edge(vs[0][0]) else vs)
        elif o['op'] == 'bel':
            vs = [u.val(i) for i in o['es']]
            lines.append({'op': 'bel', 'es': o['es'], 'a': o['a'], 'ts': r.ts(o['ts'])})
            self.hg.add_belief(u.val(o['a']), vs, o['ts'])
        elif o['op'] == 'unbel':
            lines.append({'op': 'unbel', 'es': o['es'], 'a': o['a']})
            self.hg.remove_belief(u.val(o['a']), u.val(o['es'][0]))
        elif o['op'] == 'destroy':
            lines.append({'op': 'destroy'})
            hg.destroy()
        elif o['op'] == 'batch':
            def fun(ops):
                def f(h):
                    for x in ops:
                        self.one(x, self.hg if x.get('outer') else h, lines)
                return f
            hg.batch_exec([fun(x) for x in o['funs']])
        elif o['op'] == 'reopen':
            lines.append({'op': 'note'})
            self.hg = r.open_handle()
        elif o['op'] == 'hold':
            r.sch.held.set()
            time.sleep(o['s'])
        elif o['op'] == 'await':
            r.sch.held.wait(20)
        else:
            raise ValueError(o['op'])

    def main(self):
        sch = self.run.sch
        try:
            sch.start(self.i)
            for o in self.prog:
                # an operation whose first step is its call: what has returned now is before it
                rec = {'lines': [], 'after': [t.returned for t in self.run.threads]}
                self.ops.append(rec)
                try:
                    self.one(o, self.hg, rec['lines'])
                except Aborted:
                    raise
                except Exception as e:
                    rec['lines'].append({'op': 'note', 'raised': '%s: %s' % (type(e).__name__, str(e)[:100])})
                    break
                self.returned += 1
        except Aborted:
            self.error = sch.failed
        finally:
            sch.finish(self.i)


class ConcRun(object):
    """One case under one schedule."""

    def __init__(self, case, plan, first):
        self.case = case
        self.u = Universe(case)
        self.tss = {-1: -1}
        self.plan, self.first = plan, first
        self.conns = []

    def ts(self, ts):
        return self.tss.setdefault(ts, len(self.tss))

    def ts_seen(self, ts):
        return self.tss.get(ts, -99) if isinstance(ts, int) and not isinstance(ts, bool) else -99

    def open_handle(self):
        hg = HyperGraph({'backend': 'sqlite', 'db': self.path})
        return hg

    def run(self):
        base = Runner({'vals': self.case['vals'], 'ops': []})
        self.path = base.path
        real = self.case.get('real')
        Hooks.connect_args = {'check_same_thread': False} if real else {'check_same_thread': False, 'timeout': 0, 'cached_statements': 0}
        Hooks.before = None
        Hooks.made = []
        self.threads = []
        before = []
        try:
            prep = Thread(self, -1, [])
            if self.case.get('before') or not self.case.get('fresh'):
                prep.hg = self.open_handle()
                for o in self.case.get('before', []):
                    prep.one(o, prep.hg, before)
            n = len(self.case['progs'])
            self.sch = Scheduler(n, self.plan, self.first) if not real else RealTime()
            for i in range(n):
                t = Thread(self, i, self.case['progs'][i])
                self.threads.append(t)
                if not self.case.get('fresh'):
                    t.hg = self.open_handle()
            Hooks.before = self.sch.before
            ths = [threading.Thread(target=t.main, daemon=True) for t in self.threads]
            for t in ths:
                t.start()
            for t in ths:
                t.join(60)
            Hooks.before = None
            if any(t.is_alive() for t in ths):
                if not real:
                    with self.sch.cv:
                        self.sch.failed = 'Hang'
                        self.sch.cv.notify_all()
                self.hang = True
            # afterwards, what everybody sees
            whole = {'op': 'obs'}
            final = []
            raised = [l for t in self.threads for o in t.ops for l in o['lines'] if 'raised' in l]
            if not raised:
                handles = [t.hg for t in self.threads if t.hg is not None] + [self.open_handle()]
                what = self.case.get('what', ['ex', 'deg', 'ts', 'fall', 'star'])
                for hg in handles:
                    o = {'op': 'obs'}
                    o.update(self.observe(hg, what))
                    final.append({'lines': [o], 'after': [len(t.ops) for t in self.threads] + [0]})
            threads = [t.ops for t in self.threads] + [final]
            for ops in threads[:-1]:
                for o in ops:
                    o['after'] = o['after'] + [0]
            for k, o in enumerate(final):
                o['after'] = o['after'][:-1] + [0]
            return {'before': before, 'threads': threads}
        finally:
            Hooks.before = None
            for c in Hooks.made:
                try:
                    c.close()
                except Exception:
                    pass
            Hooks.made = []
            Hooks.connect_args = {}
            base.close()

    def observe(self, hg, what):
        o = {}
        u = self.u
        try:
            for w in what:
                if w == 'ex':
                    o['exq'] = u.edges
                    o['ex'] = [i for i in u.edges if hg.exists(u.val(i)) is True]
                elif w == 'deg':
                    o['deg'] = [query1(u, hg, ['deg1', i])['deg1'][1] for i in range(1, u.n + 1)]
                elif w == 'ts':
                    o['ts'] = [self.ts_seen(hg.timestamp(v)) for v in u.vals]
                elif w == 'fall':
                    o['fall'] = query1(u, hg, ['fall', 0])['fall']
                elif w == 'star':
                    o['star'] = [u.idset(hg.star(v)) for v in u.vals]
        except Exception as e:
            o['raised'] = '%s: %s' % (type(e).__name__, str(e)[:100])
        return o


# ---------------------------------------------------------------------------------------------
# cases

def small_universe(rng):
    case, u = make_universe(rng, natoms=4, nedges=5, maxar=rng.choice([2, 2, 3]), nsrc=2, nfact=2, links=rng.random() < 0.5)
    return case, u


def rand_op(rng, case, u, depth=0):
    r = rng.random()
    edges = case['plain']
    facts, srcs = case.get('facts') or [], case.get('srcs') or []
    hot = edges[:3]
    ts = rng.choice([-1, 5, 100, 7])
    if r < 0.27:
        return {'op': 'add', 'es': [rng.choice(hot) for _ in range(rng.choice([1, 1, 2]))], 'ts': ts}
    if r < 0.45:
        return {'op': 'rem', 'es': [rng.choice(hot) for _ in range(rng.choice([1, 1, 2]))]}
    if r < 0.55 and facts and srcs:
        if rng.random() < 0.5:
            return {'op': 'bel', 'es': [rng.choice(facts)], 'a': rng.choice(srcs), 'ts': ts}
        return {'op': 'unbel', 'es': [rng.choice(facts)], 'a': rng.choice(srcs)}
    if r < 0.60:
        return {'op': 'destroy'}
    if r < 0.75 and depth == 0:
        n = rng.choice([1, 2])
        ops = []
        for _ in range(rng.choice([2, 2, 3])):
            o = rand_op(rng, case, u, depth + 1)
            if o['op'] != 'batch' and rng.random() < 0.4:
                o['outer'] = True
            ops.append(o)
        return {'op': 'batch', 'funs': [ops[:1], ops[1:]] if n == 2 else [ops]}
    k = rng.choice(['ex1', 'ex1', 'deg1', 'deg1', 'ts1', 'star1', 'pats', 'fall'])
    e = rng.choice(hot)
    if k == 'ex1':
        return {'op': 'q', 'q': [k, e]}
    if k == 'pats':
        return {'op': 'q', 'q': [k, rand_pattern(rng, u, hot)]}
    if k == 'fall':
        return {'op': 'q', 'q': [k, 0]}
    return {'op': 'q', 'q': [k, rng.choice(u.el[e - 1] + [e])]}


def gen_case(rng, idx):
    case, u = small_universe(rng)
    hot = case['plain'][:3]
    if rng.random() < 0.3:
        case['fresh'] = True
        case['before'] = []
    else:
        case['before'] = [{'op': 'add', 'es': [e], 'ts': 3} for e in case['plain'] if rng.random() < 0.5]
    n = 3 if idx % 5 == 4 else 2
    case['progs'] = []
    for _ in range(n):
        prog = [rand_op(rng, case, u) for _ in range(rng.choice([1, 1, 2, 3] if n == 2 else [1, 1, 2]))]
        if case.get('fresh'):
            prog = [{'op': 'reopen'}] + prog
        case['progs'].append(prog)
    return case


def schedules(case, rng, budget):
    """All single preemptions first, then random ones with more."""
    n = len(case['progs'])
    for first in range(n):
        yield [], first
    run = ConcRun(case, [], 0)
    run.run()
    total = run.sch.steps
    singles = [([(k, to)], first) for first in range(n) for k in range(1, total + 1) for to in range(n) if to != first]
    rng.shuffle(singles)
    for x in singles[:budget]:
        yield x
    for _ in range(budget):
        k = rng.choice([2, 2, 3, 4])
        plan = sorted((rng.randrange(1, total + 2), rng.randrange(n)) for _ in range(k))
        yield plan, rng.randrange(n)


def fixed_cases():
    """The races that matter most, each under all its single preemptions."""
    vals = ['a', 'b', ['a', 'b'], [['a', 'b'], 'a'], ['a', 'a'], 'src/1', 's/1', 't/1',
            ['src/1', ['a', 'b'], 's/1'], ['src/1', ['a', 'b'], 't/1']]
    import gb.hypergraph.constants as const
    vals = json.loads(json.dumps(vals).replace('src/1', const.source))
    e, p, d = 3, 4, 5
    s, t = 7, 8

    def case(before, *progs, **kw):
        return dict({'vals': vals, 'before': before, 'progs': [list(p) for p in progs]}, **kw)
    add = lambda *es, ts=1: {'op': 'add', 'es': list(es), 'ts': ts}
    rem = lambda *es: {'op': 'rem', 'es': list(es)}
    q = lambda *x: {'op': 'q', 'q': list(x)}
    bel = lambda a, ts=1: {'op': 'bel', 'es': [e], 'a': a, 'ts': ts}
    unbel = lambda a: {'op': 'unbel', 'es': [e], 'a': a}
    batch = lambda *funs: {'op': 'batch', 'funs': [list(f) for f in funs]}
    yield case([], [add(e, ts=1)], [add(e, ts=2)])
    yield case([add(e)], [rem(e)], [rem(e)])
    yield case([add(e)], [rem(e)], [add(e, ts=2)])
    yield case([], [add(e, ts=1)], [add(p, ts=2)])
    yield case([add(e), add(p)], [rem(e)], [rem(p)])
    yield case([], [bel(s)], [bel(t, 2)])
    yield case([bel(s)], [unbel(s)], [bel(t, 2)])
    yield case([bel(s), bel(t)], [unbel(s)], [unbel(t)])
    yield case([], [add(e, p, ts=2)], [q('ex1', e), q('ex1', p), q('deg1', 1)])
    yield case([], [batch([add(e), q('ex1', e)], [rem(e)])], [q('ex1', e), add(e, ts=2)])
    yield case([add(e)], [batch([q('deg1', 1), q('ex1', e), rem(e)], [add(d, ts=4)])], [add(d, ts=5), q('ex1', e)])
    yield case([add(e)], [batch([q('deg1', 1)], [q('deg1', 1)])], [add(d, ts=5)])
    yield case([add(e)], [{'op': 'destroy'}, q('ex1', e)], [add(p, ts=2)])
    yield case([], [add(e, ts=2), q('ex1', p)], [add(p, ts=3), q('ex1', e)])
    yield case([], [{'op': 'reopen'}, add(e, ts=2)], [{'op': 'reopen'}, add(p, ts=3)], fresh=True)
    yield case([], [{'op': 'reopen'}, add(e, ts=2), q('ex1', e)], [{'op': 'reopen'}, q('ex1', e), add(d, ts=3)], fresh=True)
    yield case([add(e)], [{'op': 'reopen'}, q('deg1', 1)], [rem(e), add(e, ts=4)])
    yield case([], [batch([add(e)], [batch([add(p)]), q('ex1', p)])], [q('ex1', p), q('ex1', e), add(e, ts=9)])
    yield case([add(e)], [q('fall', 0), q('ts1', e)], [rem(e), add(e, ts=6)])


def patient_cases():
    """Whoever finds the store locked for a moment waits."""
    first = list(fixed_cases())[0]
    vals = first['vals']
    e, p, d, s = 3, 4, 5, 7
    for op in ({'op': 'add', 'es': [d], 'ts': 2}, {'op': 'rem', 'es': [e]}, {'op': 'bel', 'es': [e], 'a': s, 'ts': 3}, {'op': 'unbel', 'es': [e], 'a': s},
               {'op': 'destroy'}, {'op': 'q', 'q': ['ex1', e]}, {'op': 'q', 'q': ['fall', 0]},
               {'op': 'batch', 'funs': [[{'op': 'add', 'es': [e], 'ts': 2}], [{'op': 'rem', 'es': [e]}]]}):
        for new in (False, True):
            yield {'vals': vals, 'before': [{'op': 'add', 'es': [e], 'ts': 1}], 'real': True, 'progs': [
                [{'op': 'batch', 'funs': [[{'op': 'add', 'es': [p], 'ts': 4}, {'op': 'hold', 's': 0.6}, {'op': 'rem', 'es': [e]}]]}],
                [{'op': 'await'}] + [{'op': 'reopen'}] * new + [op]]}


def validate(check, traces, universes):
    ok = set()
    chunk = 1500
    for a in range(0, len(traces), chunk):
        part = traces[a:a + chunk]
        us = sorted(set(t['u'] for t in part))
        remap = {u: i + 1 for i, u in enumerate(us)}
        data = {'universes': [universes[u].spec() for u in us], 'traces': [dict(t, u=remap[t['u']]) for t in part]}
        r = tlc('ConcTrace', CFG, data)
        check.add_tlc(r)
        check.traces += len(part)
        for (i,) in tagged(r.out, 'OK'):
            ok.add(a + i - 1)
    return [i for i in range(len(traces)) if i not in ok]


def c12(replay):
    check = Check('C12', 'model_checking')
    check.rule = ('a case is a pair or triple of programs on one store file, an evaluation one schedule of it (who takes each database '
                  'step), decided by a search for a sequential order; distinct and non-trivial when the operations overlapped and the '
                  'recorded history differs from all others')
    traces, universes, what = [], [], []
    seen = set()

    def do(case, ui, plan, first):
        run = ConcRun(case, plan, first)
        t = run.run()
        check.evaluations += 1
        key = json.dumps([ui, t], sort_keys=True)
        if key in seen:
            return
        seen.add(key)
        t['u'] = ui
        if any(o['after'][j] < len(t['threads'][j]) and j != i for i, th in enumerate(t['threads'][:-1]) for o in th
               for j in range(len(t['threads']) - 1)):
            check.distinct.add(hash(key))
        traces.append(t)
        what.append({'case': case, 'plan': plan, 'first': first})
    if replay:
        for x in json.load(open(replay)):
            c = x['case']
            universes.append(Universe(c['case']))
            do(c['case'], len(universes) - 1, [tuple(p) for p in c['plan']], c['first'])
    else:
        rng = random.Random('C12-%s' % SEED)
        t0 = time.time()
        for case in fixed_cases():
            universes.append(Universe(case))
            for plan, first in schedules(case, rng, 200 if not THOROUGH else 3000):
                do(case, len(universes) - 1, plan, first)
        for case in patient_cases():
            universes.append(Universe(case))
            do(case, len(universes) - 1, [], 0)
        check.extra['fixed_schedules'] = check.evaluations
        end = t0 + (100 if not THOROUGH else 500)
        for idx in range(150 if not THOROUGH else 4000):
            if time.time() > end:
                break
            case = gen_case(rng, idx)
            universes.append(Universe(case))
            for plan, first in schedules(case, rng, 15 if not THOROUGH else 60):
                do(case, len(universes) - 1, plan, first)
        check.samples = [ps({'case': what[5], 'recorded': traces[5]})]
    for i in validate(check, traces, universes):
        t = traces[i]
        raised = [l for th in t['threads'] for o in th for l in o['lines'] if 'raised' in l]
        check.violation('no sequential order gives what was recorded%s: %s' % (
            ' (%s)' % raised[0]['raised'] if raised else '', ps(t['threads'])[:500]), what[i])
    if not replay:
        design.run(check, 'C12')
    return check.finish()
