"""Runs operations against the real store and records what happens, for StoreTrace.tla.

A case is a JSON object
  vals   the vertices of its universe: symbols, numbers, and edges as lists; vertex i of the spec is vals[i-1]
  roots  concept roots to look up
  ops    the operations, in which vertices are given by their number
"""

import os
import random
import shutil
import sqlite3
import sys
import tempfile

import common
from common import Hang, watchdog

# ---------------------------------------------------------------------------------------------
# Every connection of the code under test is made by this class, whose hooks see each statement.

_real_connect = sqlite3.connect


class Hooks(object):
    """before(conn, kind, sql, f) is called for each database step f; made are the open connections."""
    before = None
    connect_args = {}
    made = []


class HookCursor(sqlite3.Cursor):
    def _call(self, f, kind, sql, args):
        return self.connection._step(kind, sql, lambda: f(sql, *args))

    def execute(self, sql, *args):
        return self._call(super(HookCursor, self).execute, 'execute', sql, args)

    def executemany(self, sql, *args):
        return self._call(super(HookCursor, self).executemany, 'executemany', sql, args)

    def executescript(self, sql, *args):
        return self._call(super(HookCursor, self).executescript, 'executescript', sql, args)


class HookConnection(sqlite3.Connection):
    def _step(self, kind, sql, f):
        before = Hooks.before
        if before is None:
            return f()
        return before(self, kind, sql, f)

    def cursor(self, factory=HookCursor):
        return super(HookConnection, self).cursor(factory)

    def execute(self, sql, *args):
        return self.cursor().execute(sql, *args)

    def executemany(self, sql, *args):
        return self.cursor().executemany(sql, *args)

    def executescript(self, sql, *args):
        return self.cursor().executescript(sql, *args)

    def commit(self):
        return self._step('commit', 'COMMIT', super(HookConnection, self).commit)

    def rollback(self):
        return self._step('rollback', 'ROLLBACK', super(HookConnection, self).rollback)


def connect(*args, **kwargs):
    kwargs.setdefault('factory', HookConnection)
    for k, v in Hooks.connect_args.items():
        kwargs[k] = v
    conn = _real_connect(*args, **kwargs)
    Hooks.made.append(conn)
    return conn


sqlite3.connect = connect

sys.path.insert(0, common.REPO)
from gb.hypergraph.hypergraph import HyperGraph  # noqa: E402
from gb.hypergraph.batch_hypergraph import BatchHyperGraph  # noqa: E402
import gb.hypergraph.constants as const  # noqa: E402

# ---------------------------------------------------------------------------------------------


def to_val(j):
    return tuple(to_val(x) for x in j) if isinstance(j, list) else j


def canon(v):
    """Tells apart what Python takes for equal; a list is not a tuple."""
    if isinstance(v, tuple):
        return ('t',) + tuple(canon(x) for x in v)
    if isinstance(v, list):
        return ('l',) + tuple(canon(x) for x in v)
    return (type(v).__name__, repr(v))


def spoil(arg):
    """What the caller does with its lists after the call is its own business."""
    if isinstance(arg, (list, tuple)):
        for x in arg:
            spoil(x)
    if isinstance(arg, list):
        arg[:] = ['spoiled/1', 'x/1', 'y/1'][:max(2, len(arg))]


def listed(v):
    return [listed(x) for x in v] if isinstance(v, tuple) else v


class Universe(object):
    def __init__(self, case):
        self.vals = [to_val(v) for v in case['vals']]
        self.roots = case.get('roots', [])
        self.ids = {}
        for i, v in enumerate(self.vals):
            self.ids.setdefault(canon(v), i + 1)
        self.n = len(self.vals)
        self.el = [[self.ids[canon(x)] for x in v] if isinstance(v, tuple) else [] for v in self.vals]
        cls = {}
        self.cls = [cls.setdefault(v, len(cls) + 1) for v in self.vals]
        self.src = self.ids.get(canon(const.source), 0)
        self.edges = [i + 1 for i in range(self.n) if self.el[i]]

    def val(self, i):
        return self.vals[i - 1]

    def id(self, v):
        try:
            return self.ids.get(canon(v), 0)
        except RecursionError:
            return 0

    def idset(self, vs):
        res = sorted(self.id(v) for v in vs)
        # one that is listed twice is not an answer
        return res + [-7 for a, b in zip(res, res[1:]) if a == b != 0]

    def spec(self):
        def txt(v):
            if isinstance(v, str) and v[:7] != 'http://' and v[:8] != 'https://':
                return [ord(c) for c in v]
            return []
        return {'el': self.el, 'cls': self.cls, 'src': self.src, 'txt': [txt(v) for v in self.vals],
                'roots': [[ord(c) for c in r] for r in self.roots]}


def is_edge(v):
    return isinstance(v, tuple)


class Stop(Exception):
    """The trace ends here: what follows an unexpected error says nothing."""


class Planned(Exception):
    """Raised by a function of a batch, on purpose."""


class Interrupt(BaseException):
    """The same, of the kind that is not an Exception."""


PLANNED = (Planned, Interrupt)
# errors of all kinds are errors
KINDS = [Planned] + [type(c.__name__, (Planned, c), {}) for c in (StopIteration, KeyError, sqlite3.OperationalError, RuntimeError, ValueError, sqlite3.IntegrityError,
                                                                  OSError, StopAsyncIteration, AttributeError, Warning)]
BASEKINDS = [Interrupt] + [type(c.__name__, (Interrupt, c), {}) for c in (KeyboardInterrupt, SystemExit, GeneratorExit)]
RETURNS = [None, False, True, 0, 'x', ()]


class Runner(object):
    """Executes the operations of a case, recording the lines of its trace."""

    timeout = 20

    def __init__(self, case, opener=None, path=None):
        self.case = case
        self.u = Universe(case)
        self.lines = []
        self.tss = {-1: -1}
        self.dir = tempfile.mkdtemp(prefix='store.', dir=common.scratch())
        self.path = path or os.path.join(self.dir, 'hg.db')
        self.opener = opener or (lambda p: HyperGraph({'backend': 'sqlite', 'db': p}))
        self.hg = None
        self.hgs = {}
        self.buffered = None
        self.null = False
        self.underlying = None
        self.begun = []
        self.conns = {}
        self.oid = None
        self.stack = []
        self.stopped = False
        self.returned = 0

    def close(self):
        for h in [self.hg, self.underlying] + list(self.hgs.values()):
            self.shut(h)
        shutil.rmtree(self.dir, ignore_errors=True)

    def shut(self, hg):
        """Closes the database connections that were made for this handle."""
        for conn in self.conns.pop(id(hg), []):
            try:
                conn.close()
            except Exception:
                pass

    # -- recording

    def ts(self, ts):
        """Timestamps are numbered, TLC has 32 bit integers."""
        if not isinstance(ts, int):
            return -99
        return self.tss.setdefault(ts, len(self.tss))

    def ts_seen(self, ts):
        return self.tss.get(ts, -99) if isinstance(ts, int) and not isinstance(ts, bool) else -99

    def emit(self, line, hg=None):
        if hg is not None and hg is self.buffered:
            line['b'] = True
        if self.oid is not None:
            line['oid'] = self.oid
        self.lines.append(line)
        return line

    # -- arguments

    def edge_arg(self, i, op):
        v = self.u.val(i)
        return listed(v) if op.get('list') else v

    def edges_arg(self, op):
        vs = [self.edge_arg(i, op) for i in op['es']]
        if len(vs) == 1 and not op.get('many') and not isinstance(vs[0][0], (list, tuple)):
            return vs[0]
        return tuple(vs) if op.get('tuple') else vs

    # -- operations

    def call(self, line, f):
        """Calls the code under test; an unexpected error ends the trace."""
        try:
            with watchdog(self.timeout):
                return f()
        except Stop:
            raise
        except PLANNED:
            raise
        except Hang:
            line['raised'] = 'Hang'
        except Exception as e:
            line['raised'] = type(e).__name__
            line['msg'] = str(e)[:120]
        raise Stop()

    def do(self, op, hg):
        """One operation on hg, a facade or, in a batch, possibly a backend."""
        self.oid = op.get('oid')
        return getattr(self, 'do_' + op['op'])(op, hg)

    def do_add(self, op, hg):
        line = self.emit({'op': 'badd' if hg is self.buffered else 'add', 'es': op['es'], 'ts': self.ts(op['ts'])})
        arg = self.edges_arg(op)
        before = canon(arg)
        if op['ts'] == -1 and not op.get('explicit'):
            ret = self.again(line, op, lambda: hg.add(arg))
        else:
            ret = self.again(line, op, lambda: hg.add(arg, op['ts']))
        line['ret'] = canon(ret) == before
        spoil(arg)

    def do_rem(self, op, hg):
        line = self.emit({'op': 'rem', 'es': op['es']}, hg)
        arg = self.edges_arg(op)
        self.call(line, lambda: hg.remove(arg))

    def do_bel(self, op, hg):
        line = self.emit({'op': 'bbel' if hg is self.buffered else 'bel', 'es': op['es'], 'a': op['a'], 'ts': self.ts(op['ts'])})
        arg = self.edges_arg(op)
        src = self.u.val(op['a'])
        if op['ts'] == -1:
            self.again(line, op, lambda: self.facade(hg).add_belief(src, arg))
        else:
            self.again(line, op, lambda: self.facade(hg).add_belief(src, arg, op['ts']))
        spoil(arg)

    def do_unbel(self, op, hg):
        line = self.emit({'op': 'unbel', 'es': op['es'], 'a': op['a']}, hg)
        self.call(line, lambda: self.facade(hg).remove_belief(self.u.val(op['a']), self.edge_arg(op['es'][0], op)))

    def do_rmpat(self, op, hg):
        line = self.emit({'op': 'rmpat', 'p': op['p']}, hg)
        pat = self.pattern(op['p'])
        self.call(line, lambda: self.facade(hg).remove_by_pattern(pat))

    def do_destroy(self, op, hg):
        line = self.emit({'op': 'destroy'}, hg)
        self.call(line, hg.destroy)

    def do_flush(self, op, hg):
        line = self.emit({'op': 'flush'})
        f = self.buffered.flush
        if 'fail' not in op:
            return self.call(line, f)
        # the database fails at a step of it: then the edges stay in the buffer
        self.failing(line, f, op['fail'])

    def again(self, line, op, f):
        """Calls f; when it is to fail by the database, once more: what it wrote before it failed is not there, or is what it writes."""
        if 'fail' not in op:
            return self.call(line, f)
        note = {'op': line['op']}
        try:
            self.failing(note, f, op['fail'])
        except Stop:
            line.update({k: note[k] for k in ('raised', 'msg') if k in note})
            raise
        if note['failed'] and 'said' not in note:
            line['raised'] = 'no error was reported'
            raise Stop()
        if not note['failed']:
            return note['res']
        return self.call(line, f)

    def failing(self, line, f, step):
        left = [step]
        line['failed'] = False

        def fault(conn, kind, sql, go):
            if kind != 'rollback':
                left[0] -= 1
                if left[0] == 0:
                    line['failed'] = True
                    raise sqlite3.OperationalError('disk I/O error')
            return go()

        def attempt():
            try:
                if line['op'] == 'flush':
                    f()
                else:
                    line['res'] = f()
            except sqlite3.OperationalError:
                if not line['failed']:
                    raise
                line['said'] = True
        Hooks.before = fault
        try:
            self.call(line, attempt)
        finally:
            Hooks.before = None

    def do_peek(self, op, hg):
        """What the store under the buffered hypergraph holds."""
        o = self.observe(self.underlying, op['what'], op)
        o['op'] = 'peek'
        o['max'] = self.case['buffer_max']
        self.emit(o)

    def do_batch(self, op, hg):
        """funs: lists of operations, each executed by one function of the batch."""
        line = self.emit({'op': 'begin'}, hg)
        depth = len(self.stack)
        self.stack.append(1)

        executed, failed = [], []

        def fun(i, ops):
            def f(h):
                executed.append(i)
                target = h
                try:
                    for o in ops:
                        # functions may use their argument or the hypergraph
                        self.do(o, self.hg if o.get('outer') else target)
                except PLANNED as e:
                    failed.append(e)
                    raise
                # what it returns is of no consequence
                self.returned += 1
                return RETURNS[self.returned % len(RETURNS)]
            return f
        planned = False
        end = {'op': 'end'}
        try:
            with watchdog(self.timeout):
                hg.batch_exec([fun(i, ops) for i, ops in enumerate(op['funs'])])
            if executed != list(range(len(op['funs']))) and self.case.get('kind') != 'null':
                end['raised'] = 'executed %s of %d functions' % (executed[-10:], len(op['funs']))
            if failed:
                end['raised'] = 'nothing, although a function raised %s' % type(failed[0]).__name__
        except Stop:
            raise
        except PLANNED as e:
            planned = e
        except Hang:
            end['raised'] = 'Hang'
        except Exception as e:
            end['raised'] = type(e).__name__
            end['msg'] = str(e)[:120]
        self.stack.pop()
        self.oid = op.get('oid')
        if planned:
            if depth > 0:
                raise planned
            self.emit({'op': 'abort'})
            return
        self.emit(end)
        if 'raised' in end:
            raise Stop()

    def do_raise(self, op, hg):
        kinds = BASEKINDS if op.get('base') else KINDS
        raise kinds[op.get('n', op.get('oid', 0)) % len(kinds)]()

    def do_try(self, op, hg):
        """A function of a batch that goes on after an operation that failed, which then has had no effect."""
        for o in op['funs'][0]:
            mark, depth = len(self.lines), len(self.stack)
            try:
                self.do(o, self.hg if o.get('outer') else hg)
            except (Stop,) + PLANNED:
                if any(x.get('raised') == 'Hang' for x in self.lines[mark:]):
                    raise Stop()
                del self.lines[mark:]
                del self.stack[depth:]
                return
            finally:
                self.oid = op.get('oid')

    def empty(self, res):
        """The answer; of the null backend that to use like those of the others."""
        if self.case.get('kind') == 'null' and not isinstance(res, (set, frozenset)):
            raise TypeError('answers with a %s' % type(res).__name__)
        return res

    def facade(self, hg):
        return hg if isinstance(hg, HyperGraph) else self.hg

    def do_reopen(self, op, hg):
        self.shut(self.hg)
        self.hg = self.open()

    def do_open(self, op, hg):
        """Another handle on the same store."""
        name = op.get('name', 'c')
        self.shut(self.hgs.get(name))
        self.hgs[name] = self.open()

    def open(self):
        line = {'op': 'note'}
        self.emit(line)
        Hooks.made = []
        hg = self.call(line, lambda: self.opener(self.path))
        self.conns[id(hg)] = Hooks.made
        Hooks.made = []
        return hg

    # -- observations

    def pattern(self, p):
        return tuple(None if i == 0 else self.u.val(i) for i in p)

    def observe(self, hg, what, op):
        """Everything asked for in `what`, answered by hg."""
        u = self.u
        o = {}
        fac = self.facade(hg)
        # edges to ask about can be given as lists too
        form = listed if op.get('list') else lambda v: v
        vs = [form(v) for v in u.vals]
        if 'vs' in op:
            o['vs'] = op['vs']
            vs = [form(u.val(i)) for i in op['vs']]

        def ex():
            exq = op.get('exq') or u.edges
            res = [i for i in exq if hg.exists(form(u.val(i))) is True]
            o['exq'] = exq
            return res

        def deg():
            res = []
            for v in vs:
                d = hg.degree(v)
                res.append(d if isinstance(d, int) and abs(d) < 10 ** 6 else -99)
            return res

        def ts():
            return [self.ts_seen(hg.timestamp(v)) for v in vs]

        def star():
            return [u.idset(self.empty(hg.star(v))) for v in vs]

        def pats():
            return [[p, u.idset(self.empty(hg.pattern2edges(form(self.pattern(p)))))] for p in op['pats']]

        def fall():
            seen, back = [], []

            how = op.get('how', '')
            if how == 'begun':
                # an enumeration that is never finished
                it = iter(hg.f_all(lambda m: None))
                next(it, None)
                self.begun.append(it)
            elif how == 'raises':
                try:
                    for _ in hg.f_all(lambda m: 1 // 0):
                        pass
                except ZeroDivisionError:
                    pass

            def f(vmap):
                if how == 'query' or self.stack:
                    hg.degree(vmap['vertex'])
                seen.append([u.id(vmap['vertex']), vmap['degree'] if isinstance(vmap['degree'], int) else -99])
                # whatever the function returns, the values of nothing too
                n = len(seen)
                back.append([None, 0, '', (), False, 'r%d' % n, ['r', n], {'r': n}, n][n % 9])
                return back[-1]
            res = list(hg.f_all(f))
            o['fallret'] = [(type(x), x) for x in res] == [(type(x), x) for x in back]
            return seen

        def roots():
            return [u.idset(self.empty(hg.symbols_with_root(r))) for r in u.roots]

        def srcs():
            facts = op.get('facts', [])
            return [[e, u.idset(fac.sources(form(u.val(e))))] for e in facts]

        fs = {'ex': ex, 'deg': deg, 'ts': ts, 'star': star, 'pats': pats, 'fall': fall, 'roots': roots, 'srcs': srcs}
        for w in what:
            try:
                with watchdog(self.timeout):
                    o[w] = fs[w]()
            except Hang:
                o['raised'] = w
                o['msg'] = 'Hang'
                break
            except Exception as e:
                o['raised'] = w
                o['msg'] = '%s: %s' % (type(e).__name__, str(e)[:120])
                o.pop(w, None)
                break
        return o

    def do_obs(self, op, hg):
        h = op.get('h', 'w')
        if h == 'w' and hg is self.buffered:
            h = 'b'
        if h == 'd':
            target, h = self.underlying, 'w'
        elif h in ('w', 'b'):
            target = hg
        else:
            if h not in self.hgs:
                self.do_open({'name': h}, hg)
            target = self.hgs[h]
        o = self.observe(target, op['what'], op)
        o['op'] = 'obs'
        o['h'] = h if h in ('w', 'b') else 'c'
        self.emit(o)
        return o

    def start(self):
        self.hg = self.open()
        if 'buffer_max' in self.case:
            self.underlying = self.hg
            line = self.emit({'op': 'note'})
            self.hg = self.buffered = self.call(
                line, lambda: BatchHyperGraph(self.underlying, self.case['buffer_max']))

    def run(self):
        try:
            self.start()
            for op in self.case['ops']:
                self.do(op, self.hg)
        except Stop:
            self.stopped = True
        except PLANNED:
            self.stopped = True
        return self.lines

    def trace(self, ui):
        t = {'u': ui, 'lines': self.lines}
        if self.null:
            t['null'] = True
        return t


# ---------------------------------------------------------------------------------------------
# universes

SYMS = ['a', 'ab', 'abc', 'a/1', 'a/10', 'a/2', 'b', 'b/1', 'a!', 'a"', "a'", 'a%', 'a_', '~a', 'A', 'is/1',
        'x-y', '-', '.', '..', '-a', '1a', 'a.b', '\u00e9t\u00e9', '\u65e5\u672c/1', 'a\U0001F600', 'a//', 'a/1/2', '+', '#',
        'name_(x)', 'f(x)y', "o'clock/1", 'a;b', '?', '*', 'e', '1e', 'a/', 'ab/1', '0x1', 'src', 'type_of/1']
# symbols that mean something to a database, to a format, or to Python
SYMS += ['\uffff', '\U0010ffff', '\uffffz/1', 'a\uffff', '[a]', '[ab]', '^a', '{', 'a\\', '\\', '--', '--a', "''", '""', '`a`', '$1', ':1', '@x', '%s', '{0}', '\x01', '\x7f',
         '\u200b', '\u0130', 'stra\u00dfe', 'strasse', '\u017f', 's', 'NULL', 'null', 'None', 'True', 'rowid', 'id', 'degree', '1/1', '1-2', '1e5', '-/1', 'nan', 'inf',
         '-inf', '1_000', '\u00b2', '\u0663', '+1', '1.2.3', 'a|b', '&', '=', ',', 'a,b', ':', 'a:b', 'http:', 'http', 'https/1', 'HTTP://x', 'ftp://x', '\ufeffa', 'a\u0300', '\u00e0',
         '\u4e2d', '0/1', '5/7', '0.0/1', '1,5', '0b1', '\u2212' + '1', '1' * 30 + 'x']
URLS = ['http://a.b/c', 'http://a.b', 'http://a.b/F_(b)', 'https://x/y?q=1&r=2', 'https://x', 'http://a.b/c#d']
NUMS = [7, 7.0, 70, 0, -1, 1, 1.5, -7, 0.5, 1e-07, 1.5e+20, 123456789012345678901234567890, -0.25, 3.14, 1e16, 2, 10, -2.5e-10]


# symbols and numbers that some way of comparing or storing texts could take for each other
GROUPS = [
    ['\u00e9', 'e\u0301', 'e', '\u00c9', '\u00e8'], ['ab', 'Ab', 'AB', 'aB'], ['stra\u00dfe', 'strasse', 'STRASSE', 'stra\u1e9ee'],
    ['\u0131x', 'ix', '\u0130x', 'Ix', 'i\u0307x'], ['\u03c3', '\u03c2', '\u03a3'], ['\u017ft', 'st', '\ufb06', '\ufb05'], ['K', '\u212a', 'k', '\uff2b'],
    ['\u00c5', '\u212b', 'A\u030a', 'a\u030a'], ['a_b', 'axb', 'a%b', 'a*b', 'a?b', 'a[x]b'], ['a\u200b', 'a', '\ufeffa', 'a\u00ad', 'a\u0301'],
    ['a', 'a/1', 'a/10', 'a/1/2', 'a//1', 'a/'], ["a'", "a''", 'a"', 'a`', 'a\\', 'a\\\\'], [7, 7.0, 70, -7, '7x', 0.7],
    ['l' * 40 + 'a', 'l' * 40 + 'b', 'l' * 40], ['l' * 254 + 'a', 'l' * 254 + 'b', 'l' * 254 + 'ab', 'l' * 255 + 'a'], ['l' * 900 + 'a', 'l' * 900 + 'b', 'm' + 'l' * 899 + 'a'],
    ['a/b_(c)', 'a/b_c', 'a/(c)', 'a(b)/1', 'a/b_(c)d', 'a/b_((c))', 'a'], ['~a', 'a', '~/a', '~ab', 'a~'], ['http://a.b', 'http://a.b/', 'https://a.b', 'http://A.b', 'http://a.b/c#d', 'http://a.b/c'],
    ['a\U0001F600', 'a\U0001F601', 'a\ud7ff', 'a\uffff', 'a\U0010ffff'], ['a\x01', 'a\x7f', 'a', 'a\x02'], ['\uff11/1', '1/1', '\u0661/1', '\u00b9/1'],
    ['ab', 'abc', 'abcd', 'a', 'b'], ['a-b', 'a.b', 'a+b', 'a,b', 'a:b', 'a;b'], [1e16, 10 ** 16, '1e16x', 1e15, 10 ** 15], [0.1, 0.10000000000000002, 0.1000001, 1e-07, 1.0000000001e-07],
    [9007199254740993, 9007199254740992, 9007199254740994, -9007199254740993], ['None', 'none', 'NULL', 'True', 'nan'],
]


def near(rng, s):
    """A symbol that some comparison of texts could take for s."""
    i = rng.randrange(len(s))
    k = rng.random()
    res = None
    if k < 0.3 and '_' in s:
        res = s.replace('_', rng.choice(['x', '-', '1']), 1)
    elif k < 0.3 and '%' in s:
        res = s.replace('%', rng.choice(['', 'x', 'b/1']), 1)
    elif k < 0.45:
        res = s[:i] + s[i].swapcase() + s[i + 1:]
    elif k < 0.6 and s[i] not in '/()~':
        res = s[:i] + rng.choice('_%?*.') + s[i + 1:]
    elif k < 0.7:
        res = s + rng.choice(['_', '%', '\u0301', '.', '\u200b', '/', '0'])
    elif k < 0.8 and len(s) > 1:
        res = s[:-1]
    elif k < 0.85:
        res = s.replace('\u00e9', 'e\u0301')
    elif k < 0.9:
        res = '~' + s if not s.startswith('~') else s[1:]
    if res and res != s and not res.startswith('http') and '~~' not in res:
        try:
            float(res)
        except ValueError:
            if res.count('(') == res.count(')'):
                return res
    return s + 'x'


def make_universe(rng, natoms=8, nedges=9, links=True, maxar=4, deep=True, lookalikes=True, simple=False, nsrc=2, nfact=3, group=None):
    """A random universe: atoms, edges over them, look-alikes of these edges, links for beliefs."""
    vals = []
    seen = set()

    def put(v):
        if canon(v) not in seen:
            seen.add(canon(v))
            if is_edge(v):
                for x in v:
                    put(x)
            vals.append(v)
        return v

    pool = list(SYMS)
    rng.shuffle(pool)
    atoms = []
    base = rng.choice(['a', 'ab', 'b', 'x'])
    for i in range(natoms):
        r = rng.random()
        if simple or r < 0.45:
            a = pool.pop()
        elif r < 0.65:
            a = rng.choice([base, base + '/1', base + '/10', base + '/', base + 'c', base + '!', base + '/1/2', base + '.'])
        elif r < 0.75:
            a = rng.choice(URLS)
        else:
            a = rng.choice(NUMS)
        atoms.append(a)
    atoms = [a for i, a in enumerate(atoms) if canon(a) not in set(canon(x) for x in atoms[:i])]
    if group:
        atoms = rng.sample(group, min(len(group), 4))
        end = rng.choice(['', '', '/1', 'x']) if all(isinstance(a, str) and '/' not in a for a in atoms) else ''
        atoms = [a + end if end else a for a in atoms]
        base = str(atoms[0]).split('/')[0] or 'a'
    for a in atoms:
        put(a)
    edges = []
    if group:
        frames = [lambda x: ('r/1', x, 'z/1'), lambda x: (x, 'z/1'), lambda x: ('r/1', 'z/1', x), lambda x: ('k', ('r/1', x), 'z/1'), lambda x: (x, x)]
        for f in rng.sample(frames, 3):
            for a in atoms:
                if len(edges) < 9:
                    edges.append(f(a))
                    put(edges[-1])
        nedges, lookalikes = 0, False

    def elem():
        if deep and edges and rng.random() < 0.3:
            return rng.choice(edges)
        return rng.choice(atoms)

    def size(v):
        return 1 + sum(size(x) for x in v) if is_edge(v) else 1

    tries = 0
    while len(edges) < nedges and tries < 200:
        tries += 1
        r = rng.random()
        if edges and lookalikes and r < 0.4:
            e = rng.choice(edges)
            k = rng.random()
            if k < 0.2:
                m = list(e)
                rng.shuffle(m)
                e2 = tuple(m)
            elif k < 0.35 and len(e) < maxar:
                e2 = e + (rng.choice(atoms),)
            elif k < 0.5 and len(e) > 2:
                e2 = e[:-1]
            elif k < 0.6:
                e2 = (e[0], e[1:]) if len(e) > 2 else (e, e[0])
            elif k < 0.7:
                i = rng.randrange(len(e))
                e2 = e[:i] + (e[rng.randrange(len(e))],) + e[i + 1:]
            elif k < 0.8:
                i = rng.randrange(len(e))
                x = e[i]
                y = float(x) if isinstance(x, int) and abs(x) < 10 ** 15 else int(x) if isinstance(x, float) and x == int(x) else x
                e2 = e[:i] + (y,) + e[i + 1:]
            else:
                i = rng.randrange(len(e))
                e2 = e[:i] + (elem(),) + e[i + 1:]
        else:
            ar = rng.choice([2, 2, 3, 3, 3, 3, 4, 4, 5, 6][:3 + 2 * (maxar - 2)] if maxar < 6 else [2, 2, 3, 3, 3, 4, 4, 5, 6])
            e2 = tuple(elem() for _ in range(min(ar, maxar)))
        if size(e2) <= 14 and canon(e2) not in set(canon(x) for x in edges):
            edges.append(e2)
            put(e2)
    if lookalikes and rng.random() < 0.75:
        # edges that differ in symbols of similar texts
        cand = [e for e in edges if any(isinstance(x, str) and not x.startswith('http') for x in e)]
        for _ in range(rng.choice([1, 1, 2])):
            if not cand:
                break
            e = rng.choice(cand)
            i = rng.choice([i for i, x in enumerate(e) if isinstance(x, str) and not x.startswith('http')])
            if rng.random() < 0.3:
                # the other one has a pattern's character
                w = rng.choice(['a_c', 'new_york/1', 'a%', 'x_/1', '100%/1', '_/1', 'a__b'])
                if rng.random() < 0.2:
                    w = 'l' * rng.choice([120, 254, 255, 256, 300]) + rng.choice(['_', '/1'])
                e = e[:i] + (w,) + e[i + 1:]
            for x in (e, e[:i] + (near(rng, e[i]),) + e[i + 1:]):
                if canon(x) not in set(canon(y) for y in edges):
                    edges.append(x)
                    put(x)
    if lookalikes and rng.random() < 0.5:
        # two edges that Python takes for equal
        cand = [e for e in edges if any(type(x) in (int, float) and x == int(x) and abs(x) < 10 ** 15 for x in e)]
        e = rng.choice(cand) if cand else (rng.choice(atoms), rng.choice([7, 0, 70.0]))
        twin = tuple((float(x) if type(x) is int else int(x)) if type(x) in (int, float) and x == int(x) and abs(x) < 10 ** 15 else x for x in e)
        for x in (e, twin):
            if canon(x) not in set(canon(y) for y in edges):
                edges.append(x)
                put(x)
    case = {}
    srcs = []
    if links:
        put(const.source)
        syms = [a for a in atoms]
        for _ in range(nsrc):
            s = rng.choice(syms + ['wn/gb', 'src/1'])
            if canon(s) not in set(canon(x) for x in srcs):
                srcs.append(s)
                put(s)
        # now and then more of them at once
        facts = rng.sample(edges, min(nfact if rng.random() < 0.75 else 6, len(edges)))
        if facts and rng.random() < 0.4:
            # a source that is itself a fact
            srcs[-1] = rng.choice(facts)
        for f in facts:
            for s in srcs:
                put((const.source, f, s))
        if facts and rng.random() < 0.5:
            # edges that only look like the link of a source
            f, s = rng.choice(facts), rng.choice(srcs)
            e = rng.choice([(const.source, s, f), (const.source, f, s, s), (const.source, f), (const.source, (f, s)), (s, f, const.source)])
            if canon(e) not in set(canon(x) for x in edges):
                edges.append(e)
                put(e)
        case['facts'] = facts
    case['vals'] = [listed(v) for v in vals]
    roots = set([base])
    for v in vals:
        if isinstance(v, str) and not v.startswith('http') and rng.random() < 0.6:
            r = v.split('/')[0]
            if r:
                roots.add(r)
                if len(r) > 1 and rng.random() < 0.5:
                    roots.add(r[:-1])
    if group:
        roots = set([base] + [a.split('/')[0] for a in atoms if isinstance(a, str) and a.split('/')[0] and not a.startswith('http')])
    case['roots'] = sorted(roots)[:6]
    u = Universe(case)
    case['facts'] = [u.id(f) for f in case.get('facts', [])]
    case['srcs'] = [u.id(s) for s in srcs]
    case['plain'] = [u.id(e) for e in edges]
    return case, u


def rand_pattern(rng, u, edges):
    """Mostly made from an edge by replacing positions with wildcards."""
    e = u.el[rng.choice(edges) - 1]
    p = list(e)
    k = rng.random()
    for i in range(len(p)):
        if rng.random() < 0.5:
            p[i] = 0
    if k < 0.1:
        p = [0] * len(p)
    elif k < 0.2:
        p = list(e)
    elif k < 0.35:
        p[rng.randrange(len(p))] = rng.randrange(1, u.n + 1)
    elif k < 0.42:
        p = p + [0]
    elif k < 0.49 and len(p) > 2:
        p = p[:-1]
    return p
