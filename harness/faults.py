"""Failing database steps and functions (C10), and crashes (C11).

C10: each modifying operation is executed with its k-th database step failing, for every k, and with a function of the
batch raising at every position; what both handles see afterwards has to be what they saw before, and later operations
have to be effective and durable.
C11: the files of the store are copied before each database step of an operation, as a process that dies there would
leave them, and after it; a copy that is opened has to show all of the operation or nothing. In a second part processes
do die, at every system call that writes to the files of the store (crash shim), and files are put together from the
log of these calls as a loss of power may leave them: of what was not synced any part."""

import ctypes
import hashlib
import json
import os
import random
import shutil
import sqlite3
import struct
import subprocess
import sys
import tempfile
import time

import common
import design
from common import Check, SEED, THOROUGH, MachineryError, ps
import big
import store
from store import Runner, Hooks, HyperGraph, Stop
from gen import Gen
from seq import validate, describe
from txn import number, aborts

WHAT = ['ex', 'deg', 'ts', 'star', 'pats', 'fall', 'roots', 'srcs']


class InjectedError(sqlite3.OperationalError):
    pass


class InjectedIntegrityError(sqlite3.IntegrityError):
    pass


class InjectedDatabaseError(sqlite3.DatabaseError):
    pass


ERRORS = [InjectedError, InjectedDatabaseError, InjectedIntegrityError]


KINDS = ['add', 'addmany', 'rem', 'remmany', 'destroy', 'bel', 'belmany', 'unbel', 'batch', 'batch', 'nested', 'try', 'trynest']


def scenario(rng, idx):
    """A base history, an operation to disturb, and operations to go on with."""
    kind = KINDS[idx % len(KINDS)]
    maxar = 3 if rng.random() < 0.8 else 4
    g = Gen(rng, WHAT, nedges=6, natoms=5, maxar=maxar, npats=2, nfact=2, nsrc=2,
            weights=dict(add=4, rem=1, bel=2, unbel=0.3, rmpat=0, destroy=0, batch=0), obs_every=0.0)
    base = [g.modify() for _ in range(rng.choice([0, 2, 4, 6]))]
    if kind in ('rem', 'remmany', 'destroy', 'unbel') and not base:
        base = [g.add(3), g.bel()]
    if kind == 'add':
        x = g.add(1)
    elif kind == 'addmany':
        x = g.add(3)
    elif kind == 'rem':
        x = g.rem(1)
    elif kind == 'remmany':
        x = g.rem(3)
    elif kind == 'destroy':
        x = g.destroy()
    elif kind in ('bel', 'belmany'):
        x = g.bel()
        if kind == 'belmany' and g.case['facts']:
            x['es'] = [rng.choice(g.case['facts']) for _ in range(2)]
    elif kind == 'unbel':
        x = g.bel()
        base.append(x)
        x = {'op': 'unbel', 'es': [x['es'][0]], 'a': x.get('a', 1)} if x['op'] == 'bel' else g.rem(1)
    elif kind == 'batch':
        x = {'op': 'batch', 'funs': [[g.modify()], [g.modify(), light(g)], [g.add(1)]][:rng.choice([1, 2, 3])]}
    elif kind == 'try':
        ops = [rng.choice([lambda: g.add(3), lambda: g.rem(3), g.bel, g.modify, lambda: g.add(1)])()]
        x = {'op': 'batch', 'funs': [[g.modify(), {'op': 'try', 'funs': [ops]}] + [light(g), g.modify()][:rng.choice([0, 1, 2])],
                                     [g.modify()]][:rng.choice([1, 2])]}
    elif kind == 'trynest':
        x = {'op': 'batch', 'funs': [[g.add(1), {'op': 'try', 'funs': [[
            {'op': 'batch', 'funs': [[g.modify(), g.rem(1)], [g.add(2)]]}]]}, light(g)]]}
    else:
        x = {'op': 'batch', 'funs': [[g.add(1), {'op': 'batch', 'funs': [[g.rem(1)], [g.add(1)]]}], [g.modify()]]}
    if x['op'] == 'batch' and rng.random() < 0.5:
        for f in x['funs']:
            for o in f:
                o['outer'] = True
                for o2 in o['funs'][0] if o['op'] == 'try' else []:
                    o2['outer'] = True
    after = [g.modify(), g.modify()]
    case = g.case
    obs = g.obs()
    obs['fquery'] = False
    case.update({'base': base, 'x': x, 'after': after, 'obs': obs, 'kind': kind})
    number(base, 0)
    number([x], 1000)
    number(after, 2000)
    return case


def light(g):
    return {'op': 'obs', 'what': ['deg'], 'h': 'w'}


def strip(case, ops=()):
    c = {k: v for k, v in case.items() if k not in ('base', 'x', 'after', 'obs')}
    c['ops'] = list(ops)
    return c


class World(object):
    """The store after the base history, to be copied for each disturbance."""

    def __init__(self, case):
        self.case = case
        self.dir = tempfile.mkdtemp(prefix='world.', dir=common.scratch())
        self.path = os.path.join(self.dir, 'base.db')
        r = Runner(strip(case, case['base']))
        try:
            shutil.rmtree(r.dir)
            os.mkdir(r.dir)
            r.path = self.path
            r.run()
        finally:
            r.close()
        self.lines = r.lines
        self.tss = r.tss
        self.ok = not r.stopped
        self.u = r.u

    def runner(self):
        r = Runner(strip(self.case))
        for name in os.listdir(self.dir):
            shutil.copy(os.path.join(self.dir, name), os.path.join(r.dir, name.replace('base.db', 'hg.db')))
        r.lines = list(self.lines)
        r.tss = self.tss
        return r

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def look(r, obs, hg):
    o = r.observe(hg, obs['what'], obs)
    o['op'] = 'obs'
    return o


class Fault(object):
    """Makes the k-th database step fail."""

    def __init__(self, k, mode):
        self.k = k
        self.mode = mode
        self.n = 0
        self.fired = False

    def __call__(self, conn, kind, sql, f):
        if kind == 'rollback':
            return f()
        if self.mode == 'double' and self.fired and 'ROLLBACK' in str(sql).upper():
            # undoing what failed fails as well
            self.mode = 'plain'
            raise InjectedError('disk I/O error')
        self.n += 1
        if self.n == self.k:
            self.fired = True
            if self.mode == 'auto' and conn.in_transaction:
                # some errors undo the transaction on their own
                sqlite3.Connection.rollback(conn)
            raise ERRORS[self.k % 3]('disk I/O error')
        return f()


def fault_run(world, case, k, mode):
    """X with its k-th step failing (or as it is, if k is 0). Returns the runner and if the fault happened."""
    r = world.runner()
    obs = case['obs']
    fault = Fault(k, mode)
    raised = False
    try:
        r.start()
        r.do_open({'name': 'c'}, r.hg)
        before_w = look(r, obs, r.hg)
        before_c = look(r, obs, r.hgs['c'])
        mark = len(r.lines)
        Hooks.before = fault
        try:
            r.do(case['x'], r.hg)
        except (Stop,) + store.PLANNED:
            raised = True
            hang = any(x.get('raised') == 'Hang' for x in r.lines[mark:])
        finally:
            Hooks.before = None
        r.stack = []
        r.oid = None
        # observations are not modifying operations, those that failed say nothing
        r.lines[mark:] = [x for x in r.lines[mark:] if not (x['op'] == 'obs' and 'disk I/O error' in x.get('msg', ''))]
        undone = raised or any(x['op'] == 'abort' for x in r.lines[mark:])
        if raised and not fault.fired and k:
            # it fails without our help: nothing to say
            del r.lines[mark:]
            return r, False, True
        if undone:
            del r.lines[mark:]
            if raised and hang:
                r.emit({'op': 'note', 'hang': True})
            r.emit({'op': 'same', 'a': look(r, obs, r.hg), 'b': before_w, 'clause': 'same-handle'})
            r.emit({'op': 'same', 'a': look(r, obs, r.hgs['c']), 'b': before_c, 'clause': 'other-handle'})
        if undone or not k or goes_on(case):
            for i, op in enumerate(case['after']):
                r.do(op, r.hg)
                r.do(dict(obs, oid=3000 + i), r.hg)
                r.do(dict(obs, h='c', oid=3100 + i), r.hg)
            r.do({'op': 'reopen'}, r.hg)
            r.do(dict(obs, oid=3200), r.hg)
    except Stop:
        r.stopped = True
    finally:
        Hooks.before = None
        r.close()
    return r, fault.fired, undone if not r.stopped else True


def count_steps(world, case):
    """The number of database steps of the operation."""
    r = world.runner()
    fault = Fault(0, 'plain')
    try:
        r.start()
        Hooks.before = fault
        r.do(case['x'], r.hg)
    except (Stop,) + store.PLANNED:
        pass
    finally:
        Hooks.before = None
        r.close()
    return max(fault.n, 2)


def goes_on(case):
    return case['kind'] in ('try', 'trynest')


def without_x(world, case):
    """The control execution: the same without the disturbed operation."""
    c = dict(case, x={'op': 'note'})
    r = world.runner()
    obs = case['obs']
    try:
        r.start()
        r.do_open({'name': 'c'}, r.hg)
        for i, op in enumerate(case['after']):
            r.do(op, r.hg)
            r.do(dict(obs, oid=3000 + i), r.hg)
            r.do(dict(obs, h='c', oid=3100 + i), r.hg)
        r.do({'op': 'reopen'}, r.hg)
        r.do(dict(obs, oid=3200), r.hg)
    except Stop:
        r.stopped = True
    finally:
        r.close()
    return r


def raising(x, salt):
    """X with a function that raises at each position."""
    res = []

    def positions(b, path):
        for fi, f in enumerate(b['funs']):
            for oi in range(len(f) + 1):
                yield path + [(fi, oi)]
            for oi, o in enumerate(f):
                if 'funs' in o:
                    for p in positions(o, path + [(fi, oi)]):
                        yield p
    for p in positions(x, []):
        y = json.loads(json.dumps(x))
        b = y
        for fi, oi in p[:-1]:
            b = b['funs'][fi][oi]
        fi, oi = p[-1]
        b['funs'][fi].insert(oi, {'op': 'raise', 'base': len(res) % 3 == 2, 'n': salt + len(res)})
        res.append(y)
    return res


def sourced(check, replay, prop, limit, budget):
    if replay:
        for x in json.load(open(replay)):
            yield x['case']
        return
    rng = random.Random('%s-%s' % (prop, SEED))
    t0 = time.time()
    for idx in range(limit * (30 if THOROUGH else 1)):
        if time.time() - t0 > (300 if THOROUGH else budget):
            break
        yield scenario(rng, idx)
    for kind, n in [('add', 700), ('rem', 320), ('batch', 600), ('destroy', 260)] + ([('add', 2100), ('batch', 1300)] if THOROUGH else []):
        case = big.bulk(rng, WHAT, n, kind)
        number(case['base'], 0)
        number([case['x']], 10000)
        number(case['after'], 2000)
        yield case
    for kind in ('add', 'rem', 'add1', 'rem1', 'bel', 'unbel', 'mixed'):
        case = big.broad(rng, WHAT, kind)
        number(case['base'], 0)
        number([case['x']], 10000)
        number(case['after'], 2000)
        yield case


class Verdicts(object):
    def __init__(self, check):
        self.check = check
        self.runs = []

    def add(self, case, r, control=None):
        self.runs.append((case, r, control))

    def decide(self):
        check = self.check
        traces, us, index = [], [], {}
        for case, r, control in self.runs:
            for x in (r, control):
                if x is not None and id(x) not in index:
                    us.append(x.u)
                    index[id(x)] = len(traces)
                    traces.append(x.trace(len(us) - 1))
        bad = validate(check, traces, us)
        by = {}
        for (ti, li), cl in bad.items():
            by.setdefault(ti, []).append((li, cl))
        for case, r, control in self.runs:
            excused = set()
            if control is not None:
                for li, cl in by.get(index[id(control)], []):
                    for c in cl:
                        excused.add((control.lines[li].get('oid'), c))
                        if c == 'raised':
                            excused.add('raised')
            start = r.mark
            for li, cl in sorted(by.get(index[id(r)], [])):
                line = r.lines[li]
                if li < start:
                    continue
                for c in sorted(cl):
                    if (line.get('oid'), c) in excused or (c == 'raised' and 'raised' in excused):
                        continue
                    check.violation('%s [%s]' % (describe(case, line, c), r.label), dict(case, disturbance=r.label))


def c10(replay):
    check = Check('C10', 'fault_enumeration')
    check.rule = ('one execution per database step of each disturbed operation, with this step failing (with and without the '
                  'database undoing the transaction by itself), and per position of a raising function in each batch; it is '
                  'distinct and non-trivial when the operation failed after at least one step that had succeeded')
    v = Verdicts(check)
    steps = 0
    for si, case in enumerate(sourced(check, replay, 'C10', 39, 90)):
        world = World(case)
        if not world.ok:
            world.close()
            continue
        control = without_x(world, case)
        control.mark = 0
        if si < 2:
            check.samples.append(ps(case))
        xs = [case['x']]
        # the steps of the operation
        k = 0
        misses = 0
        some = None
        if 'big' in case:
            # far into the operation, and at its end
            total = count_steps(world, case)
            some = sorted(set([total, total - 1, total * 2 // 3, random.Random(si).randrange(1, total)] +
                              [random.Random(si).randrange(1, total) for _ in range(6 if case['kind'] == 'broad' else 0)]))
        while misses < 1 and k < 400 and some != []:
            k += 1
            if some:
                k = some.pop(0)
            mode = ('plain', 'auto', 'plain', 'auto', 'double')[(k + si) % 5]
            modes = ('plain', 'auto', 'double') if THOROUGH else (mode,)
            for mode in modes:
                r, fired, undone = fault_run(world, case, k, mode)
                if not fired:
                    misses = 0 if some else 1
                    break
                r.mark = len(world.lines)
                r.label = 'step %d fails (%s)' % (k, mode)
                check.evaluations += 1
                steps += 1
                if k > 1:
                    check.distinct.add((si, k))
                if undone or goes_on(case):
                    v.add(case, r, control)
        if case['x']['op'] == 'batch':
            ys = raising(case['x'], 5 * si) if 'big' not in case else [dict(case['x'], funs=case['x']['funs'] + [[{'op': 'raise'}]])]
            for i, y in enumerate(ys):
                c = dict(case, x=y)
                r, fired, undone = fault_run(world, c, 0, 'plain')
                r.mark = len(world.lines)
                r.label = 'function raises at %d' % i
                check.evaluations += 1
                check.distinct.add((si, 'f', i))
                v.add(c, r, control)
        world.close()
    check.extra['failed_steps'] = steps
    v.decide()
    if not replay:
        design.run(check, 'C10')
    return check.finish()


# ---------------------------------------------------------------------------------------------
# C11

class Snapshots(object):
    """Copies the files of the store before each database step."""

    def __init__(self, r, directory, every=1):
        self.r = r
        self.dir = directory
        self.snaps = []
        self.n = 0
        self.every = every

    def take(self):
        d = os.path.join(self.dir, str(len(self.snaps)))
        os.mkdir(d)
        for name in os.listdir(self.r.dir):
            shutil.copy(os.path.join(self.r.dir, name), os.path.join(d, name))
        self.snaps.append(d)
        return d

    def __call__(self, conn, kind, sql, f):
        self.n += 1
        if self.n % self.every == 0 or kind == 'commit':
            self.take()
        return f()


def reopened(r, directory, obs):
    """What a process that opens this copy finds."""
    line = {'op': 'note'}
    Hooks.made = []
    try:
        hg = r.opener(os.path.join(directory, 'hg.db'))
        return look(r, obs, hg)
    except Exception as e:
        return {'op': 'obs', 'raised': 'open', 'msg': '%s: %s' % (type(e).__name__, e)}
    finally:
        for c in Hooks.made:
            try:
                c.close()
            except Exception:
                pass
        Hooks.made = []


def crash_run(world, case, spill):
    r = world.runner()
    obs = case['obs']
    d = tempfile.mkdtemp(prefix='snaps.', dir=common.scratch())
    snaps = Snapshots(r, d, 60 if case['kind'] == 'broad' else 900 if 'big' in case else 1)
    n = 0
    try:
        r.start()
        if spill:
            for conn in r.conns[id(r.hg)]:
                store._real_connect  # the connection of the handle gets a tiny page cache
                sqlite3.Connection.execute(conn, 'PRAGMA cache_size=1')
        before = look(r, obs, r.hg)
        mark = len(r.lines)
        Hooks.before = snaps
        try:
            r.do(case['x'], r.hg)
        finally:
            Hooks.before = None
        del r.lines[mark:]
        after = look(r, obs, r.hg)
        final = snaps.take()
        seen = {}
        for s in snaps.snaps[:-1]:
            o = reopened(r, s, obs)
            n += 1
            r.emit({'op': 'either', 'o': o, 'a': before, 'b': after, 'clause': 'crash', 'step': n})
        r.emit({'op': 'same', 'a': reopened(r, final, obs), 'b': after, 'clause': 'returned'})
    except Stop:
        r.stopped = True
        del r.lines[len(world.lines):]
    finally:
        Hooks.before = None
        r.close()
        shutil.rmtree(d, ignore_errors=True)
    return r, n


SHIM = r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <unistd.h>
#include <sys/types.h>
static long armed = 0, count = 0; static int torn = 0;
void shim_arm(long k, int t) { armed = k; torn = t; count = 0; }
long shim_count(void) { return count; }
static int ours(int fd) {
  char p[64], b[4096]; snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(p, b, sizeof b - 1); if (n < 0) return 0; b[n] = 0;
  return strstr(b, "gbverif.") && strstr(b, "hg.db");
}
static int due(int mine) { if (!armed || !mine) return 0; return ++count == armed; }
/* the log of what is done to the files, for the loss of power */
static int logfd = -1;
#define REAL(name) static __typeof__(name) *real; if (!real) real = dlsym(RTLD_NEXT, #name);
static void put(char op, const char *path, long off, long n, const void *data) {
  static ssize_t (*w)(int, const void *, size_t); if (!w) w = dlsym(RTLD_NEXT, "write");
  long h[4]; h[0] = op; h[1] = strlen(path); h[2] = off; h[3] = n;
  if (!strstr(path, "gbverif.")) return;
  w(logfd, h, sizeof h); w(logfd, path, h[1]); if (data) w(logfd, data, n); }
static void putfd(char op, int fd, long off, long n, const void *data) {
  char p[64], b[4096]; snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
  ssize_t r = readlink(p, b, sizeof b - 1); if (r < 0) return; b[r] = 0; put(op, b, off, n, data); }
void shim_log(int fd) { logfd = fd; }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { REAL(pwrite)
  if (logfd >= 0) putfd('w', fd, o, n, b);
  if (armed && due(ours(fd))) { if (torn && n > 1) real(fd, b, n / 2, o); _exit(99); } return real(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(pwrite64)
  if (logfd >= 0) putfd('w', fd, o, n, b);
  if (armed && due(ours(fd))) { if (torn && n > 1) real(fd, b, n / 2, o); _exit(99); } return real(fd, b, n, o); }
ssize_t write(int fd, const void *b, size_t n) { REAL(write)
  if (logfd >= 0 && fd != logfd) putfd('w', fd, lseek(fd, 0, SEEK_CUR), n, b);
  if (armed && due(ours(fd))) { if (torn && n > 1) real(fd, b, n / 2); _exit(99); } return real(fd, b, n); }
int ftruncate(int fd, off_t l) { REAL(ftruncate) if (logfd >= 0) putfd('t', fd, l, 0, 0); if (armed && due(ours(fd))) _exit(99); return real(fd, l); }
int ftruncate64(int fd, off64_t l) { REAL(ftruncate64) if (logfd >= 0) putfd('t', fd, l, 0, 0); if (armed && due(ours(fd))) _exit(99); return real(fd, l); }
int fsync(int fd) { REAL(fsync) if (logfd >= 0) putfd('s', fd, 0, 0, 0); if (armed && due(ours(fd))) _exit(99); return real(fd); }
int fdatasync(int fd) { REAL(fdatasync) if (logfd >= 0) putfd('s', fd, 0, 0, 0); if (armed && due(ours(fd))) _exit(99); return real(fd); }
int unlink(const char *p) { REAL(unlink)
  if (logfd >= 0) put('u', p, 0, 0, 0);
  if (armed && due(strstr(p, "gbverif.") && strstr(p, "hg.db"))) _exit(99); return real(p); }
'''


def shim():
    """The library that ends a process at its k-th write, or None if it can not be built."""
    src = os.path.join(common.scratch(), 'shim.c')
    lib = os.path.join(common.scratch(), 'shim.so')
    with open(src, 'w') as f:
        f.write(SHIM)
    p = subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-w', '-o', lib, src, '-ldl'], capture_output=True)
    if p.returncode:
        raise MachineryError('the crash shim does not build: %s' % p.stderr[:500])
    return lib


def power_log(lib, job):
    """A process that does the operation, logging what it does to the files."""
    d = os.path.join(job['out'], 'power')
    os.mkdir(d)
    for name in os.listdir(job['world']):
        shutil.copy(os.path.join(job['world'], name), os.path.join(d, name.replace('base.db', 'hg.db')))
    pid = os.fork()
    if pid == 0:
        try:
            r = Runner(dict(job['case'], ops=[]))
            r.path = os.path.join(d, 'hg.db')
            r.hg = r.opener(r.path)
            if job['spill']:
                for conn in Hooks.made:
                    sqlite3.Connection.execute(conn, 'PRAGMA cache_size=1')
            shutil.copytree(d, d + '.start')
            lib.shim_log(ctypes.c_int(os.open(os.path.join(job['out'], 'log'), os.O_WRONLY | os.O_CREAT)))
            r.do(job['case']['x'], r.hg)
            lib.shim_log(ctypes.c_int(-1))
        except BaseException:
            os._exit(98)
        os._exit(0)
    os.waitpid(pid, 0)


def read_log(path):
    """The events: (what, file, position, bytes)."""
    events = []
    with open(path, 'rb') as f:
        while True:
            h = f.read(32)
            if len(h) < 32:
                return events
            op, np, off, n = struct.unpack('4l', h)
            name = f.read(np).decode('utf-8', 'replace')
            events.append((chr(op), os.path.basename(name), off, f.read(n) if chr(op) == 'w' else b''))


class Disk(object):
    """The files that a loss of power may leave: of what was not synced, any part."""

    def __init__(self, directory):
        self.files = {}
        for name in os.listdir(directory):
            if name.startswith('hg.db'):
                with open(os.path.join(directory, name), 'rb') as f:
                    self.files[name] = {'data': f.read(), 'pending': [], 'made': True, 'gone': False}
        self.left = []

    def apply(self, event):
        op, name, off, data = event
        f = self.files.get(name)
        if op == 's' and not name.startswith('hg.db'):
            # the directory
            self.left = []
            for f in self.files.values():
                f['made'] = True
        elif op == 'u':
            if f is not None:
                self.left = [(name, f)]
                del self.files[name]
        elif op == 's':
            if f is not None:
                f['data'] = play(f['data'], f['pending'])
                f['pending'] = []
                f['made'] = True
        else:
            if f is None:
                f = self.files[name] = {'data': b'', 'pending': [], 'made': False}
            f['pending'].append((op, off, data))

    def image(self, how, rng):
        res = {}
        files = list(self.files.items())
        if how == 'none' or how == 'some' and rng.random() < 0.3:
            files = self.left + files
        for name, f in files:
            if not f['made'] and (how == 'none' or how == 'some' and rng.random() < 0.3):
                continue
            ps = f['pending'] if how == 'all' else [] if how == 'none' else [p for p in f['pending'] if rng.random() < 0.5]
            if how == 'some' and ps and rng.random() < 0.3:
                # sectors are written as a whole
                op, off, data = ps[-1]
                if len(data) > 512:
                    ps = ps[:-1] + [(op, off, data[:512 - off % 512])]
            res[name] = play(f['data'], ps)
        return res


def play(data, pending):
    b = bytearray(data)
    for op, off, d in pending:
        if op == 't':
            if off < len(b):
                del b[off:]
            else:
                b.extend(bytes(off - len(b)))
        elif d:
            if off > len(b):
                b.extend(bytes(off - len(b)))
            b[off:off + len(d)] = d
    return bytes(b)


def power_images(out, seed, limit):
    """Directories with what a loss of power may leave, at any moment of the operation."""
    if not os.path.exists(os.path.join(out, 'log')):
        return
    rng = random.Random(seed)
    events = read_log(os.path.join(out, 'log'))
    disk = Disk(os.path.join(out, 'power.start'))
    todo = []
    seen = set()
    for k in range(len(events) + 1):
        for how in ('none', 'some', 'some', 'all'):
            im = disk.image(how, rng)
            h = hashlib.sha256(repr(sorted((n, hashlib.sha256(c).digest()) for n, c in im.items())).encode()).digest()
            if h not in seen:
                seen.add(h)
                todo.append((k, how, im))
        if k < len(events):
            disk.apply(events[k])
    for k, how, im in (todo if len(todo) <= limit else rng.sample(todo, limit)):
        d = os.path.join(out, 'image')
        os.mkdir(d)
        for name, c in im.items():
            with open(os.path.join(d, name), 'wb') as f:
                f.write(c)
        yield k, how, d
        shutil.rmtree(d)


def kill_child(jobs_path):
    """Runs in a process with the shim: forks a process per crash point, each dies there."""
    lib = ctypes.CDLL(os.environ['LD_PRELOAD'])
    jobs = json.load(open(jobs_path))
    deadline = time.time() + jobs['budget']
    done = []
    for ji, job in enumerate(jobs['jobs']):
        k = 0
        while k < 300:
            k += 1
            d = os.path.join(job['out'], str(k))
            os.mkdir(d)
            for name in os.listdir(job['world']):
                shutil.copy(os.path.join(job['world'], name), os.path.join(d, name.replace('base.db', 'hg.db')))
            pid = os.fork()
            if pid == 0:
                try:
                    r = Runner(dict(job['case'], ops=[]))
                    r.path = os.path.join(d, 'hg.db')
                    r.hg = r.opener(r.path)
                    if job['spill']:
                        for conn in Hooks.made:
                            sqlite3.Connection.execute(conn, 'PRAGMA cache_size=1')
                    lib.shim_arm(ctypes.c_long(k), ctypes.c_int(job['torn']))
                    r.do(job['case']['x'], r.hg)
                    lib.shim_arm(ctypes.c_long(0), ctypes.c_int(0))
                except BaseException:
                    os._exit(98)
                os._exit(0)
            _, status = os.waitpid(pid, 0)
            code = os.waitstatus_to_exitcode(status)
            done.append([ji, k, code])
            if code != 99 or time.time() > deadline:
                break
        power_log(lib, job)
        if time.time() > deadline:
            break
    with open(jobs['result'], 'w') as f:
        json.dump(done, f)


def kills(check, v, cases):
    """Processes that die at a write, and what is found afterwards."""
    lib = shim()
    d = tempfile.mkdtemp(prefix='kills.', dir=common.scratch())
    jobs, worlds = [], []
    for i, case in enumerate(cases):
        world = World(case)
        worlds.append(world)
        out = os.path.join(d, 'j%d' % i)
        os.mkdir(out)
        jobs.append({'case': {k: c for k, c in case.items() if k not in ('base', 'after', 'obs')}, 'world': world.dir,
                     'out': out, 'spill': i % 2, 'torn': (i // 2) % 2})
    path = os.path.join(d, 'jobs.json')
    with open(path, 'w') as f:
        json.dump({'jobs': jobs, 'result': os.path.join(d, 'result.json'), 'budget': 120 if THOROUGH else 12}, f)
    env = dict(os.environ, LD_PRELOAD=lib, GBVERIF_SCRATCH=d)
    code = ('import sys; sys.dont_write_bytecode = True; sys.path.insert(0, %r); import common; common._scratch = %r; '
            'import faults; faults.kill_child(%r); import os; os._exit(0)') % (os.path.dirname(os.path.abspath(__file__)), d, path)
    p = subprocess.run([sys.executable, '-B', '-c', code], env=env, capture_output=True, timeout=600)
    if p.returncode or not os.path.exists(os.path.join(d, 'result.json')):
        raise MachineryError('crash child failed: %s' % p.stderr[-1500:])
    done = json.load(open(os.path.join(d, 'result.json')))
    died = lost = 0
    for i, case in enumerate(cases):
        world = worlds[i]
        r = world.runner()
        obs = case['obs']
        try:
            r.start()
            before = look(r, obs, r.hg)
            mark = len(r.lines)
            r.do(case['x'], r.hg)
            del r.lines[mark:]
            after = look(r, obs, r.hg)
            for ji, k, code in done:
                if ji != i:
                    continue
                o = reopened(r, os.path.join(d, 'j%d' % i, str(k)), obs)
                check.evaluations += 1
                if code == 99:
                    died += 1
                    check.distinct.add(('kill', i, k))
                    r.emit({'op': 'either', 'o': o, 'a': before, 'b': after, 'clause': 'crash', 'write': k})
                elif code == 0:
                    r.emit({'op': 'same', 'a': o, 'b': after, 'clause': 'returned'})
            for k, how, image in power_images(os.path.join(d, 'j%d' % i), SEED * 1000 + i, 120 if THOROUGH else 24):
                check.evaluations += 1
                lost += 1
                check.distinct.add(('power', i, k, how))
                r.emit({'op': 'either', 'o': reopened(r, image, obs), 'a': before, 'b': after, 'clause': 'power', 'event': k, 'kept': how})
            r.mark = len(world.lines)
            r.label = 'process dies at a write'
            v.add(case, r)
        except Stop:
            pass
        finally:
            r.close()
            world.close()
    shutil.rmtree(d, ignore_errors=True)
    check.extra['processes_killed'] = died
    check.extra['losses_of_power'] = lost


def c11(replay):
    check = Check('C11', 'fault_enumeration')
    check.rule = ('one evaluation per crash point: before each database step of each operation (copies of the files of the store, '
                  'with normal and with tiny page cache), and processes that die at each write system call to these files, also '
                  'with half of the write done; and files as a loss of power may leave them, with any part of the writes not synced; distinct and non-trivial when the operation had begun')
    check.assumptions = ['writes that were synced survive a loss of power, and a sector is written as a whole or not at all']
    v = Verdicts(check)
    killed = []
    for si, case in enumerate(sourced(check, replay, 'C11', 33, 60)):
        world = World(case)
        if not world.ok:
            world.close()
            continue
        if si < 2:
            check.samples.append(ps(case))
        if si < 11 or THOROUGH and si < 60 or replay:
            killed.append(case)
        r, n = crash_run(world, case, si % 2)
        r.mark = len(world.lines)
        r.label = 'crash'
        check.evaluations += n + 1
        for k in range(1, n + 1):
            check.distinct.add((si, k))
        v.add(case, r)
        world.close()
    kills(check, v, killed)
    v.decide()
    if not replay:
        design.run(check, 'C11')
    return check.finish()
