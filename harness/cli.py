"""C31: the command line."""

import contextlib
import io
import itertools
import json
import os
import random
import shutil
import sqlite3
import subprocess
import sys
import urllib.parse

import common
from common import Check, SEED, THOROUGH, ps, watchdog, Hang, scratch, tlc, tagged

import lexicon
import store
from store import HyperGraph, const
import fakemysql

lexicon.reader()
with contextlib.redirect_stdout(io.StringIO()):
    try:
        import gb.gbrain as gbrain  # noqa: E402
    except (Exception, SystemExit) as e:
        # then every command fails
        gbrain, UNLOADED = None, '%s: %s' % (type(e).__name__, str(e)[:100])
from click.testing import CliRunner  # noqa: E402
import gb.hypergraph.edge as ed  # noqa: E402

LEX = [{'name': 'dog.n.01', 'pos': 'n', 'lemmas': [{'name': 'dog', 'rels': [['antonym', 2, 1]]}, {'name': 'hound', 'rels': []}], 'rels': [['hypernym', 2]]},
       {'name': 'cat.s.01', 'pos': 's', 'lemmas': [{'name': 'cat', 'rels': []}], 'rels': []}]
RUNSUB = ('import sys; sys.argv[0] = "gbrain"; from gb.gbrain import cli; cli()')


def close_all():
    for c in store.Hooks.made:
        try:
            c.close()
        except Exception:
            pass
    store.Hooks.made[:] = []


def contents(hg):
    seen = []
    for x in hg.f_all(lambda x: x):
        seen.append((repr(x['vertex']), x))
    seen.sort(key=lambda p: p[0])
    edges = [ed.edge2str(x['vertex']) for _, x in seen if isinstance(x['vertex'], tuple)]
    return {'edges': edges, 'all': '; '.join('%s %s' % (r, sorted((str(k), repr(v)) for k, v in x.items() if k != 'vertex')) for r, x in seen)}


class World(object):
    """A scratch directory with the files of SQLite and of the MySQL stand-in."""

    def __init__(self):
        self.top = os.path.join(scratch(), 'cli')
        shutil.rmtree(self.top, ignore_errors=True)
        self.cwd = os.path.join(self.top, 'cwd')
        self.sql = os.path.join(self.top, 'mysql')
        self.copy = os.path.join(self.top, 'copy')
        for d in (self.cwd, self.sql, os.path.join(self.cwd, 'sub')):
            os.makedirs(d)
        fakemysql.install(self.sql)
        fakemysql.calls[:] = []
        self.cache = {}

    def stores(self):
        res = []
        calls = list(fakemysql.calls)
        for base, kind in ((self.cwd, 'sqlite:'), (self.sql, 'mysql:')):
            for d, _, files in os.walk(base):
                for f in files:
                    path = os.path.join(d, f)
                    rel = os.path.relpath(path, base)
                    if f.endswith('-journal') or f.endswith('-wal') or f.endswith('-shm'):
                        continue
                    name = kind + (rel if kind == 'sqlite:' else urllib.parse.unquote(rel[:-len('.mysql')]))
                    key = (path, open(path, 'rb').read())
                    if key not in self.cache:
                        self.cache[key] = self.read(path, kind)
                    res.append(dict(self.cache[key], name=name))
        fakemysql.calls[:] = calls
        return sorted(res, key=lambda s: s['name'])

    def read(self, path, kind):
        shutil.rmtree(self.copy, ignore_errors=True)
        os.makedirs(self.copy)
        f = os.path.join(self.copy, 'x.db') if kind == 'sqlite:' else os.path.join(self.copy, urllib.parse.quote('h,u,x', safe='') + '.mysql')
        shutil.copy(path, f)
        try:
            if kind == 'sqlite:':
                r = contents(HyperGraph({'backend': 'sqlite', 'db': f, 'hg': f}))
            else:
                fakemysql.install(self.copy)
                try:
                    r = contents(HyperGraph({'backend': 'mysql', 'db': 'x', 'host': 'h', 'user': 'u', 'password': 'p'}))
                finally:
                    fakemysql.install(self.sql)
        except (sqlite3.Error, Exception) as e:
            r = {'edges': ['unreadable'], 'all': '%s' % e}
        close_all()
        return r


def args_of(c):
    args = []
    for k, v in c['opts'].items():
        args += ['--%s=%s' % (k, v)] if c.get('eq') else ['--' + k, v]
    return args + [c['cmd']] if not c.get('extra') else args + [c['cmd']] + c['extra']


def params(c):
    """A store named by the options of a step, opened through the library."""
    o = dict({'backend': 'sqlite', 'db': 'gb.db', 'dbhost': 'localhost', 'dbuser': 'gb', 'dbpass': 'gb'}, **c['opts'])
    return {'backend': o['backend'], 'db': o['db'], 'hg': o['db'], 'host': o['dbhost'], 'user': o['dbuser'], 'password': o['dbpass']}


def record(case):
    w = World()
    lines = []
    old = os.getcwd()
    os.chdir(w.cwd)
    t = {'lex': lexicon.spec_lex(LEX), 'src': const.source, 'start': [], 'lines': lines}
    try:
        if gbrain is None:
            raise Exception('the program does not load: ' + UNLOADED)
        for c in case['pre']:
            hg = HyperGraph(params(c))
            for e in c['edges']:
                e = ed.str2edge(e)
                if c.get('src'):
                    hg.add_belief(c['src'], e)
                else:
                    hg.add(e)
            close_all()
        t['start'] = w.stores()
        for c in case['cmds']:
            fakemysql.calls[:] = []
            lexicon.WN.load(LEX, [1, 2])
            line = {'cmd': c['cmd'], 'opts': c['opts'], 'known': c['cmd'] in ('create', 'wordnet', 'shell') and not c.get('extra'), 'calls': []}
            lines.append(line)
            try:
                with watchdog(60):
                    if c.get('process'):
                        p = subprocess.run([sys.executable, '-B', '-c', RUNSUB] + args_of(c), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                           env=dict(os.environ, PYTHONPATH=common.REPO), timeout=50)
                        line['exit'] = p.returncode
                    else:
                        r = CliRunner().invoke(gbrain.cli, args_of(c))
                        line['exit'] = r.exit_code
            except Hang:
                line['cmd'] = 'raised'
                break
            close_all()
            line['calls'] = [{k: v if isinstance(v, str) else '<%r>' % (v,) for k, v in x.items()} for x in fakemysql.calls]
            line['stores'] = w.stores()
    except Exception as e:
        lines.append({'cmd': 'raised', 'what': '%s: %s' % (type(e).__name__, str(e)[:100])})
    finally:
        os.chdir(old)
        close_all()
        shutil.rmtree(w.top, ignore_errors=True)
    return t


VALUES = {'backend': ['sqlite', 'mysql', 'null', 'sqlite', 'mysql', 'neo4j', 'SQLite', 'none', ''],
          'db': ['other.db', 'gb.db', 'sub/x.db', 'gb', 'gb.hg', 'my db.sqlite', 'wordnet', 'Graph', 'GB', 'gb.db.bak', 'a-b_c', 'wn.hg', 'New DB', '\u00fc.db', 'x' * 60, '7', 'sqlite', 'test', ' lead.db', 'trail.db ', '~', '~x.db', '$HOME', '%s', '{0}',
                 'a.b.c', '.hidden', 'A.DB', 'e\u0301.db', '\u00e9.db', 'tab\t.db', 'x;y', 'x&y', "o'x", 'x"y', '*.db', 'x?y=1', 'file_x', 'memory', 'y' * 200,
                 'null', 'mysql', 'gb.db ', 'gb.db-x', 'gb..db', '00', '1.0', 'None', 'gb.DB', '\u65e5\u672c'],
          'dbhost': ['localhost', 'db.example.org', '127.0.0.1', 'gb', 'DB.Example.org', '::1', 'db-1', '10.0.0.7', ' h', 'h ', 'h.', 'host:3307', '127.1', 'LOCALHOST', 'h' * 70, '0'],
          'dbuser': ['', 'gb', 'root', 'mary', 'Mary', 'mary@example', 'a b', 'GB', ' u', 'u ', 'u' * 40, '\u00fc', "u'x", '0', 'u%', 'None'],
          'dbpass': ['gb', 'secret', 'mary', '', 'Secret', 'p w', "p'w\"$x", ' gb', 'gb ', '12345', '=x', 'x=y', 'P' * 80, '\u00fc', 'a\tb', '0', 'None', '%s', '\\n', 'GB']}
EDGES = ['(likes/1 mary/1 food/1)', '(pos/gb dog/wn.dog.n.01 noun/gb)', '(a/1 (b/1 c/1 d/1) 7)', '(is/1 x/1 y/1)']


def backend_valid(b):
    return b in ('sqlite', 'mysql', 'null')


def gen_opts(rng, p):
    o = {k: rng.choice(v) for k, v in VALUES.items() if rng.random() < p}
    # the backend 'none' is that of a hypergraph that only buffers, it is no backend of the command line
    if o.get('backend') == 'none':
        o['backend'] = 'mysql'
    if o.get('backend', 'sqlite') == 'mysql' and '/' in o.get('db', ''):
        o['db'] = 'gb'
    items = list(o.items())
    rng.shuffle(items)
    return dict(items)


def gen(rng):
    p = rng.choice([0.2, 0.5, 0.8])
    pool = [gen_opts(rng, p) for _ in range(3)]
    pre, cmds = [], []
    for _ in range(rng.choice([0, 1, 2, 3])):
        o = rng.choice(pool) if rng.random() < 0.7 else gen_opts(rng, p)
        if backend_valid(o.get('backend', 'sqlite')):
            pre.append({'opts': o, 'edges': rng.sample(EDGES, rng.randrange(0, 4)), 'src': rng.choice([None, 'mary/1', 'wordnet/gb'])})
    for _ in range(rng.choice([1, 2, 3, 4])):
        o = dict(rng.choice(pool))
        if rng.random() < 0.3:
            o.update(gen_opts(rng, 0.3))
            if o.get('backend', 'sqlite') == 'mysql' and '/' in o.get('db', ''):
                o['db'] = 'gb'
        c = {'cmd': rng.choice(['create', 'wordnet', 'shell', 'create', 'wordnet', 'shell', 'read']), 'opts': o, 'eq': rng.random() < 0.3}
        if rng.random() < 0.05:
            c['extra'] = ['more']
        cmds.append(c)
    return {'pre': pre, 'cmds': cmds}


def unusual(rng):
    """Every value of every option, next to stores of similar names."""
    for k, vs in VALUES.items():
        if k == 'backend':
            continue
        for v in vs:
            for backend in ('sqlite', 'mysql') if k == 'db' else ('mysql',):
                if backend == 'mysql' and '/' in v:
                    continue
                o = {'backend': backend, k: v} if rng.random() < 0.5 else {k: v, 'backend': backend, 'dbuser' if k != 'dbuser' else 'dbhost': rng.choice(
                    VALUES['dbuser' if k != 'dbuser' else 'dbhost'])}
                like = dict(o)
                like[k] = rng.choice([v.strip() or 'x', v.lower(), v.upper(), v + 'x', v[:64], v[:-1] or 'x', v.replace(' ', '') or 'x'])
                pre = [{'opts': o, 'edges': EDGES[1:], 'src': 'mary/1'}] if rng.random() < 0.7 else []
                if like[k] != v and '/' not in like[k]:
                    pre.append({'opts': like, 'edges': EDGES[:2], 'src': None})
                yield {'pre': pre, 'cmds': [{'cmd': rng.choice(['create', 'wordnet', 'shell']), 'opts': o, 'eq': rng.random() < 0.3}]}


def systematic():
    """Every command with every set of options given, for each backend, on stores that are there and that are not, next to
    the stores that one forgotten option would name."""
    own = {'db': 'own', 'dbhost': 'h1', 'dbuser': 'u1', 'dbpass': 'p1'}
    for cmd in ('create', 'wordnet', 'shell'):
        for backend in (None, 'sqlite', 'mysql', 'null', 'bogus'):
            for n in range(5):
                for ks in itertools.combinations(own, n):
                    o = {k: own[k] for k in ks}
                    if backend:
                        o['backend'] = backend
                    for there in (False, True):
                        pre = [{'opts': {}, 'edges': [EDGES[0]], 'src': None}]
                        if there and backend != 'bogus':
                            pre.append({'opts': o, 'edges': EDGES[1:], 'src': 'mary/1'})
                        yield {'pre': pre, 'cmds': [{'cmd': cmd, 'opts': o}]}


def c31(replay):
    check = Check('C31', 'model_checking')
    check.rule = ('an evaluation is one command, run on a directory and a server with several stores, all of which are compared before and after by '
                  'TLC; distinct and non-trivial when command, options or stores differ')
    rng = random.Random('C31-%s' % SEED)
    if replay:
        cs = [x['case'] for x in json.load(open(replay))]
    else:
        cs = list(systematic())
        cs += list(unusual(rng))
        cs += [gen(rng) for _ in range(250 if not THOROUGH else 4000)]
        cs += [{'pre': [{'opts': {}, 'edges': EDGES[:2], 'src': None}],
                'cmds': [dict(c, process=True) for c in ({'cmd': 'create', 'opts': {}}, {'cmd': 'create', 'opts': {'db': 'two.db'}},
                                                         {'cmd': 'shell', 'opts': {'db': 'two.db'}}, {'cmd': 'create', 'opts': {'backend': 'x'}})]}]
    recs = []
    for c in cs:
        t = record(c)
        recs.append(t)
        for x in t['lines']:
            check.evaluations += 1
            check.distinct.add(hash(json.dumps([x.get('cmd'), x.get('opts'), x.get('stores')])))
    check.samples = [ps({'case': cs[i], 'recorded': recs[i]['lines']}) for i in (30, len(cs) - 1) if i < len(cs)]
    per = 40
    groups = [recs[i:i + per] for i in range(0, len(recs), per)]
    r = tlc('Cli', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n', {'groups': groups})
    want = sum(len(t['lines']) + 1 for t in recs) + len(groups)
    if r.distinct != want:
        raise common.MachineryError('Cli: %d states, expected %d\n%s' % (r.distinct, want, r.out[-3000:]))
    check.add_tlc(r)
    check.traces += len(recs)
    bad = {}
    for g, tr, clause in tagged(r.out, 'MM'):
        bad.setdefault((g - 1) * per + tr - 1, set()).add(clause)
    for i in sorted(bad, key=lambda i: len(json.dumps(cs[i]))):
        check.violation('%s: %s %s' % (json.dumps([args_of(c) for c in cs[i]['cmds']]), sorted(bad[i]), recs[i]['lines'][-1].get('what', '')), cs[i])
    return check.finish()
