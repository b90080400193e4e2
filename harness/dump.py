"""C29: the filter of wiki dumps."""

import importlib.util
import io
import itertools
import json
import os
import random
import subprocess
import sys

import cases as decided
import common
from common import Check, SEED, THOROUGH, ps, watchdog, Hang, scratch

SCRIPT = os.path.join(common.REPO, 'python', 'filter_wikidump.py')


def script():
    spec = importlib.util.spec_from_file_location('filter_wikidump_under_test', SCRIPT)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def write(case):
    path = os.path.join(scratch(), 'dump.xml')
    with open(path, 'wb') as f:
        f.write(''.join(x['s'] for x in case['lines']).encode('utf-8'))
    return path


def record(case, mod):
    path = write(case)
    o = {'lines': case['lines'], 'raised': '', 'out': ''}
    raw = io.BytesIO()
    old = sys.stdout
    try:
        if case.get('process'):
            p = subprocess.run([sys.executable, '-B', SCRIPT, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60,
                               cwd=scratch(), env=dict(os.environ, LANG='C.UTF-8', PYTHONIOENCODING='utf-8'))
            if p.returncode != 0:
                o['raised'] = p.stderr.decode('utf-8', 'replace')[-100:]
            o['out'] = p.stdout.decode('utf-8', 'replace')
            return o
        sys.stdout = io.TextIOWrapper(raw, encoding='utf-8', newline='')
        with watchdog(60):
            mod.main([path])
        sys.stdout.flush()
        o['out'] = raw.getvalue().decode('utf-8', 'replace')
    except Hang:
        o['raised'] = 'Hang'
    except Exception as e:
        o['raised'] = '%s: %s' % (type(e).__name__, str(e)[:100])
    finally:
        sys.stdout = old
    return o


def line(k, rng=None, n=0, title=None, end='\n'):
    pick = (lambda xs: rng.choice(xs)) if rng else (lambda xs: xs[0])
    ind = pick(['  ', '', '    ', '\t'])
    if k == 'open':
        return {'k': 'open', 's': ind + '<page>' + pick(['', ' ']) + end, 't': []}
    if k == 'close':
        return {'k': 'close', 's': ind + '</page>' + pick(['', ' ']) + end, 't': []}
    if k in ('good', 'bad'):
        if title is None:
            title = pick(['Title %d' % n, '', 'A (b)', 'Ünï', '1/2', 'x;y', 'Talk', 'wide：colon', 'a & b', ' ', '&quot;X&quot;', 'x\u2028y', 'a\x85b', 'a\x0cb', 'a\x1cb', '\ufeff', '\x00', 'a\u00a0b']) if k == 'good' else \
                pick(['Talk:T%d' % n, ':', 'a: b', 'File:x:y', 'b:', ':b', 'Ü:ï', '<b>:', ' :', 'a\u2028:b', 'Talk\x0b:x', 'a:\x85', ':\x1c', '\ufeff:', 'x\x00:'])
        return {'k': 'title', 's': ind + '<title>' + title + '</title>' + end, 't': [ord(c) for c in title]}
    txt = pick(['text %d' % n, 'a: b %d' % n, '', '&lt;page&gt;', '<pages>', 'page', 'title: x', '<title>', '</title>', '<redirect title="A:b" />', '<ns>0</ns>',
                '</text>', '&lt;/page&gt;', '<title/>', '<id>%d</id>' % n, '< page >', '<page', '/page>', ':', '\u2028x', 'x\x0by', '  <revision>', '%s', '\\n',
                '\x00', '\ufeffx', 'a\x1c<page', 'x\x85', '\u2029', '<PAGE>', '</PAGE>', '<TITLE>a:b</TITLE>'])
    return {'k': 'text', 's': ind + txt + end, 't': []}


KINDS = ('open', 'good', 'bad', 'close', 'text')


def fits(ks):
    """Every page has a title; nothing opens in a page."""
    inside = titled = False
    for k in ks:
        if not inside:
            if k == 'open':
                inside, titled = True, False
        elif k == 'open':
            return False
        elif k in ('good', 'bad'):
            titled = True
        elif k == 'close':
            if not titled:
                return False
            inside = False
    return not inside or titled


def gen(rng, n):
    ks = []
    inside = titled = False
    while len(ks) < n or (inside and not titled):
        if not inside:
            k = rng.choice(['open', 'open', 'text', 'good', 'bad', 'close']) if rng.random() < 0.3 else rng.choice(['open', 'open', 'text'])
            inside, titled = k == 'open', False
        elif not titled:
            k = rng.choice(['good', 'bad', 'text'])
            titled = k != 'text'
        else:
            k = rng.choice(['text', 'text', 'close', 'good', 'bad']) if rng.random() < 0.5 else rng.choice(['text', 'close'])
            inside = k != 'close'
        ks.append(k)
    ends = rng.choice([['\n'], ['\n'], ['\r\n'], ['\n', '\r\n']])
    lines = [line(k, rng, i, end=rng.choice(ends)) for i, k in enumerate(ks)]
    if rng.random() < 0.1:
        # the byte order mark
        lines[0]['s'] = '\ufeff' + lines[0]['s']
    if rng.random() < 0.3:
        lines[-1]['s'] = lines[-1]['s'].rstrip('\r\n')
    return {'lines': lines}


def long_cases(rng):
    """Long lines, and many of them, between any two parts of a page."""
    parts = ['open', 'good', 'text', 'close', 'open', 'bad', 'text', 'close', 'open', 'good', 'close', 'text']
    for m in ((100, 1500) if not THOROUGH else (64, 100, 129, 260, 520, 1030, 2100, 5000)):
        for at in range(1, len(parts) + 1):
            lines = [line(k, None, i) for i, k in enumerate(parts[:at])] + [line('text', rng, i) for i in range(m)] + \
                [line(k, None, i) for i, k in enumerate(parts[at:])]
            yield {'lines': lines}
    for n in ((300, 9000, 140000) if not THOROUGH else (300, 1030, 4097, 8200, 9000, 66000, 140000, 1100000)):
        for at in range(1, len(parts) + 1):
            x = line('text')
            x['s'] = rng.choice(['x', 'a: b ', '\u00fc']) * n + '\n'
            yield {'lines': [line(k, None, i) for i, k in enumerate(parts[:at])] + [x] + [line(k, None, i) for i, k in enumerate(parts[at:])]}
    # long titles, with the colon at any place
    for n in (60, 250, 260, 5000):
        for t in ('x' * n, 'x' * n + ':y', 'x:' + 'y' * n, 'x' * n + ':' + 'y' * n, '\u00fc' * n + ':'):
            yield {'lines': [line('open'), line('bad' if ':' in t else 'good', title=t), line('text'), line('close'), line('text', n=1)]}
    # many pages
    yield {'lines': [line(k, rng, i) for i in range(400) for k in ('open', rng.choice(['good', 'bad']), 'text', 'close')]}


def c29(replay):
    check = Check('C29', 'model_checking')
    check.rule = ('an evaluation is one dump filtered by the script, whose output is decided by TLC; distinct and non-trivial when the dump differs '
                  'from all others and has a page')
    rng = random.Random('C29-%s' % SEED)
    if replay:
        cs = [x['case'] for x in json.load(open(replay))]
    else:
        cs = [{'lines': []}]
        top = 7 if not THOROUGH else 9
        for n in range(1, top + 1):
            for ks in itertools.product(KINDS, repeat=n):
                if fits(ks):
                    cs.append({'lines': [line(k, None, i) for i, k in enumerate(ks)]})
        cs += [gen(rng, rng.choice([3, 6, 12, 25, 60])) for _ in range(1500 if not THOROUGH else 20000)]
        cs += [gen(rng, 3000) for _ in range(2)]
        cs += long_cases(rng)
        cs += [dict(gen(rng, 40), process=True) for _ in range(8)]
        check.extra['explanation'] = 'all dumps of up to %d lines of the five kinds, and random longer ones' % top
    try:
        mod = script()
    except Exception as e:
        mod = None
        check.violation('the script can not be loaded: %s' % e, cs[0])
        return check.finish()
    recs = []
    for c in cs:
        recs.append(record(c, mod))
        check.evaluations += 1
        if any(x['k'] == 'open' for x in c['lines']):
            check.distinct.add(hash(json.dumps(c['lines'])))
    check.samples = [ps({'lines': [x['s'] for x in cs[i]['lines']], 'out': recs[i]['out']}) for i in (min(len(cs) - 1, 2000), len(cs) - 1)]
    bad = decided.decide(check, 'Dump', recs, per_group=100)
    for i in sorted(bad, key=lambda i: len(json.dumps(cs[i]))):
        if 'law' in bad[i]:
            raise common.MachineryError('law')
        check.violation('%r gives %r %s' % (''.join(x['s'] for x in cs[i]['lines'])[:200], recs[i]['out'][:200], recs[i]['raised']), cs[i])
    return check.finish()
