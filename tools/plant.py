"""Makes the planted bugs of /verif/seeded from the definitions of tools/bugs*.py, after confirming each in a scratch copy
of /repo: the stable tests pass with it, its demonstration fails with it and passes without it.

  plant.py make [ID...]     confirm and write seeded/<id>/
  plant.py try [ID...]      apply each to /repo, run the check of its property, undo; prints what was caught
"""
import glob
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET

VERIF = '/verif'
COPY = '/tmp/plant/repo'
PY = '/opt/venv/bin/python'
HEAD = '''import os, shutil, sys, tempfile
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
DIR = tempfile.mkdtemp()
import atexit
atexit.register(lambda: shutil.rmtree(DIR, ignore_errors=True))
'''
HG = '''from gb.hypergraph.hypergraph import HyperGraph
def store(name='gb.db'):
    path = os.path.join(DIR, name)
    return HyperGraph({'backend': 'sqlite', 'db': path, 'hg': path})
'''
TREE = '''from gb.nlp.nlp_token import Token
from gb.nlp.sentence import Sentence
def tok(word, pos='NOUN', dep='', left=(), right=(), ent='', lemma=None):
    t = Token(word)
    t.pos, t.dep, t.entity_type, t.lemma = pos, dep, ent, lemma or word
    t.left_children, t.right_children = list(left), list(right)
    for c in t.left_children + t.right_children:
        c.parent = t
    return t
def out(root, *stages):
    from gb.knowledge.extractor import Extractor
    e = Extractor(None, stages=stages or ('alpha', 'beta', 'gamma', 'delta', 'epsilon'))
    r = e.read_sentence(Sentence(root.to_list()))
    return str(r)
'''


def load():
    bugs = {}
    for p in sorted(glob.glob(os.path.join(VERIF, 'tools', 'bugs*.py'))):
        spec = importlib.util.spec_from_file_location('b', p)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for b in m.BUGS:
            assert b['id'] not in bugs, b['id']
            bugs[b['id']] = b
    return bugs


def sh(cmd, cwd, timeout=300):
    env = dict(os.environ, PYTHONPATH=cwd, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg')
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def passing():
    rep = '/tmp/plant/junit.xml'
    sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=100', '--continue-on-collection-errors', '--junitxml=' + rep,
        '--ignore=gb/hypergraph/tests/test_mysql.py', 'gb'], COPY)
    good = set()
    for c in ET.parse(rep).getroot().iter('testcase'):
        if not list(c):
            good.add('%s::%s' % (c.get('classname'), c.get('name')))
    for f in ('test.db', 'test.db-journal'):
        if os.path.exists(os.path.join(COPY, f)):
            os.unlink(os.path.join(COPY, f))
    return good


def make(ids):
    bugs = load()
    shutil.rmtree('/tmp/plant', ignore_errors=True)
    os.makedirs('/tmp/plant')
    subprocess.check_call(['cp', '-a', '/repo', COPY])
    subprocess.check_call(['git', '-C', COPY, 'checkout', '-q', '--', '.'])
    base = passing()
    print('%d tests pass' % len(base))
    for i in ids or bugs:
        b = bugs[i]
        subprocess.check_call(['git', '-C', COPY, 'checkout', '-q', '--', '.'])
        demo = '/tmp/plant/demo'
        shutil.rmtree(demo, ignore_errors=True)
        os.makedirs(demo)
        body = HEAD + (HG if 'store(' in b['demo'] else '') + (TREE if 'tok(' in b['demo'] else '') + b['demo']
        open(os.path.join(demo, 'demo.py'), 'w').write(body)
        open(os.path.join(demo, 'demo.sh'), 'w').write('#!/bin/bash\nexec %s -B "$(dirname "$0")/demo.py"\n' % PY)
        rc, o = sh(['bash', demo + '/demo.sh'], COPY)
        if rc != 0:
            print('%s: demo fails on the unchanged tree\n%s' % (i, o[-800:]))
            continue
        for f, old, new in b['edits']:
            p = os.path.join(COPY, f)
            s = open(p).read()
            if s.count(old) != 1:
                print('%s: %d places for %r' % (i, s.count(old), old))
                break
            open(p, 'w').write(s.replace(old, new))
        else:
            rc, o = sh(['bash', demo + '/demo.sh'], COPY)
            if rc == 0:
                print('%s: demo passes with the change' % i)
                continue
            lost = base - passing()
            if lost:
                print('%s: tests fail: %s' % (i, sorted(lost)[:4]))
                continue
            # removed lines must be of the original repository
            diff = subprocess.check_output(['git', '-C', COPY, 'diff']).decode()
            d = os.path.join(VERIF, 'seeded', i)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            shutil.copy(demo + '/demo.py', d)
            shutil.copy(demo + '/demo.sh', d)
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            base_files = {}
            note = ''
            for f, old, new in b['edits']:
                orig = subprocess.run(['git', '-C', '/repo', 'show', '38d925f:' + f], stdout=subprocess.PIPE).stdout.decode().split('\n')
                cut = [x[1:] for x in diff.split('\n') if x.startswith('-') and not x.startswith('---')]
                for x in cut:
                    if x.strip() and x not in orig and f in diff.split('+++ b/')[-1].split('\n')[0]:
                        note += ' [not an original line: %s]' % x.strip()
            print('%s: ok%s' % (i, note))
    shutil.rmtree('/tmp/plant', ignore_errors=True)


def trial(ids):
    bugs = load()
    assert subprocess.check_output(['git', '-C', '/repo', 'status', '--short']) == b'', 'dirty'
    for i in ids or sorted(os.listdir(os.path.join(VERIF, 'seeded'))):
        d = os.path.join(VERIF, 'seeded', i)
        prop = json.load(open(os.path.join(d, 'meta.json')))['property']
        subprocess.check_call(['git', '-C', '/repo', 'apply', os.path.join(d, 'patch.diff')])
        try:
            p = subprocess.run([PY, os.path.join(VERIF, 'run.py'), prop], cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
            o = p.stdout.decode('utf-8', 'replace').strip().split('\n')
            print('%-28s %s rc=%d %s' % (i, prop, p.returncode, o[-1][:100] if p.returncode != 1 else (o[-2][:140] if len(o) > 1 else '')), flush=True)
        finally:
            subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])


if sys.argv[1] == 'make':
    make(sys.argv[2:])
else:
    trial(sys.argv[2:])
