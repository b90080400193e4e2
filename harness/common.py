"""Shared machinery: running TLC, evidence files, verdicts, watchdog, scratch directories.

A check is: cases (generated from VERIF_SEED, or derived from TLC's state graph) -> executed against
the code in /repo -> recorded -> decided by TLC on a module of /verif/spec. This file holds what all
the checks share."""

import contextlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO = '/repo'
# the code under test, before anything is imported from it
sys.path.insert(0, REPO)
JAR = '/opt/veriftools/tla/tla2tools.jar'

SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
START = time.time()


class MachineryError(Exception):
    pass


class Hang(BaseException):
    """Raised in the code under test by the watchdog."""


@contextlib.contextmanager
def watchdog(seconds):
    def fire(_sig, _frm):
        raise Hang()
    old = signal.signal(signal.SIGALRM, fire)
    signal.setitimer(signal.ITIMER_REAL, seconds, 0.5)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


_scratch = None


def scratch():
    """A scratch directory of this process, removed at the end."""
    global _scratch
    if _scratch is None:
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        _scratch = tempfile.mkdtemp(prefix='gbverif.', dir=base)
    return _scratch


def cleanup():
    global _scratch
    if _scratch is not None:
        shutil.rmtree(_scratch, ignore_errors=True)
        _scratch = None


_jars = None


def classpath():
    """TLC and the CommunityModules, in the order of the tlc command."""
    global _jars
    if _jars is None:
        jars = [JAR]
        for base in ('/opt/veriftools/tla',):
            for name in sorted(os.listdir(base)):
                if name.endswith('.jar') and name != 'tla2tools.jar':
                    jars.append(os.path.join(base, name))
        _jars = ':'.join(jars)
    return _jars


class TLCResult(object):
    def __init__(self):
        self.out = ''
        self.generated = 0
        self.distinct = 0
        self.printed = []
        self.rc = None
        self.wall = 0.0
        self.cmd = ''


def tlc(module, cfg, data=None, env=None, workers=8, timeout=800, extra=(), heap='4g', ok_codes=(0,)):
    """Runs TLC on spec/module.tla with the given configuration text. `data` is written as
    JSON and its path given to the spec in the environment variable DATA."""
    run = tempfile.mkdtemp(prefix='tlc.', dir=scratch())
    cfg_path = os.path.join(run, module + '.cfg')
    with open(cfg_path, 'w') as f:
        f.write(cfg)
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    if data is not None:
        path = os.path.join(run, 'data.json')
        with open(path, 'w') as f:
            json.dump(data, f)
        e['DATA'] = path
    if env:
        e.update(env)
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=4',
           '-XX:TieredStopAtLevel=%d' % (4 if THOROUGH else 4),
           '-DTLA-Library=' + SPEC, '-cp', classpath(), 'tlc2.TLC',
           '-workers', str(workers), '-metadir', os.path.join(run, 'meta'),
           '-config', cfg_path, '-noGenerateSpecTE'] + list(extra) + [os.path.join(SPEC, module + '.tla')]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=run,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        shutil.rmtree(run, ignore_errors=True)
        raise MachineryError('TLC timed out on %s' % module)
    r = TLCResult()
    r.wall = time.time() - t0
    r.cmd = ' '.join(cmd)
    r.out = p.stdout.decode('utf-8', 'replace')
    r.rc = p.returncode
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', r.out.replace(',', ''))
    m = re.findall(r'([\d,]+) states generated.*?([\d,]+) distinct states found', r.out)
    if m:
        r.generated = int(m[-1][0].replace(',', ''))
        r.distinct = int(m[-1][1].replace(',', ''))
    shutil.rmtree(run, ignore_errors=True)
    if r.rc not in ok_codes:
        raise MachineryError('TLC failed on %s (exit %s):\n%s' % (module, r.rc, r.out[-2500:]))
    return r


TAG = re.compile(r'<<"([A-Z]+)",((?:[^<>]|<(?!<)|>(?!>))*)>>')


def tagged(out, tag):
    """The tuples <<"TAG", int or "string", ...>> that the spec printed."""
    res = []
    flat = out.replace('\n', ' ')
    for m in TAG.finditer(flat):
        if m.group(1) != tag:
            continue
        fields = []
        for fld in re.findall(r'"([^"]*)"|(-?\d+)|(TRUE|FALSE)', m.group(2)):
            if fld[2]:
                fields.append(fld[2] == 'TRUE')
            elif fld[1]:
                fields.append(int(fld[1]))
            else:
                fields.append(fld[0])
        res.append(tuple(fields))
    return res


def ps(case):
    """A case in one short line, for the evidence."""
    s = json.dumps(case, ensure_ascii=True, default=repr)
    return s if len(s) <= 1500 else s[:1500] + '...'


class Check(object):
    """Collects what a check covered and found, and ends it."""

    def __init__(self, prop, level):
        self.prop = prop
        self.level = level
        self.evaluations = 0
        self.distinct = set()
        self.rule = ''
        self.samples = []
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.exhaustive = None

    def add_tlc(self, r):
        self.states += r.distinct
        self.transitions += r.generated

    def violation(self, what, case):
        self.violations.append((what, case))

    def finish(self):
        cov = {'evaluations': self.evaluations,
               'distinct_nontrivial': len(self.distinct),
               'rule': self.rule,
               'samples': self.samples[:4],
               'states': self.states,
               'transitions': self.transitions,
               'traces_validated_against_impl': self.traces}
        cov.update(self.extra)
        if self.exhaustive is not None:
            cov['exhaustive'] = self.exhaustive
        known = known_findings(self.prop)
        fresh = []
        for what, case in self.violations:
            hit = [k for k in known if k['match'] in what]
            if hit:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, hit[0]['text']))
            else:
                fresh.append((what, case))
        ev = {'property': self.prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick',
              'seed': SEED, 'level': self.level, 'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - START, 2), 'violations': len(fresh)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        cleanup()
        if fresh:
            rdir = os.path.join(VERIF, 'evidence', 'replays')
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, self.prop + '.json')
            with open(path, 'w') as f:
                json.dump([{'what': w, 'case': c} for w, c in fresh[:20]], f, indent=1, default=repr)
            for what, _ in fresh[:5]:
                print('  %s' % what)
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        print('OK property=%s evaluations=%d distinct=%d states=%d traces=%d wall=%.1fs' % (
            self.prop, self.evaluations, len(self.distinct), self.states, self.traces,
            time.time() - START))
        return 0


def known_findings(prop):
    """Lines `finding: property=<id> match=<text> :: <what fails>` of known_findings.txt. The lines
    `fixed: ...` of the same file suppress nothing."""
    res = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'finding: property=(\S+) match=(.*?) :: (.*)$', line.strip())
            if m and m.group(1) == prop:
                res.append({'match': m.group(2), 'text': m.group(3)})
    return res
