"""Sequential histories: C01 to C08, C20 (and the validation used by the other store checks)."""

import json
import random
import time

import common
from common import Check, SEED, THOROUGH, tlc, tagged, ps
import store
from store import Runner
from gen import Gen

CFG = 'SPECIFICATION Spec\nINVARIANT StateOk\nCHECK_DEADLOCK FALSE\n'

# clause of the specification -> the property it belongs to
OWNER = {'ex': 'C01', 'pats': 'C02', 'star': 'C03', 'deg': 'C04', 'ts': 'C05', 'fall': 'C06', 'fallret': 'C06',
         'roots': 'C07', 'srcs': 'C08', 'ret': 'C01'}


def validate(check, traces, universes):
    """TLC decides the traces. Returns {(trace index, line index): set of clauses}, both from 0."""
    if not traces:
        return {}
    bad = {}
    chunk = 400
    for a in range(0, len(traces), chunk):
        part = traces[a:a + chunk]
        us = sorted(set(t['u'] for t in part))
        remap = {u: i + 1 for i, u in enumerate(us)}
        data = {'universes': [universes[u].spec() for u in us],
                'traces': [dict(t, u=remap[t['u']]) for t in part]}
        r = tlc('StoreTrace', CFG, data)
        want = sum(len(t['lines']) + 1 for t in part)
        if r.distinct != want:
            raise common.MachineryError('StoreTrace: %d states, expected %d\n%s' % (r.distinct, want, r.out[-3000:]))
        check.add_tlc(r)
        check.traces += len(part)
        for tr, line, clause in tagged(r.out, 'MM'):
            bad.setdefault((a + tr - 1, line - 1), set()).add(clause)
    return bad


def clause_owner(line, clause):
    """The property a failed clause belongs to."""
    if clause == 'raised':
        if line['op'] == 'obs':
            return OWNER[line['raised']]
        return {'add': 'C01', 'rem': 'C01', 'destroy': 'C01', 'bel': 'C08', 'unbel': 'C08',
                'rmpat': 'C20', 'end': 'C09'}.get(line['op'], 'C01')
    return OWNER.get(clause, '?')


def describe(case, line, clause):
    d = {k: v for k, v in line.items() if k not in ('exq',)}
    return 'clause %s fails at %s' % (clause, ps(d)[:600])


def execute(cases, check):
    """Runs the cases; returns traces, universes and which case each trace is of."""
    traces, universes = [], []
    for case in cases:
        r = Runner(case)
        try:
            r.run()
        finally:
            r.close()
        traces.append(r.trace(len(universes)))
        universes.append(r.u)
        check.evaluations += sum(1 for x in r.lines if x['op'] in ('obs',) or 'ret' in x)
        prev = None
        for x in r.lines:
            if x['op'] == 'obs' and x is not None:
                key = json.dumps({k: v for k, v in x.items() if k not in ('exq', 'h', 'op')}, sort_keys=True)
                if any(x.get('ex', [1])):
                    check.distinct.add(hash((key, json.dumps(case['vals']))))
    return traces, universes


PROFILES = {
    # property: what is observed, options of the generator
    'C01': (['ex'], dict(weights=dict(bel=0, unbel=0, destroy=0.3, rmpat=0), links=False, nedges=12)),
    'C02': (['pats'], dict(weights=dict(bel=0.5, unbel=0.5), npats=14, links=True, nfact=2)),
    'C03': (['star'], dict(weights=dict(bel=0.7, unbel=0.5), nfact=2)),
    'C04': (['deg', 'fall'], dict(weights=dict(bel=1, unbel=1, rmpat=0.3, batch=0.5), nedges=10)),
    'C05': (['ts'], dict(weights=dict(bel=0.5, unbel=0.5), ts_default=0.2, nedges=9)),
    'C06': (['fall'], dict(weights=dict(bel=0.7, unbel=0.7, destroy=0.3, batch=0.5))),
    'C07': (['roots'], dict(weights=dict(bel=0.5, unbel=0.5))),
    'C08': (['srcs', 'ex'], dict(weights=dict(add=1.5, rem=1, bel=4, unbel=3, destroy=0.15), nedges=7, nfact=4, nsrc=3)),
    'C20': (['ex', 'deg', 'ts', 'pats'], dict(weights=dict(rmpat=2.5, add=6, rem=1, bel=0.5), nedges=12)),
}

# clauses that decide each property
CLAUSES = {
    'C01': {'ex', 'ret'}, 'C02': {'pats'}, 'C03': {'star'}, 'C04': {'deg', 'fall'}, 'C05': {'ts'},
    'C06': {'fall', 'fallret'}, 'C07': {'roots'}, 'C08': {'srcs', 'ex'}, 'C20': {'ex', 'deg', 'ts', 'pats'},
}

BUDGET = 60


def gen_case(prop, rng, idx, group=None):
    what, opts = PROFILES[prop]
    opts = dict(opts)
    opts['weights'] = dict(opts['weights'])
    if group:
        opts['nedges'] = 0
        return Gen(rng, what, group=group, **opts).history(12)
    k = idx % 8
    if k == 0:
        opts.update(maxar=6, nedges=6)
    elif k == 1:
        opts.update(maxar=2, natoms=6)
    elif k == 2:
        opts.update(maxar=5, nedges=8)
    elif k == 3:
        opts.update(maxar=3, natoms=4, nedges=opts.get('nedges', 9) + 4)
    n = rng.choice([6, 10, 16, 24])
    g = Gen(rng, what, **opts)
    return g.history(n)


def owner_ok(prop, line, clause):
    """Does this failed clause break prop?"""
    if clause == 'raised':
        if line['op'] == 'obs':
            return line['raised'] in CLAUSES[prop]
        return clause_owner(line, clause) == prop
    if clause == 'ret':
        return prop == 'C01'
    return clause in CLAUSES[prop]


def run(prop, replay=None):
    check = Check(prop, 'model_checking')
    check.rule = ('random histories over random universes of look-alike vertices (and, where listed, every transition of '
                  'the small model); an evaluation is one observation of the store after a step, and it is distinct '
                  'and non-trivial when the store is not empty and no other observation in the same universe shows the same')
    if replay:
        cases = [x['case'] for x in json.load(open(replay))]
    else:
        cases = []
        import tour
        import big
        for c in tour.cases(prop, PROFILES[prop][0], check):
            cases.append(c)
        cases += big.cases(prop, PROFILES[prop][0], random.Random('big-%s-%s' % (prop, SEED)))
        # symbols that resemble each other, group by group
        alike = random.Random('alike-%s-%s' % (prop, SEED))
        cases += [gen_case(prop, alike, 0, g) for g in store.GROUPS for _ in range(1 if not THOROUGH else 12)]
    fixed = len(cases)
    budget = 0 if replay else (BUDGET if not THOROUGH else 300)
    rng = random.Random('%s-%s' % (prop, SEED))
    idx = 0
    traces, universes = execute(cases, check)
    t0 = time.time()
    # deterministic number of cases: time only ends it early
    limit = (600 if not THOROUGH else 9000)
    while not replay and idx < limit and time.time() - t0 < budget:
        case = gen_case(prop, rng, idx)
        idx += 1
        cases.append(case)
        t, u = execute([case], check)
        for x in t:
            x['u'] += len(universes)
        traces += t
        universes += u
    if cases[fixed:]:
        check.samples = [ps({'case': cases[fixed], 'recorded': traces[fixed]['lines'][:6]})]
    bad = validate(check, traces, universes)
    for (ti, li), clauses in sorted(bad.items()):
        line = traces[ti]['lines'][li]
        for c in sorted(clauses):
            if owner_ok(prop, line, c):
                check.violation(describe(cases[ti], line, c), cases[ti])
    return check.finish()
