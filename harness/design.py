"""The design of the SQLite implementation (SqlImpl.tla), statement by statement, checked to refine Hyper. Decides
nothing about the code by itself: it says why what the traces show holds for all interleavings, faults and crashes.
How closely it follows the code is measured (statements), and reported in the evidence, never judged: code that
does the same in other statements is right too."""

import random
import re

import common
from common import MachineryError, SEED, THOROUGH, tlc

PROTECTIONS = ('Immediate', 'Atomic', 'Savepoints', 'Check')


def universe(els, src=0):
    return {'el': els, 'cls': list(range(1, len(els) + 1)), 'txt': [[] for _ in els], 'src': src}


def add(*es, ts=1):
    return {'op': 'add', 'es': list(es), 'ts': ts}


def rem(*es):
    return {'op': 'rem', 'es': list(es)}


# 3 = (1 2), 4 = ((1 2) 1)
PLAIN = universe([[], [], [1, 2], [3, 1]])
PLAIN_OPS = [add(3, ts=1), rem(3), add(4, 3, ts=2)]
# 3 is the symbol of sources, 4 = (1 1), 5 = (src 4 2), 6 = (4 2)
BELIEF = universe([[], [], [], [1, 1], [3, 4, 2], [4, 2]], 3)
BELIEF_OPS = [add(4, ts=1), rem(4), add(6, 4, ts=2), {'op': 'bel', 'es': [4], 'a': 2, 'ts': 3}, {'op': 'unbel', 'es': [4], 'a': 2},
              {'op': 'destroy'}]


def data(u, ops, handles=1, calls=2, batch=1, faults=0, crashes=0):
    return {'universe': u, 'ops': ops, 'handles': handles, 'calls': calls, 'batch': batch, 'faults': faults, 'crashes': crashes}


def explore(check, d, without=None, live=False):
    cfg = 'SPECIFICATION Spec\nCONSTANTS %s\nINVARIANTS Refines Inside OneWriter Blocks\nCHECK_DEADLOCK FALSE\n' % ' '.join(
        '%s = %s' % (p, 'FALSE' if p == without else 'TRUE') for p in PROTECTIONS)
    if live:
        cfg += 'PROPERTY Ends\n'
    r = tlc('SqlImpl', cfg, d, ok_codes=(0,) if without is None else (12,), timeout=700)
    if without is None:
        check.add_tlc(r)
    return r.distinct


MODELS = {
    'C10': [(data(PLAIN, PLAIN_OPS, batch=2, faults=2), False), (data(BELIEF, BELIEF_OPS, batch=2, faults=1), False)],
    'C11': [(data(PLAIN, PLAIN_OPS, batch=2, faults=1, crashes=1), False), (data(BELIEF, BELIEF_OPS, batch=2, crashes=1), False)],
    'C12': [(data(BELIEF, BELIEF_OPS, handles=2, calls=2, crashes=1), False),
            (data(PLAIN, PLAIN_OPS, handles=2, calls=1, batch=2, faults=1), True)],
    'C09': [(data(PLAIN, PLAIN_OPS, batch=3), False)],
}
DEEP = {
    'C10': [(data(BELIEF, BELIEF_OPS, batch=2, faults=2), False)],
    'C11': [(data(BELIEF, BELIEF_OPS, calls=2, batch=3, crashes=1), False)],
    'C12': [(data(PLAIN, PLAIN_OPS, handles=2, calls=2, batch=2, faults=1, crashes=1), False),
            (data(PLAIN, PLAIN_OPS, handles=3, calls=1, batch=2, faults=1, crashes=1), False)],
    'C09': [],
}
# what the refinement would lose without each protection: TLC must find it, or the model could not tell
LOSSES = {
    'C10': [('Savepoints', data(PLAIN, PLAIN_OPS, batch=2, faults=2)), ('Check', data(PLAIN, PLAIN_OPS, batch=2, faults=2))],
    'C11': [('Atomic', data(PLAIN, PLAIN_OPS, crashes=1))],
    'C12': [('Immediate', data(PLAIN, PLAIN_OPS, handles=2, calls=1))],
    'C09': [],
}


def run(check, prop):
    sizes = []
    for d, live in MODELS[prop] + (DEEP[prop] if THOROUGH else []):
        sizes.append(explore(check, d, live=live))
    for p, d in LOSSES[prop]:
        explore(check, d, without=p)
    check.extra['sql_design'] = {'states_of_models': sizes, 'protections_shown_necessary': [p for p, _ in LOSSES[prop]]}
    if prop == 'C10':
        check.extra['sql_design']['code_follows_statement_by_statement'] = statements()


SQL = [
    (r'BEGIN', 'begin'), (r'SAVEPOINT', 'savepoint'), (r'RELEASE', 'release'), (r'COMMIT', 'commit'),
    (r'SELECT id FROM perms WHERE id>=', 'match'), (r'SELECT id FROM perms WHERE id=', 'selp'), (r'SELECT id FROM vertices', 'sel'),
    (r'SELECT degree', 'deg'), (r'UPDATE vertices SET degree=degree\+1', 'inc'), (r'UPDATE vertices SET degree=degree-1', 'dec'),
    (r'UPDATE vertices SET timestamp', 'setts'), (r'UPDATE vertices SET id=', 'upd'), (r'INSERT INTO vertices', 'ins'),
    (r'INSERT INTO perms', 'insp'), (r'DELETE FROM vertices WHERE', 'del'), (r'DELETE FROM perms WHERE', 'delp'),
    (r'DELETE FROM vertices', 'wipev'), (r'DELETE FROM perms', 'wipep')]


def name_of(sql):
    for pat, name in SQL:
        if re.match(pat, sql.strip()):
            return name
    return sql


def statements():
    """Whether the code executes, for a long script of operations, the statements that SqlImpl says."""
    import shutil
    import tempfile
    import store
    from store import Hooks, HyperGraph
    rng = random.Random('design-%s' % SEED)
    vals = ['a', 's/1', 'src/1', ('a', 'a'), ('src/1', ('a', 'a'), 's/1'), (('a', 'a'), 's/1')]
    import gb.hypergraph.constants as const
    if const.source != 'src/1':
        return False
    script = [rng.choice(BELIEF_OPS[:5]) for _ in range(30)] + [BELIEF_OPS[5]] + [rng.choice(BELIEF_OPS) for _ in range(20)]
    for _ in range(8):
        script.append({'op': 'batch', 'ops': [rng.choice(BELIEF_OPS) for _ in range(rng.choice([1, 2, 3]))]})
    d = dict(data(BELIEF, BELIEF_OPS, calls=len(script)), script=script)
    cfg = 'SPECIFICATION ScriptSpec\nCONSTANTS %s\nINVARIANTS Refines Inside\nCHECK_DEADLOCK FALSE\n' % ' '.join(
        '%s = TRUE' % p for p in PROTECTIONS)
    r = tlc('SqlImpl', cfg, d, workers=1)
    expected = [m.group(1) for m in re.finditer(r'<<"ST", \d+, "(\w+)">>', r.out)]
    expected = ['match' if x in ('qadd', 'qrem', 'srcs') else x for x in expected]
    directory = tempfile.mkdtemp(dir=common.scratch())
    seen = []

    def record(conn, kind, sql, f):
        seen.append(name_of(sql))
        return f()

    def do(hg, o):
        es = [vals[e - 1] for e in o.get('es', [])]
        if o['op'] == 'add':
            hg.add(es, o['ts'])
        elif o['op'] == 'rem':
            hg.remove(es)
        elif o['op'] == 'bel':
            hg.add_belief(vals[o['a'] - 1], es[0], o['ts'])
        elif o['op'] == 'unbel':
            hg.remove_belief(vals[o['a'] - 1], es[0])
        elif o['op'] == 'destroy':
            hg.destroy()
        else:
            hg.batch_exec([lambda _, x=x: do(hg, x) for x in o['ops']])
    try:
        hg = HyperGraph({'backend': 'sqlite', 'hg': directory + '/s.hg', 'db': directory + '/s.hg'})
        Hooks.before = record
        with common.watchdog(20):
            for o in script:
                do(hg, o)
    except (Exception, common.Hang):
        return False
    finally:
        Hooks.before = None
        shutil.rmtree(directory, ignore_errors=True)
    return seen == expected and len(seen) > 500
