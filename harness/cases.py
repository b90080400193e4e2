"""Independent recorded cases, decided by a module with the data {groups: [[case, ...], ...]}."""

import common
from common import tlc, tagged


def decide(check, module, cases, per_group=40, extra=None, chunk=20000, heap='6g', spec='Spec'):
    """{index of the case: set of clauses it breaks}"""
    bad = {}
    for a in range(0, len(cases), chunk):
        part = cases[a:a + chunk]
        groups = [part[i:i + per_group] for i in range(0, len(part), per_group)]
        data = {'groups': groups}
        data.update(extra or {})
        r = tlc(module, 'SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n' % spec, data, heap=heap)
        want = len(part) + len(groups)
        if r.distinct != want:
            raise common.MachineryError('%s: %d states, expected %d\n%s' % (module, r.distinct, want, r.out[-3000:]))
        check.add_tlc(r)
        check.traces += len(part)
        for g, l, clause in tagged(r.out, 'MM'):
            bad.setdefault(a + (g - 1) * per_group + l - 1, set()).add(clause)
    return bad
