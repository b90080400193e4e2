"""Random histories for the store checks. Every choice comes from the given generator."""

import store
from store import make_universe, rand_pattern, Universe

ALL = ['ex', 'deg', 'ts', 'star', 'pats', 'fall', 'roots', 'srcs']


class Gen(object):
    def __init__(self, rng, what, **opts):
        self.rng = rng
        self.what = what
        self.weights = dict(add=5, rem=4, bel=1, unbel=1, rmpat=0, destroy=0.15, batch=0, reopen=0)
        self.weights.update(opts.pop('weights', {}))
        self.npats = opts.pop('npats', 4)
        self.ts_default = opts.pop('ts_default', 0.3)
        self.c_view = opts.pop('c_view', 0.0)
        self.obs_every = opts.pop('obs_every', 1.0)
        self.case, self.u = make_universe(rng, **opts)
        self.pending = None
        self.present = set()   # only a guide for choosing, the specification keeps the books
        self.edges = self.u.edges
        cls = self.u.cls
        self.twins = [[a, b] for a in self.edges for b in self.edges if a < b and cls[a - 1] == cls[b - 1]]

    def ts(self):
        r = self.rng.random()
        if r < self.ts_default:
            return -1
        return self.rng.choice([0, 1, 2, 5, 100, 1478000000, 1478000000123, 2 ** 40, -5, 12345, 2 ** 31, 2 ** 31 - 1, 2 ** 53 + 1, 2 ** 62 + 3, 7])

    def pick(self, want_present):
        pres = [e for e in self.edges if e in self.present]
        absent = [e for e in self.edges if e not in self.present]
        pool = pres if want_present else absent
        if not pool or self.rng.random() < 0.15:
            pool = self.edges
        return self.rng.choice(pool)

    def form(self, op):
        if self.rng.random() < 0.3:
            op['many'] = True
        if len(op['es']) > 1 and self.rng.random() < 0.5:
            op['tuple'] = True
        if self.rng.random() < 0.15:
            op['list'] = True
        return op

    def add(self, n=None):
        if self.pending is not None:
            # the other of two edges that Python takes for equal
            (other, ts), self.pending = self.pending, None
            self.present.add(other)
            return self.form({'op': 'add', 'es': [other], 'ts': ts, 'explicit': True})
        n = n or self.rng.choice([1, 1, 1, 1, 2, 3, 5])
        if n == 1 and self.twins and self.rng.random() < 0.25:
            pair = list(self.rng.choice(self.twins))
            self.rng.shuffle(pair)
            ts = self.ts()
            self.pending = (pair[1], ts)
            self.present.add(pair[0])
            return self.form({'op': 'add', 'es': pair[:1], 'ts': ts, 'explicit': True})
        es = [self.pick(False) for _ in range(n)]
        if n > 1 and self.rng.random() < 0.2:
            es.append(es[0])
        if n > 1 and self.twins and self.rng.random() < 0.5:
            es[:2] = self.rng.choice(self.twins)
            self.rng.shuffle(es)
        self.present.update(es)
        return self.form({'op': 'add', 'es': es, 'ts': self.ts(), 'explicit': self.rng.random() < 0.5})

    def rem(self, n=None):
        n = n or self.rng.choice([1, 1, 1, 1, 2, 3])
        es = [self.pick(True) for _ in range(n)]
        self.present.difference_update(es)
        return self.form({'op': 'rem', 'es': es})

    def bel(self):
        if not self.case['facts']:
            return self.add()
        n = self.rng.choice([1, 1, 1, 2, 3, 4, 6])
        facts = self.case['facts']
        es = [self.rng.choice(facts) for _ in range(n)] if n < 4 or self.rng.random() < 0.3 else self.rng.sample(facts, min(n, len(facts)))
        self.present.update(es)
        return self.form({'op': 'bel', 'es': es, 'a': self.rng.choice(self.case['srcs']), 'ts': self.ts()})

    def unbel(self):
        if not self.case['facts']:
            return self.rem()
        return {'op': 'unbel', 'es': [self.rng.choice(self.case['facts'])], 'a': self.rng.choice(self.case['srcs'])}

    def pat(self):
        pool = self.edges
        if self.present and self.rng.random() < 0.7:
            pool = sorted(self.present)
        return rand_pattern(self.rng, self.u, pool)

    def rmpat(self):
        p = self.pat()
        if all(x == 0 for x in p) and self.rng.random() < 0.7:
            p[0] = self.u.el[self.rng.choice(self.edges) - 1][0]
        gone = [e for e in self.present if len(self.u.el[e - 1]) == len(p) and
                all(a == 0 or a == b for a, b in zip(p, self.u.el[e - 1]))]
        self.present.difference_update(gone)
        return {'op': 'rmpat', 'p': p}

    def destroy(self):
        self.present.clear()
        return {'op': 'destroy'}

    def reopen(self):
        return {'op': 'reopen'}

    def batch(self, depth=1):
        r = self.rng
        funs = []
        for _ in range(r.choice([1, 1, 2, 2, 3])):
            ops = []
            for _ in range(r.choice([1, 1, 2, 3])):
                k = r.random()
                if depth < 3 and k < 0.2:
                    ops.append(self.batch(depth + 1))
                elif k < 0.45:
                    ops.append(self.obs())
                else:
                    op = self.modify(batch=False)
                    ops.append(op)
                if r.random() < 0.4:
                    ops[-1]['outer'] = True
            funs.append(ops)
        return {'op': 'batch', 'funs': funs}

    def modify(self, batch=True):
        w = dict(self.weights)
        if not batch:
            w['batch'] = 0
            w['reopen'] = 0
        ks = sorted(k for k in w if w[k] > 0)
        k = self.rng.choices(ks, [w[k] for k in ks])[0]
        return getattr(self, k)()

    def obs(self, h='w'):
        o = {'op': 'obs', 'what': list(self.what), 'h': h}
        if self.rng.random() < 0.5:
            # any question can be the first one asked after a change
            self.rng.shuffle(o['what'])
        if self.rng.random() < 0.15:
            o['list'] = True
        if 'pats' in self.what:
            o['pats'] = [self.pat() for _ in range(self.npats)]
        if 'srcs' in self.what:
            o['facts'] = self.case['facts']
        if 'fall' in self.what:
            o['how'] = self.rng.choice(['', '', '', 'query', 'begun', 'raises'])
        return o

    def history(self, n):
        ops = [self.obs()] if self.rng.random() < 0.2 else []
        for _ in range(n):
            ops.append(self.modify())
            if self.rng.random() < self.obs_every:
                ops.append(self.obs())
                if self.c_view and self.rng.random() < self.c_view:
                    ops.append(self.obs('c'))
        self.case['ops'] = ops
        return self.case
