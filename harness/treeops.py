"""C27: editing semantic trees."""

import itertools
import json
import random
import sys

import common
from common import Check, SEED, THOROUGH, ps, watchdog, Hang, tlc, tagged

sys.path.insert(0, common.REPO)
from gb.nlp.nlp_token import Token  # noqa: E402
from gb.knowledge.semantic_tree import Tree, Position  # noqa: E402


def cps(s):
    return [ord(c) for c in s]


POS, DEPS = ['NOUN', 'VERB', 'ADV'], ['x', 'y', 'xy', '']


class Run(object):
    """Executes the operations of a case: {'toks': [[word, pos, dep]], 'ops': [...]}, names are numbers from 1."""

    def __init__(self, case):
        self.case = case
        self.toks = []
        for w, p, d in case['toks']:
            t = Token(w)
            # what it is derived from does not make a word another one
            t.pos, t.dep, t.lemma, t.entity_type, t.shape = p, d, 'l%d' % (len(self.toks) % 3), ['', 'GPE', None][len(self.toks) % 3], 'x' * (len(self.toks) % 2)
            self.toks.append(t)
        self.index = {id(t): i + 1 for i, t in enumerate(self.toks)}
        self.tree = Tree()
        self.ids = []
        self.gone = set()
        self.lines = []

    def get(self, n):
        return self.tree.get(self.ids[n - 1])

    def value(self, elem, depth=0):
        if depth > 40:
            raise ValueError('cycle')
        if elem.is_leaf():
            return {'k': 'l', 't': self.index.get(id(elem.token), 0)}
        return {'k': 'n', 'c': [self.value(c, depth + 1) for c in elem.children()], 'cmp': elem.is_compound()}

    def op(self, o):
        line = {k: v for k, v in o.items() if k not in ('drop',)}
        self.lines.append(line)
        k = o['op']
        new = None
        if k == 'leaf':
            new = self.tree.create_leaf(self.toks[o['t'] - 1]).id
        elif k == 'node':
            new = self.tree.create_node([self.ids[i - 1] for i in o['c']]).id
        elif k == 'enclose':
            node = self.tree.enclose(self.get(o['p']))
            new = node.children_ids[0]
        elif k == 'disenclose':
            self.tree.disenclose(self.get(o['p']))
        elif k == 'addchild':
            self.get(o['p']).add_child(self.ids[o['x'] - 1])
        elif k == 'addtofirst':
            self.get(o['p']).add_to_first_child(self.ids[o['x'] - 1], Position.LEFT if o['left'] else Position.RIGHT)
        elif k == 'nest':
            self.get(o['p']).nest(self.ids[o['x'] - 1])
            self.get(o['p']).new_layer()
        elif k == 'apply':
            self.get(o['p']).apply_layers()
        elif k == 'flatten':
            self.get(o['p']).flatten()
        elif k == 'clone':
            new = self.get(o['p']).clone().id
        elif k == 'unnest':
            if o.get('root'):
                self.tree.root_id = self.ids[o['p'] - 1]
                self.tree.remove_redundant_nesting()
            else:
                self.get(o['p']).remove_redundant_nesting()
        elif k == 'compound':
            self.get(o['p']).compound = o['b']
        elif k == 'eq':
            line['eq'] = self.get(o['p']) == self.get(o['x'])
            line['ne'] = self.get(o['p']) != self.get(o['x'])
        for n in o.get('drop', []):
            self.gone.add(n)
        if new is not None:
            line['new'] = 1
            line['newval'] = self.value(self.tree.get(new))
            self.ids.append(new)
        live = [n for n in range(1, len(self.ids) + 1) if n not in self.gone and not (new is not None and n == len(self.ids))]
        if k != 'leaf':
            line['vals'] = [[n, self.value(self.get(n))] for n in live]
            line['shown'] = [[n, cps(str(self.get(n)))] for n in live[-4:]]
            line['flat'] = [[n, [self.index.get(id(x.token), 0) for x in self.get(n).flat_leafs()]] for n in live[-4:]]
            line['arity'] = [[n, self.get(n).arity()] for n in live]
            # the parts of speech and dependencies to be found in it, and directly in it
            line['has'] = [[n] + [[i + 1 for i, x in enumerate(xs) if f(x, **kw)]
                                  for f, xs in ((self.get(n).has_pos, POS), (self.get(n).has_dep, DEPS))
                                  for kw in ({}, {'shallow': True})] for n in live[-6:]]

    def run(self):
        for o in self.case['ops']:
            try:
                with watchdog(10):
                    self.op(o)
            except Hang:
                self.lines[-1] = {'op': o['op'] + '?', 'raised': 'Hang'}
                break
            except Exception as e:
                self.lines[-1] = {'op': 'raised', 'raised': '%s: %s: %s' % (o['op'], type(e).__name__, str(e)[:80])}
                break
        eq = {}
        return {'pos': [POS.index(t[1]) + 1 for t in self.case['toks']], 'dep': [DEPS.index(t[2]) + 1 for t in self.case['toks']],
                'eq': [eq.setdefault(tuple(t), len(eq) + 1) for t in self.case['toks']],
                'words': [cps(t[0]) for t in self.case['toks']], 'lines': self.lines}


# ---------------------------------------------------------------------------------------------
# A mirror of the places, only to choose operations that make sense: no element twice in a tree, no
# element that is shared by a clone enclosed.

class Mirror(object):
    def __init__(self, rng, ntok):
        self.rng = rng
        pool = [(w, p, d) for w in ('a', 'b', 'A') for p in POS for d in DEPS]
        self.toks = [list(rng.choice(pool)) for _ in range(ntok)]
        self.cell = {}     # name -> ('l', tok) or ['n', [children], compound, [layers]]
        self.parent = {}
        self.n = 0
        self.fresh = 10 ** 6
        self.ops = []
        self.gone = set()
        self.shared = set()
        self.focus = None

    def new(self, cell, named=True):
        if named:
            self.n += 1
            name = self.n
        else:
            self.fresh += 1
            name = self.fresh
        self.cell[name] = cell
        return name

    def isnode(self, n):
        return self.cell[n][0] == 'n'

    def terminal(self, n):
        return not self.isnode(n) or self.cell[n][2]

    def below(self, n):
        res = {n}
        if self.isnode(n):
            for c in self.cell[n][1]:
                res |= self.below(c)
            for ly in self.cell[n][3]:
                for c in self.cell[ly][1]:
                    if c:
                        res |= self.below(c)
        return res

    def tops(self):
        """Named elements that nothing refers to."""
        used = set()
        for n in self.cell:
            if self.isnode(n):
                used.update(self.cell[n][1])
        return [n for n in self.live() if n not in used]

    def live(self):
        return [n for n in range(1, self.n + 1) if n not in self.gone]

    def layered(self, n):
        return any(self.isnode(m) and self.cell[m][3] for m in self.below(n))

    def enclose(self, n, named=False):
        q = self.new(self.cell[n], named)
        self.cell[n] = ['n', [q], False, []]
        return q

    def emit(self, **o):
        self.ops.append(o)

    def step(self):
        r = self.rng
        k = r.choices(['leaf', 'node', 'enclose', 'disenclose', 'addchild', 'addtofirst', 'nest', 'apply', 'flatten', 'clone', 'unnest',
                       'compound', 'eq'], [9, 3, 1, 1, 3, 3, 5, 3, 1.5, 2, 1.5, 1.5, 1] if self.wide else [4, 3, 2, 2, 4, 4, 2, 2, 1.5, 1.5, 1.5, 1.5, 2])[0]
        live = self.live()
        tops = self.tops()
        if k == 'leaf' or len(tops) < 2:
            t = r.randrange(1, len(self.toks) + 1)
            self.new(('l', t))
            return self.emit(op='leaf', t=t)
        if k == 'node':
            cs = r.sample(tops, min(len(tops), r.choice([2, 4, 5, 6, 8] if self.wide else [1, 1, 2, 2, 3])))
            cs = [c for c in cs if not self.layered(c)]
            if not cs:
                return
            self.new(['n', list(cs), False, []])
            return self.emit(op='node', c=cs)
        p = r.choice(live)
        if self.wide and k in ('nest', 'apply') and r.random() < 0.75:
            # all around one of them
            if self.focus not in live or self.focus in self.shared:
                self.focus = p
            p = self.focus
        if k == 'enclose':
            if p in self.shared or self.layered(p):
                return
            self.enclose(p, True)
            return self.emit(op='enclose', p=p)
        if k == 'disenclose':
            c = [n for n in live if self.isnode(n) and len(self.cell[n][1]) == 1 and not self.layered(n)]
            if not c:
                return
            p = r.choice(c)
            q = self.cell[p][1][0]
            if q in self.shared:
                return
            self.cell[p] = self.cell[q]
            self.gone.add(q)
            return self.emit(op='disenclose', p=p, drop=[q] if q <= 10 ** 6 else [])
        if k in ('addchild', 'addtofirst', 'nest'):
            x = r.choice(tops)
            if self.wide and k == 'nest':
                # the widest of them
                x = max(r.sample(tops, min(3, len(tops))), key=lambda n: len(self.cell[n][1]) if self.isnode(n) else 0)
            if self.layered(x) or x in self.below(p) or p in self.below(x):
                return
            if k != 'nest' and self.isnode(p) and self.cell[p][3] and r.random() < 0.5:
                return
            if not self.isnode(p):
                if p in self.shared:
                    return
                self.enclose(p)
            if k == 'addchild':
                self.cell[p][1].append(x)
                return self.emit(op='addchild', p=p, x=x)
            if k == 'addtofirst':
                f = self.cell[p][1][0]
                if self.terminal(f):
                    if f in self.shared:
                        return self.undo(p)
                    self.enclose(f)
                left = r.random() < 0.5
                self.cell[f][1].insert(0, x) if left else self.cell[f][1].append(x)
                return self.emit(op='addtofirst', p=p, x=x, left=left)
            if self.isnode(x):
                ly = self.new(['n', [self.cell[x][1][0], 0] + self.cell[x][1][1:], False, []], False)
                self.gone.add(x)
                self.cell[x] = ('l', 0)
                drop = [x]
            else:
                ly = self.new(['n', [x, 0], False, []], False)
                drop = []
            self.cell[p][3].append(ly)
            return self.emit(op='nest', p=p, x=x, drop=drop)
        if k == 'apply':
            c = [n for n in live if self.isnode(n) and self.cell[n][3]]
            if r.random() < 0.75 or not self.isnode(p):
                p = r.choice(c) if c else p
            if self.isnode(p):
                ch = self.cell[p][1]
                for ly in reversed(self.cell[p][3]):
                    q = ch[0] if len(ch) == 1 else self.new(['n', ch, False, []], False)
                    ch = [q if x == 0 else x for x in self.cell[ly][1]]
                self.cell[p][1], self.cell[p][3] = ch, []
            return self.emit(op='apply', p=p)
        if k == 'eq':
            return self.emit(op='eq', p=p, x=r.choice(live))
        if self.layered(p):
            return
        if k == 'flatten':
            drop = self.flatten(p)
            return self.emit(op='flatten', p=p, drop=[d for d in drop if d < 10 ** 6])
        if k == 'clone':
            if not self.isnode(p):
                return
            c = self.clone(p, True)
            return self.emit(op='clone', p=p)
        if k == 'unnest':
            drop = []
            if not self.unnest(p, drop):
                return
            self.gone.update(drop)
            return self.emit(op='unnest', p=p, drop=[d for d in drop if d < 10 ** 6], root=r.random() < 0.5)
        if k == 'compound':
            if not self.isnode(p):
                return
            b = r.random() < 0.75
            self.setc(p, b)
            return self.emit(op='compound', p=p, b=b)

    def undo(self, p):
        # the leaf at p was enclosed for nothing: take it back
        raise AssertionError

    def flatten(self, p):
        """Names whose elements are still there but no longer part of p stay in use."""
        if not self.isnode(p):
            return []
        res, ch = [], []
        for c in self.cell[p][1]:
            res += self.flatten(c)
            if self.terminal(c):
                ch.append(c)
            else:
                # its children are children of two now
                res.append(c)
                self.gone.add(c)
                ch += self.cell[c][1]
        self.cell[p][1] = ch
        return res

    def clone(self, p, named=False):
        if not self.isnode(p):
            self.shared.add(p)
            return p
        cs = [self.clone(c) for c in self.cell[p][1]]
        return self.new(['n', cs, self.cell[p][2], []], named)

    def unnest(self, p, drop):
        if not self.isnode(p):
            return True
        for c in list(self.cell[p][1]):
            self.unnest(c, drop)
        ch = self.cell[p][1]
        if len(ch) == 1 and self.isnode(ch[0]):
            q = ch[0]
            self.cell[p] = self.cell[q]
            drop.append(q)
        return True

    def setc(self, p, b):
        if self.isnode(p):
            self.cell[p][2] = b
            for c in self.cell[p][1]:
                self.setc(c, b)


def gen_case(rng, n, wide=False):
    while True:
        m = Mirror(rng, rng.choice([3, 5, 8]))
        m.wide = wide
        try:
            tries = 0
            while len(m.ops) < n and tries < 5 * n:
                tries += 1
                m.step()
        except AssertionError:
            continue
        return {'toks': m.toks, 'ops': m.ops}


def layers_case(rng):
    """Many layers around one element, then other edits of it."""
    ops = [{'op': 'leaf', 't': 1}]
    n = 1
    p = 1
    if rng.random() < 0.5:
        ops += [{'op': 'leaf', 't': 2}, {'op': 'node', 'c': [1, 2]}]
        n, p = 3, 3
    for _ in range(rng.choice([1, 2, 2])):
        for _ in range(rng.choice([2, 4, 5, 6, 8, 11])):
            w = rng.choice([0, 0, 1, 2, 3, 4])
            for _ in range(w or 1):
                ops.append({'op': 'leaf', 't': rng.randrange(1, 4)})
            x = n + (w or 1)
            if w:
                ops.append({'op': 'node', 'c': list(range(n + 1, n + w + 1))})
                x += 1
            ops.append({'op': 'nest', 'p': p, 'x': x, 'drop': [x] if w else []})
            n = x
            if rng.random() < 0.1:
                ops.append({'op': 'apply', 'p': p})
        ops += [{'op': 'apply', 'p': p}] * rng.choice([1, 2, 2, 3])
    if rng.random() < 0.5:
        ops += [{'op': 'leaf', 't': 1}, {'op': 'addchild', 'p': p, 'x': n + 1}, {'op': 'apply', 'p': p}]
    return {'toks': [['a', 'NOUN', 'x'], ['b', 'VERB', 'y'], ['c', 'NOUN', 'y']], 'ops': ops}


def small_cases():
    """All sequences of three edits of a small tree."""
    base = [{'op': 'leaf', 't': 1}, {'op': 'leaf', 't': 2}, {'op': 'node', 'c': [1, 2]}, {'op': 'leaf', 't': 3}, {'op': 'leaf', 't': 1},
            {'op': 'node', 'c': [4, 5]}, {'op': 'leaf', 't': 2}, {'op': 'leaf', 't': 3}]
    toks = [['a', 'NOUN', 'x'], ['b', 'VERB', 'y'], ['a', 'NOUN', 'y']]
    edits = []
    for p in (1, 2, 3):
        edits.append({'op': 'enclose', 'p': p})
        for x in (6, 7):
            edits.append({'op': 'addchild', 'p': p, 'x': x})
            for left in (False, True):
                edits.append({'op': 'addtofirst', 'p': p, 'x': x, 'left': left})
            edits.append({'op': 'nest', 'p': p, 'x': x})
    edits += [{'op': 'compound', 'p': 3, 'b': True}, {'op': 'flatten', 'p': 3}, {'op': 'clone', 'p': 3}, {'op': 'unnest', 'p': 3}, {'op': 'unnest', 'p': 3, 'root': True},
              {'op': 'addchild', 'p': 3, 'x': 8}, {'op': 'eq', 'p': 3, 'x': 6}, {'op': 'eq', 'p': 1, 'x': 5}]
    for a, b in itertools.product(edits, repeat=2):
        used = [o['x'] for o in (a, b) if 'x' in o and o['op'] != 'eq']
        if len(set(used)) < len(used):
            continue
        # a clone shares the leaves; what was nested is not there any more
        if any(o['op'] == 'clone' for o in (a,)) and b.get('p') in (1, 2, 3) and b['op'] not in ('compound', 'flatten', 'eq', 'unnest', 'addchild'):
            continue
        if any(o['op'] == 'clone' for o in (a,)) and b['op'] == 'addchild' and b['p'] != 3:
            continue
        ops = []
        for o in (a, b):
            o = dict(o)
            if o['op'] == 'nest':
                o['drop'] = [o['x']] if o['x'] == 6 else []
            if o['op'] == 'eq' and 6 in used and o['x'] == 6:
                continue
            ops.append(o)
        ops += [{'op': 'apply', 'p': p} for p in (1, 2, 3)]
        if not any(o['op'] in ('unnest', 'clone') for o in ops):
            ops += [{'op': 'clone', 'p': 3}]
        # after removing nesting, names of what was inside are not used
        yield {'toks': toks, 'ops': base + drop_inner(ops)}


def drop_inner(ops):
    res = []
    dropped = False
    for o in ops:
        o = dict(o)
        if dropped and o['op'] == 'apply' and o['p'] != 3:
            continue
        if o['op'] in ('unnest', 'flatten'):
            dropped = True
            o['drop'] = o.get('drop', []) + [1, 2]
        if dropped and o.get('p') in (1, 2):
            continue
        res.append(o)
    return res


def run(prop, replay):
    check = Check('C27', 'model_checking')
    check.rule = ('an evaluation is one edit of a semantic tree after which all elements are unfolded and decided by TLC; distinct and '
                  'non-trivial when the edit and the elements it leads to differ from all others')
    rng = random.Random('C27-%s' % SEED)
    if replay:
        cases = [x['case'] for x in json.load(open(replay))]
    else:
        cases = list(small_cases())
        cases += [gen_case(rng, rng.choice([8, 12, 20, 30])) for _ in range(500 if not THOROUGH else 12000)]
        # nodes of many children, many of them nested
        cases += [gen_case(rng, rng.choice([20, 30, 40]), True) for _ in range(250 if not THOROUGH else 6000)]
        cases += [layers_case(rng) for _ in range(60 if not THOROUGH else 1500)]
    traces = []
    for c in cases:
        t = Run(c).run()
        traces.append(t)
        for x in t['lines']:
            if x['op'] != 'leaf':
                check.evaluations += 1
                check.distinct.add(hash(json.dumps([x.get('op'), x.get('vals'), x.get('eq')])))
    check.samples = [ps({'case': cases[i], 'recorded': traces[i]['lines'][-2:]}) for i in (0, len(cases) - 1)]
    per = 25
    chunk = 2000
    for a in range(0, len(traces), chunk):
        part = traces[a:a + chunk]
        groups = [part[i:i + per] for i in range(0, len(part), per)]
        r = tlc('TreeOps', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n', {'groups': groups}, heap='6g')
        want = sum(len(t['lines']) + 1 for t in part)
        if r.distinct != want:
            raise common.MachineryError('TreeOps: %d states, expected %d\n%s' % (r.distinct, want, r.out[-3000:]))
        check.add_tlc(r)
        check.traces += len(part)
        bad = {}
        for g, tr, l, clause in tagged(r.out, 'MM'):
            i = a + (g - 1) * per + tr - 1
            bad.setdefault(i, []).append((l, clause))
        for i, cl in sorted(bad.items()):
            l, clause = min(cl)
            if any(c == 'law' for _, c in cl) and all(c == 'law' for _, c in cl):
                raise common.MachineryError('law of TreeOps.tla fails: %s' % ps(cases[i]['ops'][:l]))
            check.violation('clause %s fails at edit %s: %s' % (clause, ps(cases[i]['ops'][l - 1]), ps(traces[i]['lines'][l - 1])[:400]), cases[i])
    return check.finish()
