"""Generated witness machines: pseudo-random combinations of the features, reproducible by number.

A generated machine has no hand-written expectation: the reference semantics (spec, oracle) is computed
from its rows like for the hand-written ones."""
import random

from spec import Machine, Row, Internal, St


class Gen:
    def __init__(self, seed, features):
        self.r = random.Random('hsm %d' % seed)
        self.f = set(features)
        self.ids = 0
        self.cb = 60
        self.events = ['e%d' % i for i in range(1, self.r.randint(3, 4 + ('wide' in self.f)) + 1)]
        self.st = {}
        self.parents = []
        self.pool = []
        self.name = 0

    def p(self, x):
        return self.r.random() < x

    def nid(self):
        self.ids += 1
        return self.ids

    def cid(self):
        self.cb += 1
        return self.cb

    def plan(self, parent, depth, up=()):
        """names of the states of a parent, region by region; recursion into its composites"""
        nreg = self.r.choice([1, 2, 2, 3] if depth == 0 else [1, 1, 2, 2, 3]) if 'regions' in self.f and depth < 2 else 1
        regs = []
        for i in range(nreg):
            k = self.r.randint(2, 3)
            l = []
            for _ in range(k):
                if 'shared' in self.f and self.pool and self.p(0.3):
                    n = self.r.choice(self.pool)
                    if any(n in x for x in regs) or n in l:
                        continue
                else:
                    self.name += 1
                    n = 'S%d' % self.name
                l.append(n)
            if not l:
                self.name += 1
                l.append('S%d' % self.name)
            regs.append(l)
        for l in regs:
            for n in l:
                if n not in self.pool:
                    self.pool.append(n)
        subs = []
        if 'hier' in self.f and depth < 3 and (depth == 0 or self.p(0.35)):
            for _ in range(self.r.choice([1, 1, 2]) if depth == 0 else 1):
                self.name += 1
                subs.append('P%d' % self.name)
        info = dict(name=parent, regs=regs, subs=subs, depth=depth, up=list(up))
        self.parents.append(info)
        self.info[parent] = info
        for s in subs:
            self.plan(s, depth + 1, list(up) + ([parent] if depth else []))

    def target(self, info, reg):
        if 'up' in self.f and info['depth'] and self.p(0.3):
            # the composite itself or one around it
            s = self.r.choice(info['up'] + [info['name']])
            return (self.r.choice(['entry', 'direct']), s, self.r.choice(self.info[s]['regs'][0])) if 'pseudo' in self.f and self.p(0.4) else s
        x = self.r.random()
        subs = info['subs'] if reg == 0 or 'anyregion' in self.f else []
        if subs and x < 0.35:
            s = self.r.choice(subs)
            si = self.info[s]
            if 'pseudo' in self.f and self.p(0.4) and len(si['regs']) == 1:
                return (self.r.choice(['entry', 'direct']), s, self.r.choice(si['regs'][0]))
            if 'history' in self.f and self.p(0.4):
                return ('history', s)
            return s
        return self.r.choice(info['regs'][reg])

    def action(self):
        if self.p(0.2):
            return None
        if 'chain' in self.f and self.p(0.25):
            return tuple(self.nid() for _ in range(self.r.randint(1, 3)))
        return self.nid()

    def row(self, src, ev, tgt, g, a):
        t = {'gen', 'plain'}
        for x in (src, tgt):
            if type(x) is tuple:
                t.add('history' if x[0] == 'history' else 'pseudo')
                t.add('composite')
            elif x in self.info:
                t.add('compexit' if x is src else 'composite')
        if src == tgt or src == '*' + str(tgt):
            t.add('self')
        if ev is None:
            t.add('anon')
        if type(a) is tuple:
            t.add('chain')
        if 'regions' in self.f:
            t |= {'region', 'regions'}
        if 'deps' in self.f:
            t.add('dep')
        if 'shared' in self.f:
            t.add('same')
        return Row(src, ev, tgt, g, a, tags=t)

    def rows(self, info):
        out = []
        for k, l in enumerate(info['regs']):
            first = True
            subs = info['subs'] if k == 0 or 'anyregion' in self.f else []
            srcs = list(l)
            for n in srcs:
                m = self.r.choice([1, 1, 2, 2, 3]) if not first else self.r.randint(1, 3)
                for _ in range(m):
                    ev = self.r.choice(self.events)
                    g = self.nid() if self.p(0.65) else None
                    src = n
                    if first:
                        src = '*' + n
                        first = False
                    out.append(self.row(src, ev, self.target(info, k), g, self.action()))
                if 'anon' in self.f and self.p(0.35):
                    out.append(self.row(n, None, self.target(info, k), self.nid(), self.action()))
        for s in info['subs']:
            si = self.info[s]
            k = 0
            # it is entered and left
            out.append(self.row(self.r.choice(info['regs'][k]), self.r.choice(self.events), s, self.nid() if self.p(0.5) else None,
                           self.action()))
            for _ in range(self.r.randint(1, 2)):
                t = self.r.choice(info['regs'][k])
                if self.p(0.2):
                    t = self.r.choice(info['subs'])
                out.append(self.row(s, self.r.choice(self.events), t, self.nid() if self.p(0.6) else None, self.action()))
            if 'pseudo' in self.f and len(si['regs']) == 1 and self.p(0.5):
                out.append(self.row((self.r.choice(['exit', 'exit', 'direct']), s, self.r.choice(si['regs'][0])), self.r.choice(self.events), self.r.choice(info['regs'][k]),
                               self.nid() if self.p(0.6) else None, self.action()))
        if self.p(0.5):
            self.r.shuffle(out)
            # the initial rows keep the order of the regions: first mention decides
        return out

    def machine(self, name):
        self.info = {}
        self.plan('M', 0)
        for info in self.parents:
            s = St(rows=self.rows(info))
            if info['depth'] and self.p(0.5):
                s.entry, s.exit = self.cid(), self.cid()
            if 'internal' in self.f and info['depth'] and self.p(0.5) and not any(type(r.src) is tuple for r in s.rows):
                s.internal = self.internals()
            if info['name'] == 'M' and self.p(0.7):
                s.handler = self.cid()
            self.st[info['name']] = s
        used = {r.ev for s in self.st.values() for r in s.rows if r.ev}
        for n in self.pool:
            s = self.st[n] = St()
            if self.p(0.4):
                s.entry = self.cid()
            if self.p(0.4):
                s.exit = self.cid()
            if 'internal' in self.f and self.p(0.3) and not any(r.initial and r.src == n for i in self.parents for r in self.st[i['name']].rows):
                s.internal = self.internals()
            if 'defer' in self.f and self.p(0.3):
                s.defer = tuple(self.r.sample(sorted(used), self.r.randint(1, min(2, len(used)))))
        nest = {}
        if 'nest' in self.f:
            ids = list(range(1, self.ids + 1)) + list(range(61, self.cb + 1))
            nest = {i: self.r.choice(sorted(used)) for i in ids if self.p(0.4)}
        return Machine(name, self.st, nest=nest, deps=self.r.choice([0, 1, 2]) if 'deps' in self.f else 0, rvalue=self.p(0.3),
                       maxq=2, maxg=7 if 'anon' in self.f else 40, starts='regions' not in self.f, peekall=False)

    def internals(self):
        return [Internal(self.r.choice(self.events), self.nid() if self.p(0.6) else None, self.nid() if self.p(0.8) else None, tags=['gen', 'internal'])
                for _ in range(self.r.randint(1, 2))]


KINDS = [
    ('plain', ['wide']),
    ('hier', ['hier', 'shared']),
    ('pseudo', ['hier', 'pseudo', 'internal']),
    ('regions', ['regions', 'internal', 'chain']),
    ('regionhier', ['regions', 'hier', 'internal']),
    ('history', ['hier', 'history', 'shared']),
    ('historyregions', ['regions', 'hier', 'history']),
    ('anon', ['hier', 'anon', 'deps']),
    ('defer', ['defer', 'deps', 'internal']),
    ('deferhier', ['defer', 'hier', 'chain']),
    ('deferregions', ['defer', 'regions']),
    ('anonall', ['hier', 'anon', 'defer', 'internal', 'pseudo', 'shared']),
    ('all', ['hier', 'regions', 'defer', 'internal', 'history', 'deps', 'chain', 'shared']),
    ('anyregion', ['hier', 'regions', 'anyregion', 'internal']),
]


# further kinds, numbered from 1000
KINDS2 = [
    ('up', ['hier', 'up', 'internal']),
    ('uppseudo', ['hier', 'up', 'pseudo', 'shared']),
    ('nest', ['hier', 'nest', 'internal', 'chain']),
    ('nestregions', ['regions', 'hier', 'nest', 'deps']),
    ('nestdefer', ['defer', 'nest', 'deps']),
    ('nestall', ['hier', 'anon', 'defer', 'nest', 'pseudo', 'history']),
    ('uphistory', ['hier', 'up', 'history', 'anon']),
    ('deepregions', ['regions', 'hier', 'anyregion', 'history', 'chain']),
]


def make(i):
    kind, f = KINDS[i % len(KINDS)] if i < 1000 else KINDS2[(i - 1000) % len(KINDS2)]
    return Gen(i, f).machine('gen%d' % i)


# number of machines of a kind: the first ones are analysed on every change
QUICK = {
    'plain': [0, 84], 'regions': [45, 59], 'hier': [43, 127], 'history': [19, 47], 'defer': [106, 134], 'pseudo': [2, 30],
    'historyregions': [48, 118], 'deferregions': [10, 52], 'anon': [35, 119], 'deferhier': [65, 135], 'anyregion': [69, 111],
    'regionhier': [32, 74], 'all': [96, 12], 'anonall': [25, 81],
    'up': [1000, 1016], 'uppseudo': [1001, 1017], 'nest': [1002, 1018], 'nestregions': [1011, 1019], 'nestdefer': [1012, 1020],
    'nestall': [1005, 1021], 'uphistory': [1014, 1006], 'deepregions': [1015, 1007],
}


def names(kinds, thorough=False):
    out = []
    for k in kinds:
        if thorough:
            first = [x for x, _ in KINDS]
            if k in first:
                out += ['gen%d' % i for i in range(first.index(k), 140, len(KINDS))]
            else:
                out += ['gen%d' % i for i in range(1000 + [x for x, _ in KINDS2].index(k), 1080, len(KINDS2))]
        else:
            out += ['gen%d' % i for i in QUICK[k]]
    return out
