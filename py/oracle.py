"""Reference semantics of a witness machine (spec.Machine) for one processed event.

The oracle is driven by the guard outcomes observed on an abstract path. A guard the path did not
evaluate has no constraint, so both outcomes are considered (choose)."""


class OState:
    __slots__ = ('cfg', 'n', 'hist', 'queue', 'dep')

    def __init__(self, cfg, n, hist, queue, dep=0):
        self.cfg = cfg      # tuple of (parent, state) per region slot (None = never active)
        self.n = n          # active regions
        self.hist = hist    # tuple of ((parent, region), (parent, state))
        self.queue = queue  # tuple of (event, token)
        self.dep = dep      # index of the bound dependency set

    def rq(self):
        """the queue up to renaming of the event objects"""
        ix = {}
        return tuple((e, ix.setdefault(t, len(ix))) for e, t in self.queue)

    def key(self):
        return (self.cfg[:self.n], self.n, self.hist, self.rq(), self.dep)

    def copy(self):
        return OState(self.cfg, self.n, self.hist, self.queue, self.dep)

    def __repr__(self):
        return 'cfg=%s hist=%s queue=%s' % (
            ['%s.%s' % c for c in self.cfg[:self.n]],
            {'%s/%d' % k: '%s.%s' % v for k, v in self.hist}, [q[0] for q in self.queue])


def initial(m):
    ini = m.initials(m.root)
    n = len(ini) if m.maxregions > 1 else 1
    cfg = [(m.root, s) for s in ini] + [None] * (m.maxregions - len(ini))
    hist = []
    if m.history:
        for p in m.parents:
            pi = m.initials(p)
            for r in range(m.maxregions):
                hist.append(((p, r), (p, pi[r] if r < len(pi) else pi[0]) if pi else None))
    return OState(tuple(cfg), n, tuple(hist), ())


def set_state(m, o, region, p, s):
    o = o.copy()
    cfg = list(o.cfg)
    cfg[region] = (p, s)
    o.cfg = tuple(cfg)
    if m.maxregions > 1:
        old = o.cfg
        par = o.cfg[0][0]
        prev = o.n
        o.n = len(m.initials(par))
        cfg = list(old)
        for r in range(o.n):
            if old[r] is not None and old[r][0] == par and (r < prev or r == region):
                pass
            elif old[r] is not None and old[r][0] == par:
                pass
            elif r >= prev:
                cfg[r] = (par, m.initials(par)[r])
        o.cfg = tuple(cfg)
    return o


class Choice(Exception):
    pass


class Thrown(Exception):
    pass


class Run:
    """one evaluation of the oracle; guards: list of [id, outcome] observed; extra: outcomes to use for
    guards that were not evaluated on the path"""

    def __init__(self, m, o, ev, token, obs, extra, quirks=(), cut=None):
        self.m = m
        self.cut = cut       # number of actions and handlers up to the one that throws
        self.o = o.copy()
        self.obs = {}
        for g, v in obs:
            self.obs.setdefault(g, []).append(v)
        self.extra = list(extra)
        self.used_extra = 0
        self.quirks = set(quirks)
        self.trace = []
        self.fired = []      # candidate rows that fired
        self.seen = []       # rows considered
        self.quirk_used = set()
        self.limit = 0
        self.nesting = False
        self.nnest = 0
        try:
            self.ret = self.main(ev, token)
        except Thrown:
            self.ret = 'threw'
            self.res = None

    def guard(self, c, ev, tok):
        r = c.row
        self.seen.append(r)
        if r.g is None:
            return True
        self.limit += 1
        if self.limit > 60 + 2 * self.m.maxg:
            raise Choice('limit')
        l = self.obs.get(r.g)
        if l:
            v = l.pop(0)
        else:
            if self.used_extra >= len(self.extra):
                raise Choice()
            v = self.extra[self.used_extra]
            self.used_extra += 1
        self.trace.append(('g', r.g, v, ev, tok, c.src, self.tgtarg(c), self.o.cfg[:self.o.n]))
        if v == 'throws':
            raise Thrown()
        return v

    def tgtarg(self, c):
        return None if c.hist else c.tgt

    def fire(self, region, c, ev, tok):
        m, o = self.m, self.o
        self.fired.append(c)
        if c.kind != 'internal':
            cfg = list(o.cfg)
            to = c.to
            ini = m.initials(to[0])
            if not c.hist and cfg[0][0] == to[0] != cfg[region][0] and ini[:1] == [to[1]] and region < len(ini):
                # the region follows the first one into its new parent
                to = (to[0], ini[region])
            if m.history:
                h = dict(o.hist)
                # a parent state is left by all of its regions when the first one leaves it
                for r in [region] + (list(range(1, o.n)) if region == 0 else []):
                    h[(cfg[r][0], r)] = cfg[r]
                o.hist = tuple(sorted(h.items()))
                cfg[region] = h[(to[0], region)] if c.hist else to
            else:
                cfg[region] = to
            if m.maxregions > 1:
                par = cfg[0][0]
                prev = o.n
                o.n = len(m.initials(par))
                for r in range(prev, o.n):
                    cfg[r] = dict(o.hist)[(par, r)] if c.hist else (par, m.initials(par)[r])
            o.cfg = tuple(cfg)
        for kind, a in m.effects(c):
            self.trace.append(('a', a, ev, tok, c.src, self.tgtarg(c), kind, o.cfg[:o.n]))
            self.called()
            self.nested(a)

    def called(self):
        if self.cut is not None:
            self.cut -= 1
            if self.cut == 0:
                raise Thrown()

    def nested(self, a):
        """the callback processes an event itself: completely, before it returns"""
        ev = self.m.nest.get(a)
        if ev is None or self.nesting:
            return
        self.nesting = True
        self.trace.append(('b', a))
        self.nnest += 1
        ret = self.main(ev, self.m.nesttoks[self.nnest - 1])
        self.trace.append(('n', int(ret)))
        self.nesting = False

    def dispatch(self, ev, tok, redelivery):
        m, o = self.m, self.o
        fired = False
        evaluated = False
        deferred = False
        for region in range(o.n):
            if region >= len(o.cfg) or o.cfg[region] is None:
                break
            p, s = o.cfg[region]
            for c in m.table.get((ev, p, s), ()):
                if c.kind == 'defer':
                    deferred = True
                    break
                ok = self.guard(c, ev, tok)
                evaluated = True
                if ok:
                    fired = True
                    self.fire(region, c, ev, tok)
                    break
        if deferred and not fired:
            o.queue = o.queue + ((ev, tok),)
            return 'deferred'
        if not fired:
            return 'guards' if evaluated else 'unexpected'
        self.completion()
        return 'fired'

    def completion(self):
        m, o = self.m, self.o
        if not m.anon:
            return
        while True:
            fired = False
            for region in range(o.n):
                cand = m.table.get((None,) + o.cfg[region], ())
                if not cand:
                    if 'D1' in self.quirks:
                        if region + 1 < o.n:
                            self.quirk_used.add('D1')
                        return
                    continue
                for c in cand:
                    if c.kind == 'defer':
                        continue
                    if self.guard(c, None, None):
                        self.fire(region, c, None, None)
                        fired = True
                        break
            self.limit += 1
            if self.limit > 60 + 2 * self.m.maxg:
                raise Choice('limit')
            if not fired:
                return

    def main(self, ev, tok):
        m = self.m
        res = self.dispatch(ev, tok, False)
        if res == 'unexpected':
            h = m.states[m.root].handler
            if h is not None:
                self.trace.append(('h', h, ev, tok, self.o.cfg[0][1]))
                self.called()
                self.nested(h)
        if res == 'fired' and m.anydefer and self.o.queue:
            (e2, t2), self.o.queue = self.o.queue[0], self.o.queue[1:]
            self.trace.append(('redeliver', e2, t2))
            self.dispatch(e2, t2, True)
        self.res = res
        return res == 'fired'


def runs(m, o, ev, token, obs, quirks=(), cut=None):
    """all oracle runs consistent with the observed guard outcomes"""
    out = []
    work = [[]]
    while work:
        extra = work.pop()
        if len(extra) > 6:
            continue
        try:
            out.append(Run(m, o, ev, token, obs, extra, quirks, cut))
        except Choice as c:
            if c.args:
                continue
            work.append(extra + [False])
            work.append(extra + [True])
    return out
