"""Fixpoint over the reachable abstract states of a witness machine.

A node is an abstract memory image of the machine (canonicalised, all constants propagated) paired
with the reference state. For every node and every event all guard outcomes are explored; each
path is compared with the reference semantics and leads to a new node until nothing new appears."""
import collections
import time

import build
import oracle
import spec
from engine import *


class WEngine(Engine):
    """engine with the witness callbacks"""

    def __init__(self, module, m):
        super().__init__(module)
        self.wm = m
        self.sidname = {spec.sid(m, s): s for s in m.states}
        self.evname = {100 + i: e for i, e in enumerate(m.events)}
        self.evname[1] = None
        self.ext['wit_guard'] = self.w_guard
        self.ext['wit_action'] = self.w_action
        self.ext['wit_handler'] = self.w_handler
        self.ext['wit_nest'] = self.w_nest
        self.ext['wit_content'] = self.w_content
        self.ext['wit_nested'] = self.w_nested
        self.peek_cfg = None
        self.machine = None
        self.throws = False     # every callback may throw
        self.globalstores = {}

    def statename(self, st, p):
        if type(p) is tuple and p[0] != 'f':
            try:
                v = self.load(st, p, 4)
            except Stop:
                return ('dead', p[0])
            return (self.sidname.get(v, '?%r' % (v,)), p[0] if p[1] == 0 else p)
        return ('bad:%r' % (p,), None)

    def evtok(self, st, ty, p):
        if ty == 1:
            return (None, None, None)
        if type(p) is tuple and p[0] != 'f':
            o = st.mem.get(p[0])
            if o is None:
                return (self.evname.get(ty), 'dead', None)
            if self.wm.empty:
                return (self.evname.get(ty, '?%d' % ty), None, p[0])
            v = self.load(st, p, 8)
            return (self.evname.get(ty, '?%d' % ty), v.key[1] if isinstance(v, Sym) and v.key[0] == 'atom' else repr(v), p[0])
        return (self.evname.get(ty), 'bad', None)

    def deps(self, st, n, *ds):
        out = []
        for d in ds[:n]:
            if type(d) is tuple and d[0] in st.mem:
                out.append(st.mem[d[0]].name)
            else:
                out.append('bad')
        return tuple(out)

    def cb(self, st, a):
        return (self.evtok(st, a[1], a[2]), self.sidname.get(a[3], a[3]), self.statename(st, a[4]),
                self.sidname.get(a[5], a[5]), self.statename(st, a[6]), self.deps(st, *a[7:11]))

    def w_guard(self, e, st, a):
        if sum(1 for x in st.ext if x[0] == 'g') >= self.wm.maxg:
            raise Stop('limit' if self.wm.anon else 'hang', 'guard limit')
        info = self.cb(st, a)
        cfg = self.peek_cfg(st) if self.peek_cfg else None
        loc = self.where(st)

        def mk(v):
            ev = ('g', a[0], v) + info + (cfg, loc)

            def upd(s):
                s.ext = s.ext + (ev,)
            return upd
        raise Forks([(0, mk(False)), (1, mk(True))] + ([(THROW, mk('throws'))] if self.throws else []))

    def may_throw(self, st):
        if self.throws and ('t',) not in st.ext:
            def upd(s):
                s.ext = s.ext + (('t',),)
            raise Forks([(None, lambda s: None), (THROW, upd)])

    def w_action(self, e, st, a):
        cfg = self.peek_cfg(st) if self.peek_cfg else None
        st.ext = st.ext + (('a', a[0]) + self.cb(st, a) + (cfg, self.where(st)),)
        if len(st.ext) > 120 + 4 * self.wm.maxg:
            raise Stop('hang', 'endless sequence of actions')
        self.may_throw(st)

    def w_handler(self, e, st, a):
        st.ext = st.ext + (('h', a[0], self.evtok(st, a[1], a[2]), self.sidname.get(a[3], a[3]), self.statename(st, a[4]),
                            self.deps(st, *a[5:9]), self.where(st)),)
        self.may_throw(st)

    def w_nest(self, e, st, a):
        """a callback processes an event, unless it belongs to such an event itself"""
        if nested(st.ext):
            return 0
        st.ext = st.ext + (('b', a[0], self.where(st)),)
        return self.machine

    def w_content(self, e, st, a):
        return atom(self.nesttoks[sum(1 for x in st.ext if x[0] == 'b') - 1])

    def w_nested(self, e, st, a):
        st.ext = st.ext + (('n', (a[0] & 1) if type(a[0]) is int else None, self.where(st)),)

    def on_global_store(self, st, o):
        w = self.where(st)
        self.globalstores.setdefault(o.name, w[:6])


def nested(ext):
    return sum(1 for x in ext if x[0] == 'b') > sum(1 for x in ext if x[0] == 'n')


def wit_size(eng):
    st = State()
    st.ext = ()
    p = eng.call_root(st, 'root_size', [])
    return p[0].value


class Witness:
    """compiled witness with its abstract constructor image"""

    def __init__(self, m, dsl='prefix', repo=None, stubs=True, mode=(), support=False):
        self.m = m
        cpp = spec.gen_cpp(m, dsl)
        self.cpp = cpp
        self.stubs = stubs
        self.cfgs = {}
        js = build.witness(cpp, stubs=stubs, repo=repo, name=m.name, mode=mode, peek='root_state', support=support)
        self.module = Module(js)
        self.eng = WEngine(self.module, m)
        # the observation function is_state, reduced to its observable behaviour by the optimiser. The
        # queries themselves are analysed unoptimised for the properties about queries
        self.peng = WEngine(Module(js + '.peek'), m)
        self.construct()

    def construct(self):
        m, e = self.m, self.eng
        st = State()
        st.ext = ()
        size = wit_size(e)
        self.sm = e.new_obj(st, size, 'heap', 'machine')
        e.machine = (self.sm, 0)
        self.sm2 = e.new_obj(st, size, 'heap', 'machine2')
        self.deps = []
        for k in range(2):
            ds = []
            for i in range(m.deps):
                d = e.new_obj(st, 8, 'heap', 'D%d#%d' % (i, k))
                st.mem[d].cells[0] = (8, atom('dep%d#%d' % (i, k)))
                ds.append((d, 0))
            self.deps.append(ds)
        self.pre = st.fork()
        ps = e.call_root(st, 'root_ctor', [(self.sm, 0)] + self.deps[0])
        self.ctor_paths = ps
        if len(ps) != 1 or ps[0].kind != 'ret' or ps[0].state.ext:
            self.base = None
            self.ctor_fail = 'constructor: %s' % '; '.join(
                '%s %s at %s' % (p.kind, p.what or '', ' < '.join((p.where or [])[:4])) if p.kind != 'ret'
                else 'callbacks during construction' for p in ps)
            return
        self.ctor_fail = None
        self.base = ps[0].state
        # materialise globals once so that object ids agree in all forks
        for g in self.module.globals:
            e.global_obj(self.base, g)
        self.base.own = set()

    def peek(self, st, region):
        """(parent, state) reported by is() for a region, or a string describing the failure"""
        s = st.fork()
        s.frames = []
        s.ext = ()
        try:
            ps = self.peng.call_root(s, 'root_state', [(self.sm, 0), region])
        except Unsupported:
            self.peng = self.eng
            return self.peek(st, region)
        out = set()
        for p in ps:
            if p.kind != 'ret':
                out.add('%s: %s' % (p.kind, p.what))
            else:
                v = sgn(p.value, 32) if type(p.value) is int else p.value
                if type(v) is not int:
                    out.add('unknown')
                elif v < 0:
                    out.add('no state' if v == -1 else 'several states')
                else:
                    out.add((self.m.parents[v // 1000], self.m.real[v % 1000]))
        if len(out) == 1:
            return out.pop()
        return 'ambiguous'

    def cfg(self, st, n, key=None):
        if key is None:
            key = self.canon(st)
        k = (key, n)
        c = self.cfgs.get(k)
        if c is None:
            c = self.cfgs[k] = tuple(self.peek(st, r) for r in range(n))
        return c

    def canon(self, st, o=None):
        ren = {atom(t): k for k, (_, t) in enumerate(o.queue)} if o is not None else {}
        base = self.base
        out = []
        new = {}
        order = []

        def cv(v):
            if type(v) is tuple and v and v[0] != 'f' and type(v[0]) is int:
                if v[0] in base.mem:
                    return ('b', v[0], v[1])
                if v[0] not in st.mem:
                    return ('dangling',)
                if v[0] not in new:
                    new[v[0]] = len(new)
                    order.append(v[0])
                return ('n', new[v[0]], v[1])
            if isinstance(v, Sym):
                if v in ren:
                    return ('t', ren[v])
                return ('s', v.n)
            if v is UNDEF:
                return ('u',)
            return repr(v)

        for i in sorted(base.mem):
            o = st.mem.get(i)
            bo = base.mem[i]
            if o is bo:
                continue
            if o is None:
                out.append((i, 'freed'))
                continue
            if bo.kind == 'exc':
                continue
            cells = tuple(sorted((off, c[0], cv(c[1])) for off, c in o.cells.items() if bo.cells.get(off) != c))
            gone = tuple(sorted(off for off in bo.cells if off not in o.cells))
            items = tuple(cv((x, 0)) for x in o.items) if o.items is not None and o.items != bo.items else None
            if cells or gone or items is not None:
                out.append((i, cells, gone, items))
        k = 0
        while k < len(order):
            o = st.mem[order[k]]
            k += 1
            cells = tuple(sorted((off, c[0], cv(c[1])) for off, c in o.cells.items()))
            items = tuple(cv((x, 0)) for x in o.items) if o.items is not None else None
            out.append(('new', o.size, o.kind, cells, items))
        return tuple(out)

    def fire(self, st, ev, tok):
        """all abstract paths of one process_event call. Returns [(Path, event object)]"""
        e = self.eng
        s = st.fork()
        s.frames = []
        s.ext = ()
        eo = e.new_obj(s, 8, 'heap', 'event')
        s.mem[eo].cells[0] = (8, atom(tok))
        ps = e.call_root(s, 'root_ev_' + ev, [(self.sm, 0), (eo, 0)])
        for p in ps:
            o = p.state.mem.pop(eo, None)
            p.evsame = o is not None and (self.m.empty or o.cells == {0: (8, atom(tok))} or self.m.rvalue)
        return ps, eo

    def set_paths(self, st, region, p, s):
        m = self.m
        f = st.fork()
        f.frames = []
        f.ext = ()
        return self.eng.call_root(f, 'root_set_%d_%d' % (m.parents.index(p), m.real.index(s)), [(self.sm, 0), region])


def obs_trace(p, eo):
    return p.state.ext


class Finding:
    def __init__(self, machine, ev, node, diffs, rows, detail, where=None, quirk=None):
        self.machine = machine
        self.ev = ev
        self.node = node
        self.diffs = diffs
        self.rows = rows
        self.detail = detail
        self.where = where
        self.quirk = quirk
        self.extra = set()

    def tags(self):
        t = set()
        for r in self.rows:
            if r is not None:
                t |= r.tags
        return t | self.extra


def fmt_obs(tr):
    out = []
    for x in tr:
        if x[0] == 'g':
            out.append('guard%d=%s' % (x[1], 'T' if x[2] is True else x[2] or 'F'))
        elif x[0] == 'a':
            out.append('action%d' % x[1])
        elif x[0] == 'h':
            out.append('handler(%s)' % x[4][0])
        elif x[0] in 'bn':
            out.append('{' if x[0] == 'b' else '}=%s' % x[1])
        elif x[0] == 't':
            out.append('throws')
    return ' '.join(out) or '-'


def fmt_exp(tr):
    out = []
    for x in tr:
        if x[0] == 'g':
            out.append('guard%d=%s' % (x[1], 'T' if x[2] is True else x[2] or 'F'))
        elif x[0] == 'a':
            out.append('action%d' % x[1])
        elif x[0] == 'h':
            out.append('handler(%s)' % x[4])
        elif x[0] in 'bn':
            out.append('{' if x[0] == 'b' else '}=%s' % x[1])
        elif x[0] == 't':
            out.append('throws')
    return ' '.join(out) or '-'


def kept(tr, tok):
    """the redelivered events of a trace of callbacks"""
    out = []
    for x in tr:
        if x[0] in 'gah':
            k = 3 if x[0] == 'g' else 2
            t = x[k][1] if type(x[k]) is tuple else x[k + 1]
            if t is not None and t != tok and str(t)[:1] == 'T':
                out.append(t)
    return out


class Agenda:
    """states to analyse: first those whose reference state is new. A machine with a hidden counter has
    infinitely many abstract states for the same reference state"""

    def __init__(self):
        self.keys = set()
        self.first = collections.deque()
        self.rest = collections.deque()
        self.extra = 0

    def append(self, x):
        k = x[1].key()
        if k in self.keys:
            self.rest.append(x)
        else:
            self.keys.add(k)
            self.first.append(x)

    def __len__(self):
        return len(self.first) + len(self.rest)

    def pop(self, n):
        if self.first:
            # alternately the oldest and the newest state: wide and deep histories early
            return self.first.popleft() if n % 2 == 0 else self.first.pop()
        # long histories: a counter may be wide, a buffer large
        self.extra += 1
        return self.rest.popleft() if self.extra % 360 < 40 else self.rest.pop()


class Explorer:
    MAXNODES = 4000
    MAXBAD = 60
    BUDGET = 300
    deadline_all = None     # of the whole check

    def __init__(self, w, peek_actions=False, dtor=False):
        self.dtor = dtor
        self.callbacks = 0
        self.threw = 0
        self.taint = False
        self.destroyed = 0
        self.w = w
        self.m = w.m
        self.findings = []
        self.nodes = 0
        self.paths = 0
        self.cut = 0
        self.limits = 0
        self.objs = {}       # state name -> object id (single instance)
        self.rowsfired = set()
        self.rows_by_g = {}
        self.rows_by_a = {}
        self.incomplete = False
        self.nbad = 0
        m = self.m
        for s, d in m.states.items():
            for r in (d.rows or []) + (d.internal or []):
                if r.g is not None:
                    self.rows_by_g.setdefault(r.g, []).append(r)
                for a in spec.acts(r):
                    self.rows_by_a.setdefault(a, []).append(r)
        if peek_actions:
            def pk(st):
                return self.w.cfg(st, self.m.maxregions)
            w.eng.peek_cfg = pk

    def add(self, *a, **k):
        f = Finding(self.m.name, *a, **k)
        self.findings.append(f)
        return f

    def compare(self, p, run, eo, tok, depnames):
        """differences between an abstract path and an oracle run"""
        m = self.m
        obs = [x for x in p.state.ext if x[0] != 't']
        exp = [x for x in run.trace if x[0] != 'redeliver']
        diffs = set()
        og = [x[1] for x in obs if x[0] == 'g']
        eg = [x[1] for x in exp if x[0] == 'g']
        oa = [x[1] for x in obs if x[0] == 'a']
        ea = [x[1] for x in exp if x[0] == 'a']
        oh = [x[1] for x in obs if x[0] == 'h']
        eh = [x[1] for x in exp if x[0] == 'h']
        if og != eg:
            diffs.add('guards')
        if oa != ea:
            diffs.add('effects')
            if sorted(oa) == sorted(ea):
                diffs.add('effect-order')
        if oh != eh:
            diffs.add('handler')
        if not diffs and [x[:2] for x in obs] != [x[:2] for x in exp]:
            diffs.add('interleave')
        if p.kind in ('ret', 'threw'):
            if p.kind == 'threw' or run.ret == 'threw':
                if p.kind != run.ret:
                    diffs.add('exception')
            elif p.value is UNDEF:
                diffs.add('ret')
            elif type(p.value) is not int:
                diffs.add('ret')
            elif bool(p.value & 1) != run.ret:
                diffs.add('ret')
            n = run.o.n
            ocfg = self.w.cfg(p.state, n)
            if ocfg != run.o.cfg[:n]:
                diffs.add('cfg')
                if run.res == 'unexpected':
                    diffs.add('handler-state')
        else:
            ocfg = None
            diffs.add('crash')
        if kept(obs, tok)[:1] != kept(exp, tok)[:1] and kept(obs, tok) and kept(exp, tok):
            diffs.add('fifo')
        detail = []
        if not (diffs & {'guards', 'effects', 'handler', 'interleave'}):
            for x, y in zip(obs, exp):
                d = self.cmp_args(x, y, eo, tok, depnames, run)
                if d:
                    if x[0] == 'h':
                        d.add('handler-args')
                    diffs |= d
                    detail.append('%s%d: %s' % (x[0], x[1], ','.join(sorted(d))))
        if p.kind in ('ret', 'threw'):
            if not p.evsame:
                diffs.add('event-write')
            for name, i in self.objs.items():
                a, b = p.state.mem.get(i), self.w.base.mem.get(i)
                if a is not b and (a is None or b is None or a.cells != b.cells):
                    diffs.add('state-write')
                    detail.append('state object of %s changed' % name)
        return diffs, ocfg, detail

    def cmp_args(self, x, y, eo, tok, depnames, run):
        d = set()
        m = self.m
        if x[0] in 'bn':
            return d
        if x[0] == 'h':
            (ev, t, obj), sty, (sname, sobj), deps = x[2], x[3], x[4], x[5]
            eev, et, es, etgt, tty, tname = y[2], y[3], y[4], None, None, None
        else:
            k = 3 if x[0] == 'g' else 2
            (ev, t, obj), sty, (sname, sobj), tty, (tname, tobj), deps = x[k:k + 6]
            eev, et, es, etgt = y[k:k + 4]
        if ev != eev:
            d.add('args-event')
        elif eev is not None:
            if m.empty:
                if et == tok and obj != eo and not self.redelivered(run, et):
                    d.add('args-event-ref')
            elif t != et:
                d.add('args-event')
            elif et == tok and t == tok and obj != eo and not self.redelivered(run, et):
                d.add('args-event-ref')
        if sty != es or sname != es:
            d.add('args-source')
            if sty == es or sname not in m.states:
                d.add('args-instance')  # another object of the right type than the one made for the state
        elif self.objs.setdefault(es, sobj) != sobj:
            d.add('args-instance')
        if etgt is not None:
            if tty != etgt or tname != etgt:
                d.add('args-target')
                if tty == etgt or tname not in m.states:
                    d.add('args-instance')
            elif self.objs.setdefault(etgt, tobj) != tobj:
                d.add('args-instance')
        if deps != depnames:
            d.add('args-dep')
        if x[0] in 'ga' and x[-2] is not None:
            c = x[-2][:len(y[-1])]
            if c != y[-1]:
                d.add('atcfg')
        return d

    def redelivered(self, run, tok):
        return any(x[0] == 'redeliver' and x[2] == tok for x in run.trace)

    def involved(self, p, runs):
        rows = []
        for run in runs:
            rows += [c.row for c in run.fired] + run.seen
        for x in p.state.ext:
            if x[0] == 'g':
                rows += self.rows_by_g.get(x[1], [])
            elif x[0] == 'a':
                rows += self.rows_by_a.get(x[1], [])
        return rows

    def start_nodes(self):
        w, m = self.w, self.m
        o = oracle.initial(m)
        yield 'construction', w.base, o, None
        if not m.starts:
            return
        for p, s in m.table_states():
            if (p, s) in m.noset:
                continue
            for q in w.set_paths(w.base, 0, p, s):
                yield 'set(0,%s,%s)' % (p, s), q.state, oracle.set_state(m, o, 0, p, s), q

    def run(self, setdep=False):
        w, m = self.w, self.m
        if w.base is None:
            self.add('(constructor)', '-', {'crash', 'ctor'}, [], w.ctor_fail)
            return self
        seen = self.seen = set()
        work = self.work = Agenda()
        self.deadline = time.time() + self.BUDGET
        if self.deadline_all:
            self.deadline = min(self.deadline, self.deadline_all)
        for what, st, o, q in self.start_nodes():
            if q is not None and q.kind != 'ret':
                self.add(what, '-', {'crash', 'set'}, [], '%s: %s' % (q.kind, q.what), q.where)
                continue
            c = w.cfg(st, o.n)
            if c != o.cfg[:o.n]:
                self.add(what, '-', {'cfg', 'set' if q is not None else 'initial'}, [],
                         'reported configuration %s, expected %s' % (c, o.cfg[:o.n]))
                continue
            k = (w.canon(st, o), o.key())
            if k not in seen:
                seen.add(k)
                work.append((st, o, False))
        while work:
            if self.nbad > self.MAXBAD:
                self.incomplete = True
                break
            st, o, self.taint = work.pop(self.nodes)
            self.nodes += 1
            if self.nodes > self.MAXNODES or time.time() > self.deadline or work.extra > max(800, 10 * len(work.keys)):
                self.incomplete = True
                break
            self.node(st, o)
            toks = {t for _, t in o.queue}
            tok = next('T%d' % i for i in range(999) if 'T%d' % i not in toks)
            m.nesttoks = w.eng.nesttoks = ['N%d' % i for i in range(200) if 'N%d' % i not in toks]
            depn = tuple('D%d#%d' % (i, o.dep) for i in range(m.deps))
            for ev in m.events:
                ps, eo = w.fire(st, ev, tok)
                for p in ps:
                    self.paths += 1
                    if p.kind == 'limit':
                        self.limits += 1
                        continue
                    self.step(p, o, ev, tok, eo, depn, seen, work)
            if setdep and o.dep == 0:
                f = st.fork()
                f.frames = []
                f.ext = ()
                for q in w.eng.call_root(f, 'root_setdep', [(w.sm, 0)] + w.deps[1]):
                    o2 = o.copy()
                    o2.dep = 1
                    if q.kind != 'ret' or q.state.ext or w.cfg(q.state, o2.n) != o2.cfg[:o2.n]:
                        self.add('set_dependency', repr(o), {'setdep', 'crash'} if q.kind != 'ret' else {'setdep'}, [],
                                 '%s %s' % (q.kind, q.what), q.where)
                        continue
                    q.state.ext = ()
                    k = (w.canon(q.state, o2), o2.key())
                    if k not in seen:
                        seen.add(k)
                        work.append((q.state, o2, False))
        return self

    def node(self, st, o):
        if self.dtor:
            self.destroy(st, o)

    def destroy(self, st, o):
        """the destructor frees every heap object of the machine exactly once"""
        f = st.fork()
        f.frames = []
        f.ext = ()
        for q in self.w.eng.call_root(f, 'root_dtor', [(self.w.sm, 0)]):
            self.destroyed += 1
            if q.kind != 'ret':
                self.add('destruction', repr(o), {'crash', 'leak'}, [], '%s: %s' % (q.kind, q.what), q.where)
                continue
            left = [(i, x) for i, x in q.state.mem.items() if x.kind in ('heap', 'elem', 'list') and i not in self.w.pre.mem]
            if left:
                self.add('destruction', repr(o), {'leak'}, [], '%d heap objects are never freed, e.g. of size %d' % (
                    len(left), left[0][1].size))
            if q.state.ext:
                self.add('destruction', repr(o), {'effects', 'owner'}, [], 'destruction runs ' + fmt_obs(q.state.ext))

    def step(self, p, o, ev, tok, eo, depn, seen, work):
        m = self.m
        obs = [(x[1], x[2]) for x in p.state.ext if x[0] == 'g']
        self.callbacks += len(p.state.ext)
        cut = None
        # a callback has thrown on the way to this state or on this path
        thrown = self.taint or p.kind == 'threw' or ('t',) in p.state.ext or any(x[0] == 'g' and x[2] == 'throws' for x in p.state.ext)
        self.threw += p.kind == 'threw'
        if ('t',) in p.state.ext:
            cut = sum(1 for x in p.state.ext[:p.state.ext.index(('t',))] if x[0] in 'ah')
        rs = oracle.runs(m, o, ev, tok, obs, cut=cut)
        good = None
        bad = None
        for r in rs:
            for c in r.fired:
                self.rowsfired.add(c.row)
            d, ocfg, detail = self.compare(p, r, eo, tok, depn)
            if not d:
                good = r
            elif bad is None or len(d) > len(bad[1]):
                bad = (r, d, ocfg, detail)
        if bad is not None:
            quirk = None
            for r in oracle.runs(m, o, ev, tok, obs, quirks=('D1',), cut=cut):
                if len(r.quirk_used) == 1:
                    d, _, _ = self.compare(p, r, eo, tok, depn)
                    if not d:
                        quirk, = r.quirk_used
                        good = r
            r, d, ocfg, detail = bad
            loc = p.where
            if loc is None:
                exp = [x for x in r.trace if x[0] != 'redeliver']
                obs2 = [x for x in p.state.ext if x[0] != 't']
                k = 0
                while k < len(obs2) and k < len(exp) and obs2[k][:2] == exp[k][:2]:
                    k += 1
                if k < len(obs2):
                    loc = obs2[k][-1]
                elif obs2:
                    loc = obs2[-1][-1]
            if o.dep:
                d = d | {'after-setdep'}
            if thrown:
                d = d | {'exception'}
            f = self.add(ev, repr(o), d, self.involved(p, rs),
                     'path: %s -> %s%s%s; required: %s -> %s %s %s' % (
                         fmt_obs(p.state.ext), p.kind if p.kind != 'ret' else bool(p.value) if type(p.value) is int else p.value,
                         ' (%s)' % p.what if p.what else '',
                         ' ' + ' '.join(map(fc, ocfg)) if ocfg else '',
                         fmt_exp(r.trace), r.ret, ' '.join(map(fc, r.o.cfg[:r.o.n])), '; '.join(detail)),
                     loc, quirk)
            # the path concerns an event that is, was or is to be kept
            if o.queue or any(x.o.queue or x.res == 'deferred' for x in rs) or any(
                    e[1] not in (None, tok) for e in (x[2] if x[0] == 'h' else x[3 if x[0] == 'g' else 2] for x in p.state.ext if x[0] in 'gah')):
                f.extra.add('deferral')
            if quirk is None:
                self.nbad += 1
                return
        if good is None or p.kind not in ('ret', 'threw'):
            return
        o2 = good.o
        if len(o2.queue) > m.maxq:
            self.cut += 1
            return
        p.state.ext = ()
        k = (self.w.canon(p.state, o2), o2.key())
        if k not in seen:
            seen.add(k)
            work.append((p.state, o2, thrown))


def fc(c):
    return '%s.%s' % c if isinstance(c, tuple) else str(c)
