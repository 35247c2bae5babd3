"""Witness machines: a declarative description, the C++ translation unit generated from it, and the
reference semantics ("oracle") of the description."""
import re


def acts(r):
    """the action ids of a row in execution order (nested tuples are chains)"""
    def flat(a):
        if a is None:
            return []
        if isinstance(a, tuple):
            return [y for x in a for y in flat(x)]
        return [a]
    return flat(r.a)


def cpp_act(a):
    if isinstance(a, tuple):
        return 'hsm::%s(%s)' % ('chain_actions' if len(a) % 2 else 'chain', ', '.join(cpp_act(x) for x in a))
    return 'A<%d> {}' % a


class Row:
    def __init__(self, src, ev, tgt, g=None, a=None, tags=(), post=False, agents=None, deps=None):
        self.initial = False
        if isinstance(src, str) and src.startswith('*'):
            self.initial = True
            src = src[1:]
        self.src = src
        self.ev = ev
        self.tgt = tgt
        self.g = g
        self.a = a
        self.tags = frozenset(tags)
        self.post = post
        self.parent = None

    def __repr__(self):
        return '%s%r + %s [%s] / %s = %r' % ('*' if self.initial else '', self.src, self.ev, self.g, self.a, self.tgt)


class Internal:
    def __init__(self, ev, g=None, a=None, tags=()):
        self.ev = ev
        self.g = g
        self.a = a
        self.tags = frozenset(tags)


class St:
    """a state: entry / exit action ids, deferred events, internal rows, rows if composite"""

    def __init__(self, entry=None, exit=None, defer=(), rows=None, internal=None, handler=None, extra=''):
        self.entry = entry
        self.exit = exit
        self.defer = tuple(defer)
        self.rows = rows
        self.internal = internal
        self.handler = handler
        self.extra = extra


class Machine:
    def __init__(self, name, states, root='M', deps=0, props=(), events=None, rvalue=False, starts=True, maxq=2,
                 maxg=40, header='hsm/hsm.h', extra='', pre='', isprobe=True, noset=(), byconst=False, peekall=True, valued=False, rich=None, actret=False, empty=False, nest=None):
        self.empty = empty
        # callback id -> event which this callback processes
        self.nest = dict(nest or {})
        self.rich = rvalue if rich is None else rich
        self.actret = actret
        self.valued = valued
        self.peekall = peekall
        self.name = name
        self.states = dict(states)
        self.root = root
        self.deps = deps
        self.props = set(props)
        self.rvalue = rvalue
        self.maxq = maxq
        self.maxg = maxg
        self.header = header
        self.extra = extra
        self.pre = pre
        self.starts = starts
        self.isprobe = isprobe
        self.noset = set(noset)
        self.byconst = byconst
        for s, d in list(self.states.items()):
            for r in d.rows or ():
                r.parent = s
                for x in self._names(r):
                    if x not in self.states:
                        self.states[x] = St()
        self.events = events or self._events()
        self._flatten()

    def _names(self, r):
        out = []
        for x in (r.src, r.tgt):
            if isinstance(x, tuple):
                out += list(x[1:])
            elif x is not None:
                out.append(x)
        return out

    def _events(self):
        ev = []
        for s, d in self.states.items():
            for r in (d.rows or []) + (d.internal or []):
                if r.ev and r.ev not in ev:
                    ev.append(r.ev)
            for e in d.defer:
                if e not in ev:
                    raise ValueError('deferred event %s has no row' % e)
        return ev

    # ---- reference structure -------------------------------------------------------------
    def comp(self, s):
        return isinstance(s, str) and self.states[s].rows is not None

    def sub_parent(self, tgt):
        if isinstance(tgt, tuple):
            return tgt[1]
        return tgt

    def _flatten(self):
        visited = {self.root}

        def rec(s):
            out = []
            rows = self.states[s].rows
            # a sub machine is collected behind the last row that targets it
            for r in reversed(rows):
                sub = self.sub_parent(r.tgt)
                part = [r]
                if self.comp(sub) and sub not in visited:
                    visited.add(sub)
                    part += rec(sub)
                out = part + out
            return out

        self.flat = rec(self.root)
        self.parents = []
        for r in self.flat:
            if r.parent not in self.parents:
                self.parents.append(r.parent)
        self.history = any(isinstance(r.tgt, tuple) and r.tgt[0] == 'history' for r in self.flat)
        self.anon = any(r.ev is None for r in self.flat)
        self.maxregions = max(len(self.initials(p)) for p in self.parents)
        # child states (type level: a pseudo target is a child of its own kind)
        self.real = []
        for r in self.flat:
            for x in (r.src, r.tgt):
                if isinstance(x, str) and x not in self.real:
                    self.real.append(x)
        if self.root not in self.real:
            self.real.append(self.root)
        self.build_tables()

    def initials(self, p):
        out = []
        for r in self.states[p].rows:
            if r.initial and r.src not in out:
                out.append(r.src)
        return out

    def children(self, p):
        """states named in the rows of p (initial markers resolved)"""
        out = []
        for r in self.states[p].rows:
            for x in (r.src, r.tgt):
                if x not in out:
                    out.append(x)
        return out

    def resolve_src(self, r):
        if isinstance(r.src, tuple):
            return r.src[1], r.src[2]
        return r.parent, r.src

    def resolve_tgt(self, r):
        t = r.tgt
        if isinstance(t, tuple):
            if t[0] == 'history':
                return t[1], self.initials(t[1])[0]
            if t[0] == 'initial':
                return r.parent, t[1]
            return t[1], t[2]
        if self.comp(t):
            return t, self.initials(t)[0]
        return r.parent, t

    def build_tables(self):
        """reference candidate lists: (event or None, parent, state) -> [cand] highest priority first"""
        tab = {}

        def add(ev, p, s, c):
            tab.setdefault((ev, p, s), []).insert(0, c)

        # internal rows
        owners = []

        def own(p, s):
            if (p, s) not in owners:
                owners.append((p, s))

        for r in self.flat:
            own(r.parent, r.parent)
        own(self.root, self.root)
        for r in self.flat:
            own(r.parent, r.src)
            own(r.parent, r.tgt)
        seen = set()
        for p, s in owners:
            if not isinstance(s, str):
                continue
            d = self.states[s]
            if d.internal is None:
                continue
            for i in d.internal:
                if d.rows is not None:
                    # every state of the composite, also when named by a pseudo target only
                    for c in self.children(s):
                        if isinstance(c, tuple):
                            if c[0] == 'initial':
                                c = c[1]
                            else:
                                continue
                        if (i, s, c) not in seen:
                            seen.add((i, s, c))
                            add(i.ev, s, c, Cand(i, 'internal', c, c, None, None))
                else:
                    if (i, p, s) not in seen:
                        seen.add((i, p, s))
                        add(i.ev, p, s, Cand(i, 'internal', s, s, None, None))
        for r in self.flat:
            sp, ss = self.resolve_src(r)
            tp, ts = self.resolve_tgt(r)
            hist = isinstance(r.tgt, tuple) and r.tgt[0] == 'history'
            add(r.ev, sp, ss, Cand(r, 'external', ss, ts, (tp, ts), hist))
            if isinstance(r.src, str) and self.comp(r.src):
                for c in self.children(r.src):
                    if isinstance(c, tuple):
                        if c[0] == 'initial':
                            c = c[1]
                        else:
                            continue
                    add(r.ev, r.src, c, Cand(r, 'compexit', r.src, ts, (tp, ts), hist))
        dd = []
        for r in self.flat:
            for x in (self.resolve_src(r), self.resolve_tgt(r)):
                if x not in dd and self.states[x[1]].defer:
                    dd.append(x)
        self.anydefer = bool(dd)
        for p, s in dd:
            for ev in self.states[s].defer:
                add(ev, p, s, Cand(None, 'defer', s, s, None, None))
        self.table = tab

    def effects(self, c):
        """ordered action ids of a candidate: (kind, id)"""
        r = c.row
        out = []
        if c.kind == 'internal':
            out += [('action', a) for a in acts(r)]
            return out
        if isinstance(r.src, tuple):
            if r.src[0] == 'exit' and self.states[r.src[1]].exit is not None:
                out.append(('exit', self.states[r.src[1]].exit))
        elif self.states[r.src].exit is not None:
            out.append(('exit', self.states[r.src].exit))
        out += [('action', a) for a in acts(r)]
        if isinstance(r.tgt, str):
            if self.states[r.tgt].entry is not None:
                out.append(('entry', self.states[r.tgt].entry))
            if self.comp(r.tgt):
                i = self.initials(r.tgt)[0]
                if self.states[i].entry is not None:
                    out.append(('entry', self.states[i].entry))
        elif r.tgt[0] == 'initial' and self.states[r.tgt[1]].entry is not None:
            out.append(('entry', self.states[r.tgt[1]].entry))
        return out

    def initial_config(self):
        return self.initials(self.root)


class Cand:
    __slots__ = ('row', 'kind', 'src', 'tgt', 'to', 'hist')

    def __init__(self, row, kind, src, tgt, to, hist):
        self.row = row
        self.kind = kind  # external internal compexit defer
        self.src = src
        self.tgt = tgt
        self.to = to
        self.hist = hist


# ---- C++ generation --------------------------------------------------------------------------
def sid(m, s):
    return 10 + list(m.states).index(s)


def gen_cpp(m, dsl='prefix'):
    o = []
    w = o.append
    w('#include "%s"' % m.header)
    w('#include <new>')
    w('#include <memory>')
    w('using hsm::state; using hsm::event;')
    w('extern "C" {')
    w('bool wit_guard(int, int, const void*, int, const void*, int, const void*, int, const void*, const void*, const void*);')
    w('void wit_action(int, int, const void*, int, const void*, int, const void*, int, const void*, const void*, const void*);')
    w('void wit_handler(int, int, const void*, int, const void*, int, const void*, const void*, const void*);')
    w('}')
    w('template <class T> constexpr int tid = 0;')
    w('template <class... D> int depn(D&...) { return sizeof...(D); }')
    w('template <int I> const void* dep() { return nullptr; }')
    w('template <int I, class D, class... R> const void* dep(D& d, R&... r) { if constexpr (I == 0) return (const void*)std::addressof(d); else return dep<I - 1>(r...); }')
    w('template <class T> constexpr int tidof = tid<std::remove_cv_t<std::remove_reference_t<T>>>;')
    w('#define ADDR(x) ((const void*)std::addressof(x))')
    w('''template <int I> struct G { template <class E, class S, class T, class... D> auto operator()(E&& e, S&& s, T&& t, D&&... d) const {
  const bool accept = wit_guard(I, tidof<E>, ADDR(e), tidof<S>, ADDR(s), tidof<T>, ADDR(t), (int)sizeof...(D), dep<0>(d...), dep<1>(d...), dep<2>(d...));
  // a guard accepts with any result that converts to true
  if constexpr (I % 4 == 2) return accept ? 6 : 0; else return accept; } };
template <int I> struct A { template <class E, class S, class T, class... D> void operator()(E&& e, S&& s, T&& t, D&&... d) const {
  wit_action(I, tidof<E>, ADDR(e), tidof<S>, ADDR(s), tidof<T>, ADDR(t), (int)sizeof...(D), dep<0>(d...), dep<1>(d...), dep<2>(d...)); } };
template <int I> struct H { template <class E, class S, class... D> void operator()(E&& e, S&& s, D&&... d) const {
  wit_handler(I, tidof<E>, ADDR(e), tidof<S>, ADDR(s), (int)sizeof...(D), dep<0>(d...), dep<1>(d...), dep<2>(d...)); } };''')
    if m.nest:
        o[-1] = ('extern "C" { void* wit_nest(int); long wit_content(); void wit_nested(bool); }\nvoid nest(int);\n'
                 + re.sub(r'(wit_(action|handler)\(.*\);) \} \};', r'\1 if constexpr (%s) nest(I); } };' % ' || '.join(
                     'I == %d' % i for i in m.nest), o[-1]))
    if m.actret:
        # actions with results, which mean nothing
        o[-1] = o[-1].replace('struct A { template <class E, class S, class T, class... D> void operator()', 'struct A { template <class E, class S, class T, class... D> auto operator()')
        o[-1] = o[-1].replace('  wit_action(I, tidof<E>, ADDR(e), tidof<S>, ADDR(s), tidof<T>, ADDR(t), (int)sizeof...(D), dep<0>(d...), dep<1>(d...), dep<2>(d...)); } };',
                              '  wit_action(I, tidof<E>, ADDR(e), tidof<S>, ADDR(s), tidof<T>, ADDR(t), (int)sizeof...(D), dep<0>(d...), dep<1>(d...), dep<2>(d...)); '
                              'if constexpr (I % 4 == 1) return false; else if constexpr (I % 4 == 2) return 0; else if constexpr (I % 4 == 3) return true; } };')
        assert 'I % 4' in o[-1]
    if m.valued:
        # one functor type for all rows, the identity is carried by the function object
        w('''struct GV { int id; constexpr explicit GV(int i): id(i) {} template <class E, class S, class T, class... D> bool operator()(E&& e, S&& s, T&& t, D&&... d) const {
  return wit_guard(id, tidof<E>, ADDR(e), tidof<S>, ADDR(s), tidof<T>, ADDR(t), (int)sizeof...(D), dep<0>(d...), dep<1>(d...), dep<2>(d...)); } };
struct AV { int id; constexpr explicit AV(int i): id(i) {} template <class E, class S, class T, class... D> void operator()(E&& e, S&& s, T&& t, D&&... d) const {
  wit_action(id, tidof<E>, ADDR(e), tidof<S>, ADDR(s), tidof<T>, ADDR(t), (int)sizeof...(D), dep<0>(d...), dep<1>(d...), dep<2>(d...)); } };''')
    for e in m.events:
        if m.empty:
            w('struct %s {};' % e)
        elif m.rich:
            # contents are lost when it is moved from or destroyed
            w('struct %s { long x; %s%s(const %s& o): x(o.x) {} %s(%s&& o) noexcept: x(o.x) { o.x = -1; } ~%s() { x = -2; } };' % (
                e, '%s(long v): x(v) {} ' % e if m.nest else '', e, e, e, e, e))
        else:
            w('struct %s { long x; };' % e)
    for i in range(m.deps):
        # the first and the third dependency have one type
        w('struct D%d { long x; };' % i if i != 2 else 'using D2 = D0;')
    if m.pre:
        w(m.pre)
    order = []
    started = set()

    def visit(s):
        if s in started:
            return
        started.add(s)
        d = m.states[s]
        for r in d.rows or ():
            for x in m._names(r):
                if x != s:
                    visit(x)
        order.append(s)

    for s in m.states:
        visit(s)
    for s in order:
        w('struct %s;' % s)
    for s in order:
        d = m.states[s]
        w('struct %s { int id = %d;' % (s, sid(m, s)))
        if d.extra:
            w(d.extra)
        if d.entry is not None:
            w('  static constexpr auto on_entry() { return A<%d> {}; }' % d.entry)
        if d.exit is not None:
            w('  static constexpr auto on_exit() { return A<%d> {}; }' % d.exit)
        if d.defer:
            w('  static constexpr auto defer_events() { return hsm::events<%s>; }' % ', '.join(d.defer))
        if d.handler is not None:
            w('  static constexpr auto on_unexpected_event() { return H<%d> {}; }' % d.handler)
        if d.rows is not None:
            w('  static constexpr auto make_transition_table() { return hsm::transition_table(')
            w(',\n'.join('    ' + cpp_row(m, r, dsl) for r in d.rows))
            w('  ); }')
        if d.internal is not None:
            w('  static constexpr auto make_internal_transition_table() { return hsm::transition_table(')
            w(',\n'.join('    ' + cpp_internal(i, dsl) for i in d.internal))
            w('  ); }')
        w('};')
    w('template <> constexpr int tid<hsm::noneEvent> = 1;')
    for i, e in enumerate(m.events):
        w('template <> constexpr int tid<%s> = %d;' % (e, 100 + i))
    for s in order:
        w('template <> constexpr int tid<%s> = %d;' % (s, sid(m, s)))
    w('using SM = hsm::sm<%s%s>;' % (m.root, ''.join(', D%d' % i for i in range(m.deps))))
    if m.nest:
        w('void nest(int id) { auto m = static_cast<SM*>(wit_nest(id)); if (!m) return; switch (id) {')
        for i, e in m.nest.items():
            w('case %d: { %s e { wit_content() }; wit_nested(m->process_event(e)); break; }' % (i, e))
        w('} }')
    dp = ''.join(', D%d* d%d' % (i, i) for i in range(m.deps))
    da = ', '.join('*d%d' % i for i in range(m.deps))
    w('extern "C" {')
    w('unsigned long root_size() { return sizeof(SM); }')
    w('void root_ctor(void* p%s) { ::new (p) SM(%s); }' % (dp, da))
    w('void root_dtor(SM* m) { m->~SM(); }')
    if m.deps:
        w('void root_setdep(SM* m%s) { m->set_dependency(%s); }' % (dp, da))
    for e in m.events:
        if m.rvalue:
            w('bool root_ev_%s(SM* m, %s* e) { return m->process_event(static_cast<%s&&>(*e)); }' % (e, e, e))
        else:
            w('bool root_ev_%s(SM* m, %s* e) { return m->process_event(*e); }' % (e, e))
    w('int root_state(SM* m, unsigned char r) { int n = 0; int c = -1;')
    for pi, p in enumerate(m.parents):
        for si, s in enumerate(m.real):
            if not m.peekall and (p, s) not in m.table_states():
                continue
            w('  if (m->is(r, state<%s>, state<%s>)) { ++n; c = %d; }' % (p, s, pi * 1000 + si))
    w('  return n == 1 ? c : -1 - n; }')
    for pi, p in enumerate(m.parents):
        for si, s in enumerate(m.real):
            if m.starts and (p, s) in m.table_states() and (p, s) not in m.noset:
                w('void root_set_%d_%d(SM* m, unsigned char r) { m->set(r, state<%s>, state<%s>); }' % (pi, si, p, s))
    w(m.extra)
    w('}')
    t = '\n'.join(o) + '\n'
    if m.valued:
        h, b = t.split('struct AV', 1)
        b = re.sub(r'\b([GA])<(\d+)> \{\}', r'\1V(\2)', b)
        t = h + 'struct AV' + b
    return t


def table_states(self):
    """(parent, state) combinations a region can be in"""
    out = []
    for p in self.parents:
        for c in self.children(p):
            if isinstance(c, tuple):
                if c[0] == 'initial':
                    c = c[1]
                else:
                    continue
            if self.comp(c):
                continue
            if (p, c) not in out:
                out.append((p, c))
    for r in self.flat:
        for x in (self.resolve_src(r), self.resolve_tgt(r)):
            if x not in out and not self.comp(x[1]) and x[1] in self.real:
                out.append(x)
    return out


Machine.table_states = table_states


def cpp_state(m, x):
    if isinstance(x, tuple):
        if x[0] == 'history':
            return 'hsm::history<%s>' % x[1]
        if x[0] == 'initial':
            return '*state<%s>' % x[1]
        return 'hsm::%s<%s>' % (x[0], ', '.join(x[1:]))
    return 'state<%s>' % x


def cpp_ev(r):
    s = 'event<%s>' % r.ev
    if r.g is not None:
        s += '[G<%d> {}]' % r.g
    if r.a is not None:
        s += ' / ' + cpp_act(r.a)
    return s


def cpp_internal(i, dsl):
    if dsl == 'tuple':
        return 'hsm::internal_transition(event<%s>, %s, %s)' % (
            i.ev, 'G<%d> {}' % i.g if i.g is not None else 'hsm::noGuard {}',
            cpp_act(i.a) if i.a is not None else 'hsm::noAction {}')
    return '+(%s)' % cpp_ev(i)


def cpp_row(m, r, dsl):
    src = cpp_state(m, r.src)
    tgt = cpp_state(m, r.tgt)
    if dsl == 'tuple':
        if r.initial:
            src = 'hsm::initial<%s>' % r.src
        return 'hsm::transition(%s, %s, %s, %s, %s)' % (
            src, 'event<%s>' % r.ev if r.ev else 'hsm::none {}', 'G<%d> {}' % r.g if r.g is not None else 'hsm::noGuard {}',
            cpp_act(r.a) if r.a is not None else 'hsm::noAction {}', tgt)
    if r.initial:
        src = '*' + src
    if r.ev is None:
        lhs = src
        if r.g is not None:
            lhs += ' [G<%d> {}]' % r.g
        if r.a is not None:
            lhs += ' / ' + cpp_act(r.a)
    else:
        lhs = src + ' + ' + cpp_ev(r)
    if dsl == 'postfix' and (r.ev is not None or (r.g is None and r.a is None and not isinstance(r.src, tuple) and not r.initial)):
        return '%s <= %s' % (tgt, lhs)
    return '%s = %s' % (lhs, tgt)
