"""Analyses of the parts of hsm which are not a transition relation: queries and set(), the event
queue, the ownership pointer, created states, two machines next to each other, the front end."""
import build
import model
import time
import oracle
import spec
import suites
from engine import *


def finding(machine, ev, node, diffs, detail, where=None, rows=(), tags=()):
    return dict(machine=machine, ev=ev, node=str(node), diffs=set(diffs), tags=list(tags), rows=list(rows), detail=detail,
                where=list(where or [])[:12], quirk=None)


def built(cpp, name, engine, f):
    """compile with the abstract containers, or with the real ones if needed, and apply f(engine)"""
    def g(stubs, support):
        return f(engine(Module(build.witness(cpp, stubs=stubs, support=support, name=name))))
    return build.levels(g, (NeedRealContainers,), (UndefinedFunction,))


def clean(st):
    s = st.fork()
    s.frames = []
    s.ext = ()
    return s


def heap(st, pre=()):
    return [i for i, o in st.mem.items() if o.kind in ('heap', 'elem', 'list') and i not in pre]


# ---- queries and set ---------------------------------------------------------------------------
def api_roots(m):
    w = []
    names = {}
    pk = [(p, s) for p in m.parents for s in m.real]
    for i, s in enumerate(m.real):
        w.append('bool q1_%d(SM* m) { return m->is(state<%s>); }' % (i, s))
        names['q1_%d' % i] = ('is1', s)
    for i, (p, s) in enumerate(pk):
        w.append('bool q2_%d(SM* m) { return m->is(state<%s>, state<%s>); }' % (i, p, s))
        names['q2_%d' % i] = ('is2', p, s)
        w.append('bool q3_%d(SM* m, unsigned char r) { return m->is(r, state<%s>, state<%s>); }' % (i, p, s))
        names['q3_%d' % i] = ('is3', p, s)
    for i, p in enumerate(m.parents):
        w.append('bool q4_%d(SM* m) { return m->parent_is(state<%s>); }' % (i, p))
        names['q4_%d' % i] = ('parent', p)
    for i, (p, s) in enumerate(m.table_states()):
        if p == m.root:
            w.append('void s1_%d(SM* m) { m->set(state<%s>); }' % (i, s))
            names['s1_%d' % i] = ('set1', p, s)
        w.append('void s2_%d(SM* m) { m->set(state<%s>, state<%s>); }' % (i, p, s))
        names['s2_%d' % i] = ('set2', p, s)
        w.append('void s3_%d(SM* m, unsigned char r) { m->set(r, state<%s>, state<%s>); }' % (i, p, s))
        names['s3_%d' % i] = ('set3', p, s)
    return '\n'.join(w), names


class ApiExplorer(model.Explorer):
    """checks every query and every set() in every node"""
    MAXSET = 400

    def __init__(self, w, names):
        super().__init__(w)
        self.names = names
        self.queries = 0
        self.sets = 0

    def node(self, st, o):
        w, m = self.w, self.m
        key = w.canon(st, o)
        cfg = o.cfg[:o.n]
        for root, q in self.names.items():
            k = q[0]
            if k == 'is1':
                calls = [((), cfg[0][1] == q[1])]
            elif k == 'is2':
                calls = [((), cfg[0] == q[1:])]
            elif k == 'is3':
                calls = [((r,), cfg[r] == q[1:]) for r in range(o.n)] + [((m.maxregions,), None), ((255,), None)]
            elif k == 'parent':
                calls = [((), cfg[0][0] == q[1])]
            else:
                self.setter(st, o, root, q, key)
                continue
            for args, want in calls:
                f = clean(st)
                for p in w.eng.call_root(f, root, [(w.sm, 0)] + list(args)):
                    self.queries += 1
                    what = '%s(%s)' % (q[0], ', '.join([str(x) for x in args] + list(q[1:])))
                    if want is None:
                        if p.kind != 'throw':
                            self.add(what, repr(o), {'range'}, [], 'a region the machine does not have is accepted (%s)' % p.kind, p.where)
                    elif p.kind != 'ret':
                        self.add(what, repr(o), {'crash', 'query'}, [], '%s: %s' % (p.kind, p.what), p.where)
                    elif type(p.value) is not int or bool(p.value & 1) != want:
                        self.add(what, repr(o), {'query'}, [], 'answers %r, the machine is in %s' % (
                            p.value, ' '.join(model.fc(c) for c in cfg)), [root])
                    if p.kind in ('ret', 'throw') and (p.state.ext or w.canon(p.state, o) != key):
                        self.add(what, repr(o), {'query-effect'}, [], 'the query changes the machine or runs callbacks', p.where)

    def setter(self, st, o, root, q, key):
        w, m = self.w, self.m
        if q[0] == 'set3':
            # a region is set to a state of the composite the machine is in
            args = [((r,), r) for r in range(o.n) if r == 0 or q[1] == o.cfg[0][0]]
        else:
            args = [((), 0)]
        for a, r in args:
            if self.sets >= self.MAXSET:
                self.cut += 1
                return
            f = clean(st)
            for p in w.eng.call_root(f, root, [(w.sm, 0)] + list(a)):
                self.sets += 1
                o2 = oracle.set_state(m, o, r, q[1], q[2])
                what = 'set(%s)' % ', '.join([str(x) for x in a] + list(q[1 if q[0] != 'set1' else 2:]))
                if p.kind != 'ret':
                    self.add(what, repr(o), {'crash', 'set'}, [], '%s: %s' % (p.kind, p.what), p.where)
                    continue
                if p.state.ext:
                    self.add(what, repr(o), {'set'}, [], 'set() runs callbacks: ' + model.fmt_obs(p.state.ext), p.state.ext[0][-1])
                c = w.cfg(p.state, o2.n)
                if c != o2.cfg[:o2.n]:
                    self.add(what, repr(o), {'set'}, [], 'reported %s, expected %s' % (
                        ' '.join(map(model.fc, c)), ' '.join(map(model.fc, o2.cfg[:o2.n]))))
                    continue
                p.state.ext = ()
                k = (w.canon(p.state, o2), o2.key())
                if k not in self.seen:
                    self.seen.add(k)
                    self.work.append((p.state, o2, False))
        if q[0] == 'set3':
            for r in (m.maxregions, 255):
                f = clean(st)
                for p in w.eng.call_root(f, root, [(w.sm, 0), r]):
                    if p.kind != 'throw':
                        self.add('set(%d, ...)' % r, repr(o), {'range'}, [], 'a region the machine does not have is accepted (%s)' % p.kind, p.where)
                    elif w.canon(p.state, o) != key:
                        self.add('set(%d, ...)' % r, repr(o), {'range'}, [], 'the failing set() changes the machine', p.where)


def api(name):
    m = suites.get(name)
    x, names = api_roots(m)
    m.extra += x

    def f(w):
        x = ApiExplorer(w, names)
        x.run()
        return {'findings': x.findings, 'x': x, 'w': w}
    return m, f


# ---- two machines --------------------------------------------------------------------------------
def pair(name):
    """the product of two machines of one type with different dependencies: events of one machine
    neither change nor observe the other one"""
    m = suites.get(name)

    def f(w):
        e = w.eng
        out = []
        st = w.pre.fork()
        other = w.sm2
        if w.base is None:
            return {'findings': [finding(m.name, 'construction', '-', {'crash'}, w.ctor_fail)], 'stats': {}}
        ps = e.call_root(st, 'root_ctor', [(w.sm, 0)] + w.deps[0])
        st = ps[0].state
        ps = e.call_root(clean(st), 'root_ctor', [(other, 0)] + w.deps[1])
        if len(ps) != 1 or ps[0].kind != 'ret' or ps[0].state.ext:
            return {'findings': [finding(m.name, 'construction of a second machine', '-', {'crash', 'isolation'},
                                         '%s %s' % (ps[0].kind, ps[0].what), ps[0].where)], 'stats': {}}
        st = ps[0].state
        for g in w.module.globals:
            e.global_obj(st, g)
        st.own = set()
        w.base = st
        sms = (w.sm, other)
        o = oracle.initial(m)
        xs = [model.Explorer(w), model.Explorer(w)]
        seen = {(w.canon(st, o), o.key(), o.key())}
        work = [(st, o, o)]
        n = paths = 0

        def cfg_of(s, i, k):
            w.sm = sms[i]
            w.cfgs = caches[i]
            try:
                return w.cfg(s, k)
            finally:
                w.sm = sms[0]
        caches = ({}, {})
        end = model.Explorer.deadline_all
        while work and n < 400 and len(out) < 20 and not (end and time.time() > end):
            st, a, b = work.pop(0)
            n += 1
            for i in (0, 1):
                me, you = (a, b) if i == 0 else (b, a)
                # both queues hold distinct tokens
                toks = {t for _, t in me.queue} | {t for _, t in you.queue}
                tok = next('T%d' % k for k in range(99) if 'T%d' % k not in toks)
                x = xs[i]
                depn = tuple('D%d#%d' % (k, i) for k in range(m.deps))
                for ev in m.events:
                    w.sm = sms[i]
                    w.cfgs = caches[i]
                    ps, eo = w.fire(st, ev, tok)
                    w.sm = sms[0]
                    for p in ps:
                        paths += 1
                        if p.kind == 'limit':
                            continue
                        obs = [(t[1], t[2]) for t in p.state.ext if t[0] == 'g']
                        good = None
                        for r in oracle.runs(m, me, ev, tok, obs):
                            w.sm = sms[i]
                            w.cfgs = caches[i]
                            d, ocfg, detail = x.compare(p, r, eo, tok, depn)
                            w.sm = sms[0]
                            if d:
                                out.append(finding(m.name, '%s on machine %d of 2' % (ev, i + 1), '%r | %r' % (me, you),
                                                   d | {'isolation'}, 'path: %s -> %s; required: %s %s' % (
                                                       model.fmt_obs(p.state.ext), p.kind, model.fmt_exp(r.trace), detail),
                                                   p.where or (p.state.ext and p.state.ext[-1][-1])))
                            else:
                                good = r
                        if good is None or p.kind != 'ret':
                            continue
                        if cfg_of(p.state, 1 - i, you.n) != you.cfg[:you.n]:
                            out.append(finding(m.name, '%s on machine %d of 2' % (ev, i + 1), '%r | %r' % (me, you), {'isolation'},
                                               'the other machine changes its state', p.where))
                            continue
                        o2 = good.o
                        if len(o2.queue) > 1:
                            continue
                        na, nb = (o2, b) if i == 0 else (a, o2)
                        p.state.ext = ()
                        both = oracle.OState(na.cfg, na.n, na.hist, na.queue + nb.queue)
                        k = (w.canon(p.state, both), na.key(), nb.key())
                        if k not in seen:
                            seen.add(k)
                            work.append((p.state, na, nb))
        # the state objects handed to callbacks belong to one machine
        base = [{v if type(v) is int else v[0]: k for k, v in x.objs.items()} for x in xs]
        for obj in set(base[0]) & set(base[1]):
            out.append(finding(m.name, 'callbacks of two machines', '-', {'isolation'},
                               'both machines pass the same object for state %s' % base[0][obj]))
        # destroying one machine leaves the other one intact
        shared = 0
        for i in (0, 1):
            w.sm = sms[0]
            for q in e.call_root(clean(w.base), 'root_dtor', [(sms[i], 0)]):
                if q.kind != 'ret':
                    out.append(finding(m.name, 'destruction of one of two machines', '-', {'crash', 'isolation'}, q.what or q.kind, q.where))
                    continue
                for ev in m.events:
                    w.sm = sms[1 - i]
                    ps, eo = w.fire(q.state, ev, 'T0')
                    w.sm = sms[0]
                    for p in ps:
                        shared += 1
                        if p.kind not in ('ret', 'limit'):
                            out.append(finding(m.name, '%s after the other machine is destroyed' % ev, '-', {'isolation', 'crash'},
                                               '%s: %s' % (p.kind, p.what), p.where))
        return {'findings': out, 'stats': dict(states=n, paths=paths + shared, functions=len(w.module.fns),
                                               instructions=w.module.ninstr, complete=not work,
                                               globals_written=len(e.globalstores)),
                'globals': sorted(e.globalstores)}
    return m, f


# ---- event queue ---------------------------------------------------------------------------------
VQ = '''
#include "hsm/details/variant_queue.h"
#include "hsm/details/event.h"
#include <boost/hana.hpp>
#include <new>
struct e1 { long x; }; struct e2 { long x; }; struct e3 { long x; long y; };
extern "C" { void wit_visit(int, const void*); }
template <class T> constexpr int tid = 0;
template <> constexpr int tid<e1> = 1; template <> constexpr int tid<e2> = 2; template <> constexpr int tid<e3> = 3;
constexpr auto evs = boost::hana::make_basic_tuple(boost::hana::type_c<e1>, boost::hana::type_c<e2>, boost::hana::type_c<e3>);
using Q = hsm::variant_queue<std::decay_t<decltype(evs)>>;
extern "C" {
unsigned long root_size() { return sizeof(Q); }
void root_ctor(void* p) { ::new (p) Q(evs); }
void root_dtor(Q* q) { q->~Q(); }
bool q_empty(Q* q) { return q->empty(); }
unsigned long q_size(Q* q) { return q->size(); }
void push_l1(Q* q, e1* e) { q->push(*e); }
void push_c1(Q* q, const e1* e) { q->push(*e); }
void push_r1(Q* q, e1* e) { q->push(static_cast<e1&&>(*e)); }
void push_l2(Q* q, e2* e) { q->push(*e); }
void push_l3(Q* q, e3* e) { q->push(*e); }
void push_r3(Q* q, e3* e) { q->push(static_cast<e3&&>(*e)); }
void q_visit(Q* q) { q->visit([](auto& e) { wit_visit(tid<std::decay_t<decltype(e)>>, (const void*)&e); }); }
void q_visit_value(Q* q) { q->visit([](auto e) { wit_visit(tid<std::decay_t<decltype(e)>>, (const void*)&e); }); }
void q_visit_push(Q* q) { q->visit([q](auto e) { wit_visit(tid<std::decay_t<decltype(e)>>, (const void*)&e); q->push(e); }); }
}
'''


class VQEngine(Engine):
    def __init__(self, m):
        super().__init__(m)
        self.ext['wit_visit'] = self.visit

    def visit(self, e, st, a):
        try:
            v = self.load(st, a[1], 8)
            v2 = self.load(st, (a[1][0], a[1][1] + 8), 8) if a[0] == 3 else None
        except Stop as s:
            v, v2 = s.what, None
        st.ext = st.ext + ((a[0], v, v2, self.where(st)),)


def vqueue(bound):
    def f(e):
        out = []
        st = State()
        st.ext = ()
        size = e.call_root(st, 'root_size', [])[0].value
        q = e.new_obj(st, size, 'heap', 'queue')
        pre = set(st.mem)
        ps = e.call_root(st, 'root_ctor', [(q, 0)])

        def bad(op, node, what, where=None, crash=False):
            out.append(finding('variant_queue', op, [x[0] for x in node], {'queue'} | ({'crash'} if crash else set()), what, where))
        if len(ps) != 1 or ps[0].kind != 'ret':
            bad('construction', (), '%s %s' % (ps[0].kind, ps[0].what), ps[0].where, True)
            return {'findings': out, 'stats': {}}
        st = ps[0].state
        for g in e.m.globals:
            e.global_obj(st, g)
        st.own = set()
        work = [(st, ())]
        seen = {()}
        n = paths = 0
        ops = {'push_l1': 1, 'push_c1': 1, 'push_r1': 1, 'push_l2': 2, 'push_l3': 3, 'push_r3': 3}
        while work and len(out) < 20:
            st, model_q = work.pop(0)
            n += 1
            for r in e.call_root(clean(st), 'q_empty', [(q, 0)]):
                paths += 1
                if r.kind != 'ret' or type(r.value) is not int or bool(r.value & 1) != (not model_q):
                    bad('empty', model_q, 'answers %r with %d events queued' % (r.value if r.kind == 'ret' else r.what, len(model_q)), r.where)
            for r in e.call_root(clean(st), 'q_size', [(q, 0)]):
                paths += 1
                if r.kind != 'ret' or r.value != len(model_q):
                    bad('size', model_q, 'answers %r with %d events queued' % (r.value if r.kind == 'ret' else r.what, len(model_q)), r.where)
            used = {x[1] for x in model_q}
            tok = next(i for i in range(999) if i not in used)
            for op, ty in ops.items():
                s = clean(st)
                eo = e.new_obj(s, 16 if ty == 3 else 8, 'heap', 'event')
                s.mem[eo].cells[0] = (8, atom('V%d' % tok))
                if ty == 3:
                    s.mem[eo].cells[8] = (8, atom('Y%d' % tok))
                before = dict(s.mem[eo].cells)
                for r in e.call_root(s, op, [(q, 0), (eo, 0)]):
                    paths += 1
                    if r.kind != 'ret' or r.state.ext:
                        bad(op, model_q, '%s %s' % (r.kind, r.what), r.where, True)
                        continue
                    if op != 'push_r1' and op != 'push_r3' and r.state.mem[eo].cells != before:
                        bad(op, model_q, 'the pushed event is changed')
                    r.state.mem.pop(eo)
                    nq = model_q + ((ty, tok),)
                    key = tuple(x[0] for x in nq)
                    if len(nq) <= bound and key not in seen:
                        seen.add(key)
                        work.append((r.state, nq))
                    elif len(nq) > bound and len(nq) <= bound + 1:
                        # the longest queue is still read back completely
                        drain(e, q, r.state, nq, bad)
            for op in ('q_visit', 'q_visit_value', 'q_visit_push'):
                for r in e.call_root(clean(st), op, [(q, 0)]):
                    paths += 1
                    if not model_q:
                        if r.kind != 'throw':
                            bad(op, model_q, 'visiting an empty queue does not raise an error (%s)' % r.kind, r.where)
                        elif r.state.ext:
                            bad(op, model_q, 'visiting an empty queue calls the callable', r.where)
                        continue
                    if r.kind != 'ret':
                        bad(op, model_q, '%s: %s' % (r.kind, r.what), r.where, True)
                        continue
                    exp = want(model_q[0])
                    got = [x[:3] for x in r.state.ext]
                    if got != [exp]:
                        bad(op, model_q, 'the callable is called with %r, the oldest event is %r' % (got, exp),
                            r.state.ext[0][-1] if r.state.ext else None)
                        continue
                    nq = model_q[1:] + (model_q[:1] if op == 'q_visit_push' else ())
                    drain(e, q, r.state, nq, bad)
            for r in e.call_root(clean(st), 'root_dtor', [(q, 0)]):
                paths += 1
                if r.kind != 'ret':
                    bad('destruction', model_q, '%s: %s' % (r.kind, r.what), r.where, True)
                elif heap(r.state, pre):
                    bad('destruction', model_q, '%d heap objects are never freed' % len(heap(r.state, pre)))
        return {'findings': out, 'stats': dict(states=n, paths=paths, functions=len(e.m.fns), instructions=e.m.ninstr,
                                               complete=True)}
    return f


def want(x):
    return (x[0], atom('V%d' % x[1]), atom('Y%d' % x[1]) if x[0] == 3 else None)


def drain(e, q, st, model_q, bad):
    """the queue delivers exactly model_q"""
    work = [(st, model_q)]
    while work:
        s, mq = work.pop()
        for r in e.call_root(clean(s), 'q_visit', [(q, 0)]):
            if not mq:
                if r.kind != 'throw':
                    bad('visit', model_q, 'more events are delivered than were pushed', r.where)
                continue
            if r.kind != 'ret' or [x[:3] for x in r.state.ext] != [want(mq[0])]:
                bad('visit', model_q, 'delivered %r, expected %r' % ([x[:2] for x in r.state.ext] or r.what, mq[0]), r.where)
                continue
            work.append((r.state, mq[1:]))


# ---- ownership pointer -----------------------------------------------------------------------------
DP = '''
#include "hsm/details/utils/dunique_ptr.h"
#include <utility>
#include <new>
extern "C" { void wit_destroy(const void*); }
struct T { long id; virtual ~T() { wit_destroy(this); } };
using P = hsm::details::utils::dunique_ptr<T>;
extern "C" {
T* mk() { return new T{}; }
void d_init(P* p) { ::new (p) P(); }
void d_raw(P* p, T* t) { ::new (p) P(t); }
void d_move(P* p, P* o) { ::new (p) P(std::move(*o)); }
void d_assign(P* p, P* o) { *p = std::move(*o); }
void d_swap(P* p, P* o) { p->swap(*o); }
void d_fswap(P* p, P* o) { swap(*p, *o); }
void d_reset(P* p) { p->reset(); }
void d_resetto(P* p, T* t) { p->reset(t); }
T* d_release(P* p) { return p->release(); }
void d_dtor(P* p) { p->~P(); }
T* d_get(const P* p) { return p->get(); }
T* d_arrow(const P* p) { return p->operator->(); }
T* d_star(const P* p) { return &**p; }
bool d_bool(const P* p) { return bool(*p); }
bool d_eq(const P* p, const P* o) { return *p == *o; }
bool d_ne(const P* p, const P* o) { return *p != *o; }
}
static_assert(!std::is_copy_constructible_v<P> && !std::is_copy_assignable_v<P>, "owners cannot be copied");
'''


class DPEngine(Engine):
    def __init__(self, m):
        super().__init__(m)
        self.ext['wit_destroy'] = self.destroy

    def destroy(self, e, st, a):
        st.ext = st.ext + (a[0][0] if type(a[0]) is tuple else a[0],)


def dunique():
    def f(e):
        out = []
        st = State()
        st.ext = ()
        A = e.new_obj(st, 8, 'heap', 'A')
        B = e.new_obj(st, 8, 'heap', 'B')
        C = e.new_obj(st, 8, 'heap', 'C')

        def one(s, root, args):
            ps = e.call_root(clean(s), root, args)
            return ps

        def bad(op, node, what, where=None, crash=False):
            out.append(finding('dunique_ptr', op, node, {'owner'} | ({'crash'} if crash else set()), what, where))
        for slot in (A, B):
            for r in one(st, 'd_init', [(slot, 0)]):
                st = r.state
        seen = set()
        # abstract node: (object of A, object of B) as None / index; objects alive
        work = [(st, None, None)]
        n = paths = 0

        def new(s):
            r = one(s, 'mk', [])[0]
            return r.state, r.value

        def get(s, slot):
            r = one(s, 'd_get', [(slot, 0)])
            return r[0].value if r[0].kind == 'ret' and r[0].value != 0 else None

        while work and len(out) < 20:
            st, a, b = work.pop(0)
            n += 1
            node = 'A=%s B=%s' % (a and a[0], b and b[0])
            if (get(st, A), get(st, B)) != (a, b):
                bad('get', node, 'holds %r %r' % (get(st, A), get(st, B)))
                continue
            for slot, v in ((A, a), (B, b)):
                for root, w in (('d_bool', int(v is not None)), ('d_arrow', v)) + ((('d_star', v),) if v else ()):
                    for r in one(st, root, [(slot, 0)]):
                        paths += 1
                        val = r.value if r.kind == 'ret' else r.what
                        if root == 'd_bool' and type(val) is int:
                            val &= 1
                        if val != (w if w is not None else 0):
                            bad(root, node, 'answers %r' % (val,), r.where)
            for root, w in (('d_eq', a == b), ('d_ne', a != b)):
                for r in one(st, root, [(A, 0), (B, 0)]):
                    paths += 1
                    if r.kind != 'ret' or type(r.value) is not int or bool(r.value & 1) != w:
                        bad(root, node, 'answers %r' % (r.value,), r.where)
            ops = []
            for x, y, vx, vy, nx in ((A, B, a, b, 'A'), (B, A, b, a, 'B')):
                ops += [(nx, 'd_assign', [(x, 0), (y, 0)], vx, vy), (nx, 'd_swap', [(x, 0), (y, 0)], vx, vy),
                        (nx, 'd_fswap', [(x, 0), (y, 0)], vx, vy), (nx, 'd_assign', [(x, 0), (x, 0)], vx, vx),
                        (nx, 'd_reset', [(x, 0)], vx, vy), (nx, 'd_release', [(x, 0)], vx, vy),
                        (nx, 'd_resetto', None, vx, vy), (nx, 'd_raw', None, vx, vy), (nx, 'd_move', None, vx, vy)]
            for nx, op, args, vx, vy in ops:
                x, y = (A, B) if nx == 'A' else (B, A)
                s = st
                fresh = None
                if op in ('d_resetto', 'd_raw'):
                    s, fresh = new(s)
                    args = [(x, 0), fresh]
                if op == 'd_raw':
                    # a fresh owner in place of an empty one
                    if vx is not None:
                        continue
                if op == 'd_move':
                    args = [(C, 0), (x, 0)]
                for r in one(s, op, args):
                    paths += 1
                    if r.kind != 'ret':
                        bad(op, node, '%s: %s' % (r.kind, r.what), r.where, True)
                        continue
                    s2 = r.state
                    gone = list(s2.ext)
                    ga, gb = get(s2, x), get(s2, y)
                    same = op == 'd_assign' and args[0] == args[1]
                    if op == 'd_move':
                        gc = get(s2, C)
                        if gc != vx or ga is not None or gone:
                            bad(op, node, 'the moved-to owner holds %r, the moved-from owner %r (was %r)' % (gc, ga, vx))
                        # give it back
                        for q in one(s2, 'd_assign', [(x, 0), (C, 0)]):
                            for q2 in one(q.state, 'd_dtor', [(C, 0)]):
                                s2 = q2.state
                        ga = get(s2, x)
                        exp = (vx, vy)
                    elif op in ('d_swap', 'd_fswap'):
                        exp = (vy, vx)
                    elif same:
                        exp = (vx, vy if y == x else get(st, y))
                    elif op == 'd_assign':
                        # takes the object over; the old one is destroyed or handed to the other owner
                        exp = (vy, gb)
                        if gb is not None and gb != vx or (gb is None and vx is not None and gone != [vx[0]]) or (gb is not None and gone):
                            bad(op, node, 'afterwards the other owner holds %r, destroyed: %r' % (gb, gone))
                    elif op == 'd_reset':
                        exp = (None, vy)
                        if gone != ([vx[0]] if vx else []):
                            bad(op, node, 'destroyed objects: %r, owned: %r' % (gone, vx))
                    elif op in ('d_resetto', 'd_raw'):
                        exp = (fresh, vy)
                        if gone != ([vx[0]] if vx else []):
                            bad(op, node, 'destroyed objects: %r, owned: %r' % (gone, vx))
                    elif op == 'd_release':
                        exp = (None, vy)
                        if gone or (r.value if r.value != 0 else None) != vx:
                            bad(op, node, 'returns %r and destroys %r, owned: %r' % (r.value, gone, vx))
                        if vx:
                            s2 = s2.fork()
                            s2.mem.pop(vx[0], None)
                    ga, gb = get(s2, x), get(s2, y)
                    if (ga, gb) != exp:
                        bad(op, node, 'afterwards the owners hold %r %r, expected %r' % (ga, gb, exp))
                        continue
                    na, nb = (ga, gb) if nx == 'A' else (gb, ga)
                    live = heap(s2, {A, B, C})
                    if sorted(live) != sorted(v[0] for v in (na, nb) if v):
                        bad(op, node, 'objects alive: %r, owned: %r %r' % (live, na, nb))
                        continue
                    key = (na is None, nb is None)
                    if key not in seen:
                        seen.add(key)
                        work.append((s2, na, nb))
            # end of life
            s = st
            gone = []
            for x in (A, B):
                for r in one(s, 'd_dtor', [(x, 0)]):
                    paths += 1
                    if r.kind != 'ret':
                        bad('destruction', node, '%s: %s' % (r.kind, r.what), r.where, True)
                    gone += list(r.state.ext)
                    s = r.state
            if sorted(gone) != sorted(v[0] for v in (a, b) if v) or heap(s, {A, B, C}):
                bad('destruction', node, 'destroyed %r, owned %r %r, left %r' % (gone, a, b, heap(s, {A, B, C})))
        return {'findings': out, 'stats': dict(states=n, paths=paths, functions=len(e.m.fns), instructions=e.m.ninstr, complete=True)}
    return f


# ---- created states ----------------------------------------------------------------------------------
CUSTOM = '''
#include "hsm/hsm.h"
#include <new>
#include <memory>
using hsm::state; using hsm::event;
extern "C" { void wit_factory(int, const void*, int); void wit_action(int, int, int, const void*, int, const void*); bool wit_guard(int);
 void wit_made(const void*); void wit_gone(const void*); }
struct e1 { long x; }; struct e2 { long x; }; struct e3 { long x; }; struct e4 { long x; }; struct e5 { long x; };
struct S1 { int id = 11; }; 
// only the created object reports its end of life, copies passed to callbacks do not
struct S2 { int id = 12; int made; explicit S2(int k) : made(k) { wit_made(this); } ~S2() { if (made) wit_gone(this); } S2(const S2& o) : id(o.id), made(0) {} };
struct S3 { int id = 13; };
template <class T> constexpr int tid = 0;
template <> constexpr int tid<e1> = 1; template <> constexpr int tid<e2> = 2; template <> constexpr int tid<e3> = 3; template <> constexpr int tid<e4> = 4; template <> constexpr int tid<e5> = 5;
template <class T> constexpr int tidof = tid<std::remove_cv_t<std::remove_reference_t<T>>>;
template <int I> struct F { template <class E, class S> std::unique_ptr<S2> operator()(const E& e, const S& s) const { wit_factory(I, &e, s.id); return std::unique_ptr<S2>(new S2(I)); } };
template <int I> struct A { template <class E, class S, class T> void operator()(E&& e, S&& s, T&& t) const { wit_action(I, tidof<E>, s.id, &s, t.id, &t); } };
template <int I> struct G { template <class E, class S, class T> bool operator()(E&&, S&&, T&&) const { return wit_guard(I); } };
struct M { static constexpr auto make_transition_table() { return hsm::transition_table(
  * state<S1> + event<e1> / hsm::create_state(F<1> {}) = state<S2>,
    state<S1> + event<e4> / hsm::create_state(F<2> {}) = state<S2>,
    state<S1> + event<e3> = state<S2>,
    state<S1> + event<e2> / hsm::reuse_state(A<5> {}) = state<S2>,
    state<S2> + event<e2> / A<6> {} = state<S1>,
    state<S2> + event<e4> / A<7> {} = state<S3>,
    state<S2> + event<e5> / hsm::create_state(F<3> {}) = state<S2>,
    state<S3> + event<e1> / hsm::reuse_state(A<8> {}) = state<S2>,
    state<S3> + event<e4> / A<9> {} = state<S1> ); } };
using SM = hsm::sm<M>;
extern "C" {
unsigned long root_size() { return sizeof(SM); }
void root_ctor(void* p) { ::new (p) SM(); }
void root_dtor(SM* m) { m->~SM(); }
bool root_e1(SM* m, e1* e) { return m->process_event(*e); }
bool root_e2(SM* m, e2* e) { return m->process_event(*e); }
bool root_e3(SM* m, e3* e) { return m->process_event(*e); }
bool root_e4(SM* m, e4* e) { return m->process_event(*e); }
bool root_e5(SM* m, e5* e) { return m->process_event(*e); }
int root_state(SM* m) { return (m->is(state<S1>) ? 1 : 0) + (m->is(state<S2>) ? 2 : 0) + (m->is(state<S3>) ? 4 : 0); }
}
'''
CROWS = {  # (state, event) -> (target, factory or None, action or None)
    (1, 1): (2, 1, None), (1, 4): (2, 2, None), (1, 3): (2, None, None), (1, 2): (2, None, 5),
    (2, 2): (1, None, 6), (2, 4): (3, None, 7), (2, 5): (2, 3, None), (3, 1): (2, None, 8), (3, 4): (1, None, 9)}


class CEngine(Engine):
    def __init__(self, m):
        super().__init__(m)
        for k in ('wit_factory', 'wit_action', 'wit_made', 'wit_gone', 'wit_guard'):
            self.ext[k] = getattr(self, k)

    def wit_factory(self, e, st, a):
        st.ext = st.ext + (('factory', a[0], self.load(st, a[1], 8), a[2]),)

    def wit_action(self, e, st, a):
        st.ext = st.ext + (('action', a[0], a[1], a[2], a[4], a[5][0] if type(a[5]) is tuple else a[5], a[3][0] if type(a[3]) is tuple else a[3]),)

    def wit_made(self, e, st, a):
        st.ext = st.ext + (('made', a[0][0]),)

    def wit_gone(self, e, st, a):
        st.ext = st.ext + (('gone', a[0][0]),)

    def wit_guard(self, e, st, a):
        raise Forks([(0, lambda s: None), (1, lambda s: None)])


def custom():
    def f(e):
        out = []
        st = State()
        st.ext = ()
        size = e.call_root(st, 'root_size', [])[0].value
        sm = e.new_obj(st, size, 'heap', 'machine')
        pre = set(st.mem)
        ps = e.call_root(st, 'root_ctor', [(sm, 0)])

        def bad(op, node, what, where=None, crash=False):
            out.append(finding('custom', op, node, {'custom'} | ({'crash'} if crash else set()), what, where))
        if len(ps) != 1 or ps[0].kind != 'ret' or ps[0].state.ext:
            bad('construction', '-', '%s %s' % (ps[0].kind, ps[0].what or ps[0].state.ext), ps[0].where, True)
            return {'findings': out, 'stats': {}}
        st = ps[0].state
        for g in e.m.globals:
            e.global_obj(st, g)
        st.own = set()
        work = [(st, 1, None, None)]
        seen = {(1, None)}
        n = paths = 0
        sobj = {}
        while work and len(out) < 20:
            st, cur, made, obj = work.pop(0)
            n += 1
            node = 'state S%d, created by factory %s' % (cur, made)
            for ev in range(1, 6):
                row = CROWS.get((cur, ev))
                if row and row[0] == 2 and row[1] is None and made is None:
                    continue  # a state that was never created must not be reused
                s = clean(st)
                eo = e.new_obj(s, 8, 'heap', 'event')
                s.mem[eo].cells[0] = (8, atom('V'))
                for r in e.call_root(s, 'root_e%d' % ev, [(sm, 0), (eo, 0)]):
                    paths += 1
                    if r.kind != 'ret':
                        bad('e%d' % ev, node, '%s: %s' % (r.kind, r.what), r.where, True)
                        continue
                    r.state.mem.pop(eo)
                    t = r.state.ext
                    nm, no = made, obj
                    exp = []
                    if row and row[1]:
                        mk = [x for x in t if x[0] == 'made']
                        no = mk[0][1] if mk else None
                        exp = [('factory', row[1], atom('V'), 10 + cur), ('made', no)] + ([('gone', obj)] if obj is not None else [])
                        nm = row[1]
                        got = [x for x in t]
                    else:
                        got = [x[:6] for x in t]
                        if row and row[2]:
                            tgt = no if row[0] == 2 else None
                            exp = [('action', row[2], ev, 10 + cur, 10 + row[0], got[0][5] if tgt is None and got and len(got[0]) > 5 else tgt)]
                    if got != exp:
                        bad('e%d' % ev, node, 'callbacks %r, expected %r' % (got, exp))
                        continue
                    for x in t:
                        if x[0] == 'action' and x[1] not in (5, 8):  # reuse_state passes a copy of the source state
                            for sid_, ob in ((x[3], x[6]), (x[4], x[5])):
                                if sid_ != 12 and sobj.setdefault(sid_, ob) != ob:
                                    bad('e%d' % ev, node, 'a second object of state S%d is used' % (sid_ - 10))
                            if x[3] == 12 and x[6] != obj:
                                bad('e%d' % ev, node, 'the action gets another source object than the created one')
                    if bool(r.value & 1) != (row is not None):
                        bad('e%d' % ev, node, 'process_event returns %r' % (r.value,))
                    nc = row[0] if row else cur
                    for k in e.call_root(clean(r.state), 'root_state', [(sm, 0)]):
                        if k.kind != 'ret' or k.value != 1 << (nc - 1):
                            bad('e%d' % ev, node, 'reported state mask %r, expected S%d' % (k.value, nc))
                    if (nc, nm) not in seen:
                        seen.add((nc, nm))
                        work.append((r.state, nc, nm, no))
            for r in e.call_root(clean(st), 'root_dtor', [(sm, 0)]):
                paths += 1
                if r.kind != 'ret':
                    bad('destruction', node, '%s: %s' % (r.kind, r.what), r.where, True)
                elif list(r.state.ext) != ([('gone', obj)] if obj is not None else []) or heap(r.state, pre):
                    bad('destruction', node, 'callbacks %r, %d heap objects left' % (r.state.ext, len(heap(r.state, pre))))
        return {'findings': out, 'stats': dict(states=n, paths=paths, functions=len(e.m.fns), instructions=e.m.ninstr, complete=True)}
    return f


# ---- moved machines --------------------------------------------------------------------------------
class MoveExplorer(model.Explorer):
    """phase 1: move the machine in every node; phase 2: explore on with the moved machine"""
    starts = None
    prefix = ''

    def node(self, st, o):
        if self.starts is not None:
            return super().node(st, o)
        w = self.w
        for how in ('move', 'assign'):
            f = clean(st)
            if how == 'assign':
                ps = w.eng.call_root(f, 'root_ctor', [(w.sm2, 0)] + w.deps[1])
                if len(ps) != 1 or ps[0].kind != 'ret':
                    self.add('second machine', repr(o), {'crash'}, [], ps[0].what or '', ps[0].where)
                    continue
                f = clean(ps[0].state)
            for p in w.eng.call_root(f, 'root_' + how, [(w.sm, 0), (w.sm2, 0)]):
                self.moves += 1
                if p.kind != 'ret' or p.state.ext:
                    self.add(how, repr(o), {'crash', 'move'}, [], '%s %s' % (p.kind, p.what or p.state.ext), p.where)
                    continue
                for q in w.eng.call_root(clean(p.state), 'root_dtor', [(w.sm, 0)]):
                    if q.kind != 'ret':
                        self.add('destruction of the moved machine', repr(o), {'crash', 'move'}, [], '%s %s' % (q.kind, q.what), q.where)
                        continue
                    s = clean(q.state)
                    s.mem.pop(w.sm)
                    self.moved.append(('%s in %r' % (how, o), s, o, None))

    def start_nodes(self):
        return self.starts if self.starts is not None else super().start_nodes()


def moved(name):
    m = suites.get(name)
    m.extra += '''
void root_move(SM* a, void* b) { ::new (b) SM(static_cast<SM&&>(*a)); }
void root_assign(SM* a, SM* b) { *b = static_cast<SM&&>(*a); }
'''

    def f(w):
        out = []
        a = MoveExplorer(w)
        a.moves = 0
        a.moved = []
        a.run(setdep=m.deps > 0)
        b = MoveExplorer(w, dtor=True)
        b.starts = a.moved
        sm = w.sm
        w.sm = w.sm2
        w.cfgs = {}
        try:
            if w.base is not None:
                b.run(setdep=m.deps > 0)
        finally:
            w.sm = sm
        for x in a.findings + b.findings:
            x.diffs = set(x.diffs) | {'move'} if x in b.findings else x.diffs
        return {'findings': a.findings + b.findings,
                'stats': dict(states=a.nodes + b.nodes, paths=a.paths + b.paths, moves=a.moves, functions=len(w.module.fns),
                              instructions=w.module.ninstr, complete=not a.incomplete and not b.incomplete)}
    return m, f


# ---- front end ---------------------------------------------------------------------------------------
def frontend(kind, lo=None, hi=None):
    from concurrent.futures import ThreadPoolExecutor
    import wellformed as wf
    todo = []
    if kind == 'pairs':
        for n, bad, good in wf.PAIRS[lo:hi]:
            todo += [(n, bad, False, '-std=c++20'), (n, good, True, '-std=c++20')]
    elif kind == 'pairs17':
        for n, bad, good in wf.PAIRS[lo:hi]:
            todo += [(n, bad, False, '-std=c++17'), (n, good, True, '-std=c++17')]
    else:
        for n, t, b in wf.OK[lo:hi]:
            todo += [(n, (t, b), True, s) for s in ('-std=c++17', '-std=c++20')]
    out = []

    def one(x):
        n, tb, want, std = x
        return x + build.syntax(wf.text(*tb), std=std)
    for n, tb, want, std, ok, diag in map(one, todo):
        if ok == want:
            continue
        errs = [l for l in diag.split('\n') if 'error:' in l]
        where = [l.split(': error')[0] for l in errs[:2]]
        if want:
            out.append(finding('front end', n, std, {'frontend', 'reject'}, 'a well-formed program is rejected: ' + ' | '.join(e[:200] for e in errs[:2])
                               + '\n  program: ' + ' '.join(tb), where))
        else:
            out.append(finding('front end', n, std, {'frontend', 'accept'}, 'an ill-formed program is accepted:\n  program: ' + ' '.join(tb), where))
    return {'findings': out, 'stats': dict(programs=len(todo), rejected=sum(1 for t in todo if not t[2]),
                                           accepted=sum(1 for t in todo if t[2]), complete=True)}
