"""The decision procedure of every property: which analyses run on which witnesses and which
observations count as a violation."""
import json
import os
import time
import traceback

import build
import engine
import gen
import model
import special
import spec
import suites
import wellformed

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, 'known-findings.json')

CRASH = {'crash', 'ctor', 'compile', 'leak'}
ALLK = {'guards', 'effects', 'effect-order', 'handler', 'interleave', 'ret', 'cfg', 'initial', 'set', 'setdep', 'atcfg',
        'args-event', 'args-event-ref', 'args-source', 'args-target', 'args-instance', 'args-dep', 'state-write',
        'event-write', 'after-setdep'}
ARGS = {k for k in ALLK if k.startswith('args-')}


def known_findings():
    with open(KNOWN) as f:
        return json.load(f)['findings']


def match_known(known, prop, f):
    """None: not listed; {}: listed for another property; entry: listed for this property"""
    for k in known:
        m = k['match']
        if m.get('quirk', None) != f.get('quirk') or f['machine'] not in m['machines']:
            continue
        if 'paths' in m and not any(f['detail'].startswith(x) for x in m['paths']):
            continue
        return k if k['property'] == prop else {}
    return None


def describe(f):
    o = ['violated rule: %s' % ', '.join(sorted(f['diffs']))]
    o.append('  witness %s, %s in abstract state %s' % (f['machine'], f['ev'], f['node']))
    o.append('  ' + f['detail'])
    if f.get('rows'):
        o.append('  transition rows involved: ' + '; '.join(f['rows']))
    w = [x for x in (f.get('where') or []) if '/repo/' in x or build.REPO in x] or (f.get('where') or [])
    if w:
        o.append('  at ' + ' < '.join(w[:6]))
    return '\n'.join(o)


# ---- jobs ------------------------------------------------------------------------------------
JOBS = {}


def job(f):
    JOBS[f.__name__] = f
    return f


def run_job(j):
    t = time.time()
    end = float(os.environ.get('HSMV_DEADLINE') or 0)
    model.Explorer.deadline_all = end
    try:
        if end and t > end:
            raise build.AnalysisError('out of time')
        r = JOBS[j[0]](*j[1:])
    except build.CompileError as e:
        r = {'findings': [dict(machine=e.what, ev='(compilation)', node='-', diffs={'compile'}, tags=[], rows=[],
                               detail='a well-formed program is rejected:\n' + first_error(e.text), where=[], quirk=None)]}
    except (engine.Unsupported, build.AnalysisError) as e:
        r = {'error': '%s: %s' % (type(e).__name__, e)}
    except BaseException:
        r = {'error': traceback.format_exc()[-1500:]}
    r['wall'] = round(time.time() - t, 2)
    return r


def first_error(t):
    ls = [l for l in t.split('\n') if 'error:' in l]
    return '\n'.join(l[:300] for l in ls[:3]) or t[:600]


def with_fallback(m, f, **kw):
    """build a witness with the abstract containers, or with the real standard library if the code
    uses something the abstract containers do not offer, and apply f"""
    return build.levels(lambda stubs, support: f(model.Witness(m, stubs=stubs, support=support, **kw)),
                        (engine.NeedRealContainers,), (engine.UndefinedFunction,))


def conv(f, node=None):
    return dict(machine=f.machine, ev=f.ev, node=f.node, diffs=set(f.diffs), tags=sorted(f.tags()),
                rows=sorted({'%s' % rowstr(r) for r in f.rows if r is not None})[:6], detail=f.detail,
                where=list(f.where or [])[:12], quirk=f.quirk)


def rowstr(r):
    if isinstance(r, spec.Internal):
        return 'internal %s [%s] / %s' % (r.ev, r.g, r.a)
    return '%s: %r' % (r.parent, r)


@job
def explore(name, dsl='prefix', peek=False, dtor=False):
    m = suites.get(name)

    def f(w):
        x = model.Explorer(w, peek_actions=peek, dtor=dtor)
        x.run(setdep=m.deps > 0)
        rows = {r for s in m.states.values() for r in (s.rows or []) + (s.internal or [])}
        dead = {r for r in rows if 'dead' in r.tags}
        return {'findings': [conv(g) for g in x.findings],
                'stats': dict(states=x.nodes, paths=x.paths, cut=x.cut, limits=x.limits, rows=len(rows),
                              rows_fired=len({r for r in x.rowsfired if r is not None}), callbacks=x.callbacks,
                              functions=len(w.module.fns), instructions=w.module.ninstr, complete=not x.incomplete,
                              stubs=w.stubs),
                # generated machines may have rows that cannot be reached
                'missing': [rowstr(r) for r in rows - dead - x.rowsfired] if not name.startswith('gen') and not x.incomplete else []}
    # the generated machines are analysed on optimised IR, which keeps the behaviour of defined programs
    return with_fallback(m, f, dsl=dsl, mode=('--opt',) if name.startswith('gen') or name in suites.OPT else ())


@job
def throwing(name):
    """every callback may throw"""
    m = suites.get(name)

    def f(w):
        w.eng.throws = True
        x = model.Explorer(w, dtor=True)
        x.run()
        # what goes wrong without any exception is for the other properties
        bad = [g for g in x.findings if g.diffs & {'exception', 'crash', 'leak'}]
        return {'findings': [conv(g) for g in bad],
                'stats': dict(states=x.nodes, paths=x.paths, threw=x.threw, cut=x.cut, limits=x.limits, callbacks=x.callbacks,
                              destroyed=x.destroyed, functions=len(w.module.fns), instructions=w.module.ninstr,
                              complete=not x.incomplete, stubs=w.stubs)}
    return with_fallback(m, f, mode=('--eh',))


@job
def api(name):
    m, g = special.api(name)

    def f(w):
        r = g(w)
        x = r['x']
        return {'findings': [conv(k) for k in x.findings],
                'stats': dict(states=x.nodes, paths=x.paths, queries=x.queries, sets=x.sets, cut=x.cut, functions=len(w.module.fns),
                              instructions=w.module.ninstr, complete=not x.incomplete)}
    return with_fallback(m, f)


@job
def moved(name):
    m, g = special.moved(name)
    r = with_fallback(m, g)
    r['findings'] = [conv(k) for k in r['findings']]
    return r


@job
def frontend(kind, lo=None, hi=None):
    return special.frontend(kind, lo, hi)


@job
def pair(name):
    m, g = special.pair(name)
    return with_fallback(m, g)


def internal(*a):
    """analysis of a class that is no part of the interface: the library may do without it"""
    try:
        return special.built(*a)
    except build.CompileError as e:
        raise build.AnalysisError('%s has another interface: %s' % (e.what, first_error(e.text)))


@job
def vqueue(bound):
    return internal(special.VQ, 'variant_queue', special.VQEngine, special.vqueue(bound))


@job
def dunique():
    return internal(special.DP, 'dunique_ptr', special.DPEngine, special.dunique())


@job
def custom():
    return special.built(special.CUSTOM, 'custom', special.CEngine, special.custom())


# ---- properties --------------------------------------------------------------------------------
class Prop:
    level = 'other'

    def __init__(self, jobs, kinds, tags=None, thorough=(), note='', minpaths=5, nocrash=False, expl=None, gen=(), genpeek=False, differential=False):
        self.differential = differential
        self.kindsgen = gen
        self.genpeek = genpeek
        self._jobs = [tuple(j) for j in jobs]
        self._thorough = [tuple(j) for j in thorough]
        self.kinds = set(kinds) | (set() if nocrash else CRASH)
        self.expl = expl
        self.tags = set(tags) if tags else None
        self.note = note
        self.minpaths = minpaths

    def jobs(self, tier):
        q = self._jobs + E(*gen.names(self.kindsgen), peek=self.genpeek)
        if tier != 'thorough':
            return q
        return q + [j for j in self._thorough + E(*gen.names(self.kindsgen, True), peek=self.genpeek) if j not in q]

    def relevant(self, f):
        if not f['diffs'] & self.kinds:
            return False
        if f['diffs'] & CRASH or self.tags is None or not f['rows']:
            return True
        return bool(set(f['tags']) & self.tags)

    def select(self, results):
        """the findings that concern this property"""
        out = [(j, f) for j, r in results for f in r.get('findings', ()) if self.relevant(f)]
        if self.differential:
            # the same difference from the declared machine in all notations is none between the notations
            groups, seen = {}, {}
            for j, _ in results:
                groups.setdefault(j[1], set()).add(j[2])

            def key(f):
                return (f['ev'], f['node'], f['detail'], tuple(sorted(f['diffs'])))
            for j, f in out:
                seen.setdefault((j[1], key(f)), set()).add(j[2])
            out = [(j, f) for j, f in out if seen[(j[1], key(f))] != groups[j[1]]]
        return [f for _, f in out]

    def coverage(self, results):
        st = [r.get('stats') for _, r in results if r.get('stats')]
        tot = {}
        for s in st:
            for k, v in s.items():
                if isinstance(v, int) and not isinstance(v, bool):
                    tot[k] = tot.get(k, 0) + v
        return {'explanation': self.expl or EXPL,
                'totals': tot,
                'exhaustive': not any(r.get('error') for _, r in results) and all(s.get('complete', True) and not s.get('cut') and not s.get('limits') for s in st),
                'not_analysed': [dict(job=' '.join(str(x) for x in j), reason=r['error']) for j, r in results if r.get('error')],
                'analyses': [dict(job=' '.join(str(x) for x in j), wall=r.get('wall'), **(r.get('stats') or {})) for j, r in results],
                'rule': 'An analysed path violates the property if it differs from the declared machine in: ' + ', '.join(sorted(self.kinds)), 'row_tags': sorted(self.tags) if self.tags else 'all'}

    def assumptions(self):
        return ASSUME

    def vacuous(self, results):
        for j, r in results:
            if r.get('missing'):
                return '%s: rows never taken on any analysed path: %s' % (j, r['missing'][:3])
            s = r.get('stats') or {}
            if s.get('paths') is not None and s['paths'] < self.minpaths:
                return '%s: only %d paths analysed' % (j, s['paths'])
            if not s:
                return '%s: nothing analysed' % (j,)
        return None

    def summary(self, cov):
        return ', '.join('%s %s' % (v, k) for k, v in sorted(cov['totals'].items()))


EXPL = ('Abstract interpretation of the LLVM IR clang emits for witness instantiations of the headers of /repo: constants '
        'are propagated through the constructor into an abstract heap, event contents, dependencies and guard outcomes are '
        'unknown (a branch on a guard follows both edges), and the worklist runs to a fixpoint over abstract machine states, '
        'so all event histories of the witness are covered. Every abstract path of an API call is compared with the '
        'transition relation computed from the declared table.')
ASSUME = [
    'clang 18 front end (-std=c++20) lowers the headers faithfully; std::deque / std::vector behave as specified (modelled abstractly)',
    'callbacks do not throw except in the analyses of C32; they process events themselves only in the witnesses of C25',
    'the property is decided for every history of the listed witness machines; other machines instantiate the same templates',
]


def E(*names, **kw):
    return [('explore', n, kw.get('dsl', 'prefix'), kw.get('peek', False), kw.get('dtor', False)) for n in names]


def notations(*names):
    return [j for n in names for d in ('prefix', 'postfix', 'tuple') for j in E(n, dsl=d)]


NOARGS = ALLK - ARGS

PROPS = {
    'C01': Prop(E('flat', 'flatdeps', 'hier', 'regions', 'internals', 'anon', 'valued', 'empty', 'dsl', 'pseudo', 'history', 'deferregions', 'deps'), {'effects', 'cfg'}, gen='plain hier pseudo anon all'.split()),
    'C02': Prop(E('regions', 'internalregions', 'activation', 'regioncomposite', 'flat', 'hier', 'emptydeps', 'wideregions', 'widecands', 'anonregions', 'deferregions', 'historyregions', 'deps', 'twoevents'),
                {'guards', 'effects', 'cfg', 'interleave'}, gen='regions regionhier anyregion all'.split()),
    'C03': Prop(E('flat', 'regions', 'defer', 'deferregions', 'defersub', 'internals', 'internalregions', 'hier', 'anon', 'pseudo', 'empty', 'historyregions', 'deps', 'dsl', 'anonregions', 'twoevents', 'nested'), {'ret'}, gen='plain hier regions defer deferregions regionhier'.split()),
    'C04': Prop(E('flat', 'flatdeps', 'regions', 'hier', 'internals', 'internalregions', 'defer', 'deferregions', 'deps', 'pseudo', 'empty', 'wideevents', 'anon', 'history', 'defersub', 'anonregions'), {'handler', 'handler-args', 'handler-state'}, gen='plain hier regions defer regionhier anyregion'.split()),
    'C05': Prop(E('flat', 'hier', 'pseudo', 'anon', 'internals', 'history', 'regions', 'dsl', 'empty', 'historyregions', 'activation', 'regioncomposite', 'chain', 'defer', 'deps'), {'effects', 'effect-order'}, gen='plain hier pseudo anon regions'.split()),
    'C06': Prop(E('flatdeps', 'twoevents', 'hier', 'pseudo', 'internals', 'deps', 'deps3', 'chain', 'regions', 'history', 'anon', 'valued', 'empty', 'emptydeps', 'historyregions', 'deferregions', 'internalregions', 'nested', 'dsl'), ARGS, gen='anon defer all pseudo'.split()),
    'C07': Prop(E('flat', 'hier', 'many', 'flatdeps', 'regions', 'valued', 'ancestors', 'pseudo', 'history', 'historyregions', 'anon', 'internals', 'activation', 'regioncomposite', 'defer', 'anonregions'), {'cfg'}, gen='up plain hier regionhier anyregion history'.split()),
    'C08': Prop(E('pseudo', 'internals', 'dsl', 'ancestors'), ALLK, tags=['pseudo', 'dsl'], gen='pseudo anonall uppseudo'.split()),
    'C09': Prop(E('hier', 'activation', 'regioncomposite', 'history', 'historyregions', 'anon', 'internals', 'defersub', 'ancestors', 'deep'), NOARGS, tags=['compexit'], gen='up hier regionhier anyregion pseudo history'.split()),
    'C10': Prop(E('internals', 'internalregions', 'rootinternal', 'chain', 'dsl', 'valued', 'widecands', 'deep', 'anoninternal'), ALLK, tags=['internal'], gen='pseudo regionhier defer all anonall'.split()),
    'C11': Prop(E('anon', 'anonlong', 'anonregions', 'anonmixed', 'defersub', 'deps', 'dsl', 'twoevents', 'anonmany', 'anoninternal', 'anonactivation', 'nestedanon'), NOARGS, tags=['anon', 'dsl'], gen='anon anonall uphistory'.split()),
    'C12': Prop(E('defer', 'deferregions', 'defersub', 'deferlong', 'twoevents', 'deps', 'empty', 'wideevents', 'nesteddefer', 'regionswitch'), ALLK, tags=['deferral'], gen='defer deferhier deferregions anonall all'.split()),
    'C13': Prop(E('history', 'historyregions', 'historyregion', 'historyexit', 'depregions', 'dsl', 'wideregions', 'deep'), NOARGS, tags=['history'], gen='history historyregions all uphistory deepregions'.split()),
    'C14': Prop(E('activation', 'anonactivation', 'regionswitch', 'historyregion', 'historyexit', 'historyregions', 'regioncomposite', 'regions', 'depregions', 'wideregions'), NOARGS, tags=['region', 'regions'], gen='regionhier historyregions anyregion regions deepregions'.split()),
    'C15': Prop(E('deps', 'deps3', 'depregions', 'chain', 'flatdeps', 'emptydeps'), {'args-dep', 'setdep', 'after-setdep'}, gen='anon defer all'.split()),
    'C16': Prop(E('hier', 'pseudo', 'history', 'regions', 'internals', 'flatdeps', 'defer', 'anon', 'historyregions', 'chain', 'activation', 'valued', 'anonregions') + [('custom',)],
                {'args-instance', 'state-write', 'custom'}, gen='hier all defer'.split()),
    'C17': Prop([('api', n) for n in ('flat', 'hier', 'pseudo', 'regions', 'historyregions', 'regioncomposite', 'depregions', 'history', 'anon', 'anonregions', 'defer', 'internals')],
                {'query', 'query-effect', 'range', 'set', 'cfg', 'initial'}, thorough=[('api', 'activation'), ('api', 'defersub')]),
    'C18': Prop([('frontend', 'pairs', i, i + 4) for i in range(0, len(wellformed.PAIRS), 4)]
                + [('frontend', 'ok', i, i + 4) for i in range(0, len(wellformed.OK), 4)], {'frontend'}, nocrash=True,
                thorough=[('frontend', 'pairs17', i, i + 4) for i in range(0, len(wellformed.PAIRS), 4)],
                expl='The clang front end decides each program: an ill-formed one has to be rejected and its twin, which '
                     'differs in the offending construct only, accepted.'),
    'C19': Prop(E('flat', 'hier', 'valued', 'valuedinternal', 'dsl', 'many', 'internals', 'pseudo', 'widecands', 'rootinternal', 'empty', 'history', 'anon', 'anonmany', 'defer', 'regions', 'deps', 'internalregions'), {'guards', 'effects', 'handler'}, gen='plain hier pseudo regions'.split()),
    'C20': Prop(E('hier', 'many', 'pseudo', 'history', 'deferregions'), NOARGS, tags=['same', 'many'], gen='hier history all'.split()),
    'C21': Prop([('vqueue', 3)] + E('defer', 'deferregions', 'deferlong', 'twoevents', 'deps', 'nesteddefer', 'defersub'), {'queue', 'fifo'}, thorough=[('vqueue', 5)] + E('wideevents')),
    'C22': Prop([('dunique',), ('custom',)] + E('flat', 'hier', 'historyregions', 'defer', 'deps', 'internals', dtor=True), {'owner'}, tags=['-']),
    'C23': Prop(notations('dsl', 'flat', 'hier', 'anon', 'internals', 'pseudo', 'regions'), ALLK, differential=True,
                thorough=notations(*gen.names(['plain', 'pseudo', 'history', 'regions', 'anonall']))),
    'C24': Prop(E('chain', 'widecands'), ALLK, tags=['chain'], gen='regions deferhier all'.split()),
    'C25': Prop(E('nested', 'nestedregions', 'nesteddefer', 'nestedanon'), ALLK, gen='nest nestregions nestdefer nestall'.split()),
    'C26': Prop([('pair', n) for n in ('deps', 'depregions', 'historyregions', 'flat', 'defer', 'history', 'anon', 'anonregions', 'internals', 'pseudo', 'deferregions')], {'isolation'},
                thorough=[('pair', n) for n in ('hier', 'regioncomposite', 'activation', 'chain', 'valued', 'nesteddefer', 'defersub')]),
    'C27': Prop(E('flat', 'hier', 'regions', 'historyregions', 'history', 'anon', 'deferregions', 'anonregions', 'regioncomposite', 'pseudo', 'internals', peek=True), {'atcfg'}, gen='hier regionhier all'.split(), genpeek=True),
    'C28': Prop(E(*[n for n in suites.MACHINES if n != 'many'], dtor=True) + [('vqueue', 3), ('dunique',), ('custom',)], set(), thorough=E('many', dtor=True)),
    'C32': Prop([('throwing', n) for n in ('flat', 'flatdeps', 'hier', 'pseudo', 'regions', 'internals', 'internalregions', 'chain', 'history', 'historyregions',
                                          'anon', 'anonregions', 'defer', 'deferregions', 'defersub', 'deps', 'twoevents', 'nested', 'nesteddefer', 'activation', 'dsl')],
                {'exception'}, thorough=[('throwing', n) for n in suites.MACHINES if n not in ('many', 'wideregions', 'anonmixed', 'valuedinternal', 'deep')]
                + [('throwing', n) for n in gen.names('plain hier pseudo regions regionhier historyregions defer deferhier anonall nestregions nestdefer uphistory deepregions'.split())]),
    'C30': Prop([('moved', n) for n in ('flat', 'hier', 'deps', 'historyregions', 'defer', 'history', 'anon', 'internals', 'deferregions')],
                {'move'}, thorough=[('moved', n) for n in ('activation', 'pseudo', 'depregions', 'regioncomposite', 'chain')]),
}
