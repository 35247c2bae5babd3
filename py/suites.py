"""The witness machines. Every machine is a small hsm program whose transition table uses one or more
features; the analysis covers all event histories, guard outcomes and event contents of each."""
from spec import Machine, Row, Internal, St

MACHINES = {}


# analysed on optimised IR
OPT = {'deep'}


def machine(f):
    MACHINES[f.__name__] = f
    return f


def get(name):
    if name.startswith('gen'):
        import gen
        return gen.make(int(name[3:]))
    m = MACHINES[name]()
    m.name = name
    return m


@machine
def flat():
    """one region: rows with / without guard and action, several candidates per event, self
    transition, entry / exit actions, unexpected event handler"""
    return Machine('flat', {
        'M': St(handler=40, rows=[
            Row('*S1', 'e1', 'S2', 1, 1, tags=['plain']),
            Row('S1', 'e1', 'S3', 2, 2, tags=['plain']),
            Row('S1', 'e2', 'S1', 3, 3, tags=['plain', 'self']),
            Row('S1', 'e3', 'S4', 4, None, tags=['plain']),
            Row('S2', 'e1', 'S3', None, 5, tags=['plain']),
            Row('S2', 'e2', 'S2', None, None, tags=['plain', 'self']),
            Row('S2', 'e3', 'S1', 6, 6, tags=['plain']),
            Row('S3', 'e2', 'S1', 7, 7, tags=['plain']),
            Row('S3', 'e2', 'S2', 8, 8, tags=['plain']),
            Row('S3', 'e2', 'S4', 9, 9, tags=['plain']),
            Row('S4', 'e1', 'S1', None, None, tags=['plain']),
        ]),
        'S1': St(entry=20, exit=21), 'S2': St(entry=22, exit=23), 'S3': St(entry=24), 'S4': St(exit=25),
    })


@machine
def flatdeps():
    """one region with a dependency, callbacks of all kinds, events passed as rvalue"""
    return Machine('flatdeps', {
        'M': St(handler=40, rows=[
            Row('*S1', 'e1', 'S2', 1, 1, tags=['plain']),
            Row('S2', 'e1', 'S3', 2, 2, tags=['plain']),
            Row('S2', 'e2', 'S2', None, 3, tags=['plain', 'self']),
            Row('S3', 'e2', 'S2', None, 5, tags=['plain']),
            Row('S3', 'e2', 'S1', 4, None, tags=['plain']),
        ]),
        'S1': St(entry=20, exit=21), 'S2': St(entry=22, exit=23), 'S3': St(entry=24, exit=25),
    }, deps=1, rvalue=True)


@machine
def regions():
    """three orthogonal regions which share events"""
    return Machine('regions', {
        'M': St(handler=40, rows=[
            Row('*A1', 'e1', 'A2', 1, 1, tags=['region']),
            Row('A2', 'e1', 'A1', 2, 2, tags=['region']),
            Row('*B1', 'e1', 'B2', 3, 3, tags=['region']),
            Row('B1', 'e1', 'B3', 4, 4, tags=['region']),
            Row('B2', 'e2', 'B1', None, 5, tags=['region']),
            Row('B3', 'e2', 'B1', 6, None, tags=['region']),
            Row('*C1', 'e2', 'C2', 7, 7, tags=['region']),
            Row('C2', 'e1', 'C1', None, 8, tags=['region']),
            Row('C2', 'e3', 'C1', 9, None, tags=['region']),
        ]),
        'A1': St(entry=20, exit=21), 'B1': St(entry=22, exit=23), 'C1': St(entry=24, exit=25),
        'B2': St(entry=26, exit=27),
    })


@machine
def hier():
    """three nesting levels, the same state below several parents, rows out of a composite state,
    inner and outer rows of the same event"""
    return Machine('hier', {
        'M': St(handler=40, rows=[
            Row('*S1', 'e1', 'P', 1, 1, tags=['plain', 'composite']),
            Row('S1', 'e2', 'Q', 2, 2, tags=['plain', 'composite']),
            Row('P', 'e3', 'S1', 3, 3, tags=['compexit', 'plain']),
            Row('P', 'e2', 'Q', 4, 4, tags=['compexit', 'plain', 'composite']),
            Row('Q', 'e3', 'S1', None, 5, tags=['compexit', 'plain']),
        ]),
        'P': St(entry=20, exit=21, rows=[
            Row('*C', 'e1', 'D', 6, 6, tags=['plain', 'same']),
            Row('D', 'e1', 'R', 7, 7, tags=['plain', 'composite', 'same']),
            Row('D', 'e2', 'C', 8, 8, tags=['plain', 'same']),
            Row('R', 'e2', 'C', 9, 9, tags=['compexit', 'plain']),
        ]),
        'Q': St(entry=22, rows=[
            Row('*C', 'e1', 'E', 10, 10, tags=['plain', 'same']),
            Row('E', 'e1', 'D', 11, 11, tags=['plain', 'same']),
            Row('D', 'e1', 'C', 12, 12, tags=['plain', 'same']),
        ]),
        'R': St(exit=24, rows=[
            Row('*C', 'e1', 'F', 13, 13, tags=['plain', 'same']),
            Row('F', 'e1', 'D', 14, 14, tags=['plain', 'same']),
        ]),
        'C': St(entry=25, exit=26), 'D': St(entry=27, exit=28), 'S1': St(entry=29, exit=30),
    })


@machine
def ancestors():
    """rows which lead from inside of a composite to this composite or to one around it"""
    return Machine('ancestors', {
        'M': St(handler=40, rows=[
            Row('*S1', 'e1', 'P', 1, 1, tags=['plain', 'composite']),
            Row('S1', 'e2', ('direct', 'R', 'F'), 2, 2, tags=['pseudo']),
            Row('P', 'e3', 'S1', 3, 3, tags=['compexit', 'plain']),
        ]),
        'P': St(entry=20, exit=21, rows=[
            Row('*C', 'e1', 'D', 4, 4, tags=['plain']),
            Row('D', 'e1', 'P', 5, 5, tags=['plain', 'composite']),
            Row('D', 'e2', ('entry', 'P', 'D'), 6, 6, tags=['pseudo']),
            Row('C', 'e2', 'R', 7, 7, tags=['plain', 'composite']),
            Row('R', 'e3', 'D', 8, 8, tags=['compexit', 'plain']),
        ]),
        'R': St(entry=22, exit=23, rows=[
            Row('*E', 'e1', 'F', 9, 9, tags=['plain']),
            Row('F', 'e1', 'P', 10, 10, tags=['plain', 'composite']),
            Row('F', 'e2', 'R', 11, 11, tags=['plain', 'composite']),
            Row('E', 'e2', ('direct', 'P', 'D'), 12, 12, tags=['pseudo']),
        ]),
        'C': St(entry=24, exit=25), 'D': St(entry=26, exit=27), 'E': St(entry=28, exit=29), 'F': St(exit=30),
    })


@machine
def pseudo():
    """entry, direct and exit pseudo states, on all nesting levels"""
    return Machine('pseudo', {
        'M': St(handler=40, rows=[
            Row('*S1', 'e1', ('entry', 'P', 'C2'), 1, 1, tags=['pseudo']),
            Row('S1', 'e2', ('direct', 'P', 'C3'), 2, 2, tags=['pseudo']),
            Row('S1', 'e3', ('direct', 'R', 'D2'), 3, 3, tags=['pseudo']),
            Row('S1', 'e4', 'P', None, 9, tags=['composite']),
            Row(('exit', 'P', 'C3'), 'e1', 'S2', 4, 4, tags=['pseudo']),
            Row(('exit', 'R', 'D1'), 'e4', 'S1', 5, 5, tags=['pseudo']),
            Row(('direct', 'P', 'C2'), 'e4', 'S2', 17, 17, tags=['pseudo']),
            Row(('direct', 'R', 'D2'), 'e3', ('entry', 'P', 'C1'), None, 18, tags=['pseudo']),
            Row('S2', 'e2', ('direct', 'P', 'C1'), None, 6, tags=['pseudo']),
            Row('S2', 'e1', 'S1', None, 16, tags=['plain']),
        ]),
        'P': St(entry=20, exit=21, rows=[
            Row('*C1', 'e1', 'C2', 7, 7, tags=['plain']),
            Row('C2', 'e2', 'C3', None, 8, tags=['plain']),
            Row('C3', 'e3', ('entry', 'R', 'D2'), None, 10, tags=['pseudo']),
        ]),
        'R': St(entry=22, exit=23, rows=[
            Row('*D1', 'e1', 'D2', None, 11, tags=['plain']),
            Row('D2', 'e2', 'D1', 12, 12, tags=['plain']),
        ]),
        'C3': St(entry=24, exit=25), 'C1': St(entry=26, exit=27), 'D2': St(entry=28, exit=29),
    })


@machine
def internals():
    """internal transitions of plain states, composites and states entered by pseudo states"""
    return Machine('internals', {
        'M': St(handler=40, rows=[
            Row('*S1', 'e1', 'S2', None, 1, tags=['plain']),
            Row('S2', 'e1', 'P', 2, 2, tags=['composite']),
            Row('S2', 'e4', 'S1', 3, 3, tags=['plain']),
            Row('S2', 'e2', ('direct', 'Q', 'D1'), 13, 13, tags=['pseudo']),
            Row('P', 'e2', 'S2', None, 4, tags=['compexit']),
            Row(('exit', 'Q', 'D2'), 'e2', 'S1', None, 14, tags=['pseudo']),
        ]),
        'P': St(entry=20, exit=21, rows=[
            Row('*C1', 'e1', 'C2', 5, 5, tags=['plain']),
            Row('C2', 'e1', 'C3', None, 6, tags=['plain']),
            Row('C3', 'e4', 'C1', 12, 7, tags=['plain']),
        ], internal=[Internal('e3', 8, 8, tags=['internal']), Internal('e4', None, 9, tags=['internal'])]),
        'Q': St(rows=[Row('*D1', 'e1', 'D2', None, 15, tags=['plain'])],
                internal=[Internal('e3', None, 16, tags=['internal'])]),
        'S2': St(entry=22, exit=23, internal=[
            Internal('e3', 10, 10, tags=['internal']), Internal('e4', 11, 11, tags=['internal'])]),
        'C2': St(entry=24, exit=25),
        'C3': St(internal=[Internal('e1', None, 17, tags=['internal'])]),
    })


@machine
def internalregions():
    """internal transitions of several regions for the same event"""
    return Machine('internalregions', {
        'M': St(handler=40, rows=[
            Row('*A1', 'e1', 'A2', None, 1, tags=['region']),
            Row('A2', 'e1', 'A1', 2, 2, tags=['region']),
            Row('*B1', 'e1', 'B2', 3, 3, tags=['region']),
            Row('B2', 'e2', 'B1', None, 4, tags=['region']),
        ]),
        'A2': St(entry=20, exit=21, internal=[Internal('e3', 5, 5, tags=['internal'])]),
        'B2': St(entry=22, exit=23, internal=[Internal('e3', 6, 6, tags=['internal']),
                                              Internal('e1', None, None, tags=['internal'])]),
    }, starts=False)


@machine
def anon():
    """completion transitions: guarded, unguarded, chained, into and out of composite states"""
    return Machine('anon', {
        'M': St(handler=40, rows=[
            Row('*S1', 'e1', 'S2', 1, 1, tags=['plain']),
            Row('S1', 'e2', 'S4', None, 12, tags=['plain']),
            Row('S2', None, 'S3', 2, 2, tags=['anon']),
            Row('S2', None, 'P', 3, 3, tags=['anon']),
            Row('S3', None, 'S4', None, 4, tags=['anon']),
            Row('S4', None, 'S1', 5, 5, tags=['anon']),
            Row('S4', 'e2', 'S4', 13, 13, tags=['plain', 'self']),
            Row('P', 'e2', 'S2', None, 6, tags=['compexit']),
        ]),
        'P': St(entry=20, exit=21, rows=[
            Row('*C1', 'e1', 'C2', None, 7, tags=['plain']),
            Row('C2', None, 'C3', 8, 8, tags=['anon']),
            Row('C3', None, 'C1', 10, 10, tags=['anon']),
        ]),
        'S3': St(entry=22, exit=23), 'S4': St(entry=24, exit=25), 'C2': St(entry=26, exit=27),
    }, maxg=7)


@machine
def anonregions():
    """completion transitions in orthogonal regions (every state has one)"""
    return Machine('anonregions', {
        'M': St(handler=40, rows=[
            Row('*A1', 'e1', 'A2', 1, 1, tags=['region']),
            Row('A2', None, 'A1', 2, 2, tags=['anon']),
            Row('A1', None, 'A3', 3, 3, tags=['anon']),
            Row('A3', None, 'A2', 7, 7, tags=['anon']),
            Row('*B1', 'e1', 'B2', 4, 4, tags=['region']),
            Row('B2', None, 'B1', 5, 5, tags=['anon']),
            Row('B1', None, 'B2', 6, 6, tags=['anon']),
            Row('B2', 'e2', 'B1', None, 8, tags=['region']),
        ]),
    }, maxg=7, starts=False)


@machine
def anonactivation():
    """completion transitions that enter and leave composites with more and with fewer regions"""
    return Machine('anonactivation', {
        'M': St(handler=40, rows=[
            Row('*S1', 'e1', 'S2', None, 1, tags=['plain']),
            Row('S2', None, 'P', None, 3, tags=['anon', 'composite']),
            Row('P', 'e2', 'S1', None, 4, tags=['compexit', 'region']),
        ]),
        'P': St(rows=[
            Row('*P1', 'e1', 'P2', None, 17, tags=['region']),
            Row('P1', None, 'P2', 7, 7, tags=['anon']),
            Row('P2', None, 'Q', 8, 8, tags=['anon', 'composite']),
            Row('*R1', 'e3', 'R2', None, 19, tags=['region']),
            Row('R1', None, 'R2', 9, 9, tags=['anon']),
            Row('R2', None, 'R1', 10, 10, tags=['anon']),
            Row('Q', None, 'P1', 11, 11, tags=['anon', 'compexit']),
        ]),
        'Q': St(rows=[
            Row('*Q1', 'e3', 'Q2', None, 21, tags=['plain']),
        ]),
    }, maxg=7, starts=False)


@machine
def anonmixed():
    """completion transitions in two regions where some states of both regions have none"""
    return Machine('anonmixed', {
        'M': St(rows=[
            Row('*A1', 'e1', 'A2', None, 1, tags=['region']),
            Row('A2', None, 'A3', 2, 2, tags=['anon']),
            Row('A3', 'e2', 'A1', None, 3, tags=['region']),
            Row('*B1', 'e1', 'B2', None, 4, tags=['region']),
            Row('B2', None, 'B3', 5, 5, tags=['anon']),
            Row('B3', 'e2', 'B1', None, 6, tags=['region']),
        ]),
    }, maxg=7, starts=False)


@machine
def anonlong():
    """a long sequence of completion transitions"""
    return Machine('anonlong', {
        'M': St(rows=[
            Row('*S1', 'e1', 'S2', None, 1, tags=['plain']),
            Row('S2', None, 'S3', 2, None, tags=['anon']),
            Row('S3', None, 'S2', 3, 3, tags=['anon']),
            Row('S3', 'e1', 'S1', None, None, tags=['plain']),
        ]),
    }, maxg=300, starts=False)


@machine
def anonmany():
    """many completion transitions of one state, a long fixed chain of them, and one in a composite"""
    n = 9
    return Machine('anonmany', {
        'M': St(handler=40, rows=[Row('*S0', 'e1', 'S1', 1, 1, tags=['plain'])]
                + [Row('S1', None, 'T%d' % k, 10 + k, 10 + k, tags=['anon']) for k in range(n)]
                + [Row('T%d' % k, None, 'T%d' % (k + 1) if k < n - 1 else 'P', None, 30 + k, tags=['anon', 'composite'] if k == n - 1 else ['anon']) for k in range(n)]
                + [Row('P', 'e2', 'S0', None, 2, tags=['compexit'])]),
        'P': St(rows=[Row('*C1', 'e1', 'C2', 3, 3, tags=['plain'])]
                + [Row('C2', None, 'C%d' % (3 + k % 2), 50 + k, 50 + k, tags=['anon']) for k in range(5)]
                + [Row('C3', 'e1', 'C1', None, 4, tags=['plain']), Row('C4', None, 'C3', None, 5, tags=['anon'])]),
        'T4': St(entry=20, exit=21), 'C2': St(entry=22, exit=23),
    }, starts=False)


@machine
def anoninternal():
    """guarded completion transitions of states with internal transitions, own ones and those of a composite,
    and self transitions: completion is tried after each of them"""
    return Machine('anoninternal', {
        'M': St(handler=40, rows=[
            Row('*S1', 'e1', 'S2', None, 1, tags=['plain']),
            Row('S2', None, 'S3', 2, 2, tags=['anon']),
            Row('S3', 'e1', 'S3', 3, 3, tags=['self']),
            Row('S3', None, 'P', 4, 4, tags=['anon', 'composite']),
            Row('P', 'e2', 'S1', 5, 5, tags=['compexit']),
            Row('S1', None, 'S2', 6, 6, tags=['anon']),
        ]),
        'S2': St(entry=20, exit=21, internal=[Internal('e1', 7, 7, tags=['internal']), Internal('e3', None, 8, tags=['internal'])]),
        'P': St(rows=[
            Row('*C1', 'e1', 'C2', None, 9, tags=['plain']),
            Row('C1', None, 'C2', 10, 10, tags=['anon']),
            Row('C2', 'e3', 'C1', 11, 11, tags=['plain']),
            Row('C2', None, 'C1', 12, 12, tags=['anon']),
        ], internal=[Internal('e3', None, 13, tags=['internal']), Internal('e2', 14, 14, tags=['internal'])]),
    }, maxg=40, starts=False)


@machine
def defer():
    """deferral in one region: several deferring states and events, redelivery"""
    return Machine('defer', {
        'M': St(handler=40, rows=[
            Row('*S1', 'e1', 'S2', None, 1, tags=['plain']),
            Row('S1', 'e2', 'S3', 2, 2, tags=['plain']),
            Row('S2', 'e3', 'S1', 3, 3, tags=['plain']),
            Row('S2', 'e2', 'S3', 4, 4, tags=['plain', 'dead']),
            Row('S3', 'e3', 'S1', None, 5, tags=['plain']),
            Row('S3', 'e1', 'S2', None, 6, tags=['plain']),
        ]),
        'S1': St(entry=20, exit=21, defer=['e3']),
        'S2': St(entry=22, exit=23, defer=['e1', 'e2']),
    }, maxq=4, rich=True)


@machine
def deferregions():
    """deferral in one of two regions, in target-only states and in a state below two parents"""
    return Machine('deferregions', {
        'M': St(handler=40, rows=[
            Row('*A1', 'e1', 'A2', 1, 1, tags=['region']),
            Row('A2', 'e3', 'A1', None, 2, tags=['region']),
            Row('*B1', 'e2', 'B2', None, 3, tags=['region']),
            Row('B1', 'e1', 'B3', 6, 6, tags=['region']),
            Row('B2', 'e1', 'B1', 4, 4, tags=['region', 'dead']),
            Row('B2', 'e3', 'B1', None, 5, tags=['region']),
        ]),
        'A2': St(defer=['e2']),
        'B2': St(defer=['e1']),
        'B3': St(defer=['e3']),
    }, maxq=2, starts=False)


@machine
def defersub():
    """deferral inside composite states and together with completion transitions"""
    return Machine('defersub', {
        'M': St(rows=[
            Row('*S1', 'e1', 'P', None, 1, tags=['composite']),
            Row('P', 'e3', 'S1', 2, 2, tags=['compexit']),
            Row('S1', 'e2', 'S2', None, 3, tags=['plain']),
            Row('S2', None, 'S1', 4, 4, tags=['anon']),
        ]),
        'P': St(rows=[
            Row('*C1', 'e1', 'C2', None, 5, tags=['plain']),
            Row('C2', 'e2', 'C1', None, 6, tags=['plain']),
        ]),
        'C1': St(defer=['e2']),
        'S1': St(defer=['e3']),
    }, maxq=2)


@machine
def history():
    """history pseudo states of two composites, nested"""
    return Machine('history', {
        'M': St(handler=40, rows=[
            Row('*S1', 'e1', 'P', None, 1, tags=['composite']),
            Row('S1', 'e2', ('history', 'P'), 2, 2, tags=['history']),
            Row('S1', 'e4', ('history', 'Q'), None, 3, tags=['history']),
            Row('P', 'e3', 'S1', None, 4, tags=['compexit']),
            Row('Q', 'e3', 'S1', 5, 5, tags=['compexit']),
            Row('Q', 'e4', ('history', 'P'), 6, 6, tags=['history', 'compexit']),
            Row('P', 'e4', ('history', 'P'), 12, 12, tags=['history', 'compexit']),
        ]),
        'P': St(entry=20, exit=21, rows=[
            Row('*C1', 'e1', 'C2', None, 7, tags=['plain']),
            Row('C2', 'e1', 'C3', 8, 8, tags=['plain']),
            Row('C3', 'e2', 'C1', None, 9, tags=['plain']),
        ]),
        'Q': St(exit=22, rows=[
            Row('*D1', 'e1', 'D2', None, 10, tags=['plain']),
            Row('D2', 'e1', 'D1', 11, 11, tags=['plain']),
        ]),
        'S1': St(exit=23),
    }, starts=False)


@machine
def historyregions():
    """history of a composite with two regions below a root with one region"""
    return Machine('historyregions', {
        'M': St(rows=[
            Row('*S1', 'e1', 'P', None, 1, tags=['composite', 'regions']),
            Row('S1', 'e2', ('history', 'P'), None, 2, tags=['history', 'regions']),
            Row('P', 'e3', 'S1', None, 3, tags=['compexit', 'regions']),
        ]),
        'P': St(rows=[
            Row('*A1', 'e1', 'A2', 4, 4, tags=['region']),
            Row('A2', 'e2', 'A1', None, 5, tags=['region']),
            Row('*B1', 'e1', 'B2', 6, 6, tags=['region']),
            Row('B2', 'e2', 'B1', 7, 7, tags=['region']),
        ]),
    }, starts=False)


@machine
def historyexit():
    """a composite with three regions that is left by its first region only"""
    return Machine('historyexit', {
        'M': St(rows=[
            Row('*S1', 'e1', 'P', None, 1, tags=['composite', 'regions']),
            Row('S1', 'e2', ('history', 'P'), None, 2, tags=['history', 'regions']),
            Row(('exit', 'P', 'A2'), 'e3', 'S1', None, 3, tags=['pseudo', 'regions', 'history']),
            Row(('exit', 'P', 'A1'), 'e3', ('direct', 'Q', 'D1'), 8, 8, tags=['pseudo', 'regions', 'history']),
            Row('Q', 'e2', ('history', 'P'), None, 9, tags=['history', 'compexit', 'regions']),
        ]),
        'P': St(rows=[
            Row('*A1', 'e1', 'A2', 4, 4, tags=['region']),
            Row('A2', 'e2', 'A1', None, 5, tags=['region']),
            Row('*B1', 'e1', 'B2', 6, 6, tags=['region']),
            Row('B2', 'e2', 'B1', 7, 7, tags=['region']),
            Row('*C1', 'e4', 'C2', None, 10, tags=['region']),
        ]),
        'Q': St(rows=[Row('*D2', 'e4', 'D1', None, 11, tags=['plain', 'dead'])]),
    }, starts=False)


@machine
def historyregion():
    """a composite with one region and history that only the second region of the root enters and leaves"""
    return Machine('historyregion', {
        'M': St(handler=40, rows=[
            Row('*A1', 'e1', 'A2', 1, 1, tags=['plain', 'region']),
            Row('A2', 'e1', 'A1', None, 2, tags=['plain', 'region']),
            Row('*B1', 'e2', 'P', 2, 3, tags=['composite', 'region']),
            Row('P', 'e3', 'B2', 3, 4, tags=['compexit', 'region']),
            Row('B2', 'e2', ('history', 'P'), 4, 5, tags=['history', 'region']),
            Row('B2', 'e3', 'B1', None, 6, tags=['plain', 'region']),
        ]),
        'P': St(rows=[Row('*C1', 'e2', 'C2', 5, 7, tags=['plain']), Row('C2', 'e1', 'C1', None, 8, tags=['plain'])]),
        'B1': St(entry=20, exit=21), 'C2': St(entry=22, exit=23),
    })


@machine
def activation():
    """composites with different numbers of regions"""
    return Machine('activation', {
        'M': St(rows=[
            Row('*S1', 'e1', 'P', None, 1, tags=['composite', 'regions']),
            Row('S1', 'e2', 'Q', None, 2, tags=['composite', 'regions']),
            Row('P', 'e3', 'S1', 3, 3, tags=['compexit', 'regions']),
            Row('Q', 'e3', 'P', 4, 4, tags=['compexit', 'regions']),
        ]),
        'P': St(entry=20, exit=21, rows=[
            Row('*A1', 'e1', 'A2', None, 5, tags=['region']),
            Row('*B1', 'e2', 'B2', None, 6, tags=['region']),
        ]),
        'Q': St(rows=[
            Row('*X1', 'e1', 'X2', None, 7, tags=['region']),
            Row('*Y1', 'e1', 'Y2', 8, 8, tags=['region']),
            Row('*Z1', 'e2', 'Z2', None, 9, tags=['region']),
        ]),
    }, starts=False)


@machine
def regionswitch():
    """transitions between composites with several regions"""
    return Machine('regionswitch', {
        'M': St(rows=[
            Row('*S1', 'e1', 'P', None, 1, tags=['composite', 'regions']),
            Row('P', 'e3', 'Q', None, 2, tags=['compexit', 'composite', 'regions']),
            Row('Q', 'e3', 'P', 3, 3, tags=['compexit', 'composite', 'regions']),
            Row('Q', 'e4', 'S1', None, 4, tags=['compexit', 'regions']),
        ]),
        'P': St(rows=[Row('*A1', 'e1', 'A2', 5, 5, tags=['region']), Row('*B1', 'e2', 'B2', None, 6, tags=['region'])]),
        'Q': St(rows=[Row('*C1', 'e1', 'C2', 7, 7, tags=['region']), Row('*E1', 'e2', 'E2', None, 8, tags=['region'])]),
    }, starts=False)


@machine
def regioncomposite():
    """composite states entered from orthogonal regions of the root"""
    return Machine('regioncomposite', {
        'M': St(rows=[
            Row('*S1', 'e1', 'P', None, 1, tags=['composite', 'regions']),
            Row('P', 'e3', 'S1', None, 3, tags=['compexit', 'regions']),
            Row('*T1', 'e2', 'T2', 2, 2, tags=['region']),
            Row('T2', 'e2', 'T1', 4, 4, tags=['region']),
        ]),
        'P': St(rows=[
            Row('*A1', 'e1', 'A2', 5, 5, tags=['region']),
            Row('*B1', 'e2', 'B2', None, 6, tags=['region', 'dead']),
        ]),
    }, starts=False)


@machine
def deps():
    """two dependencies, set_dependency at every point, handler"""
    return Machine('deps', {
        'M': St(handler=40, rows=[
            Row('*S1', 'e1', 'S2', 1, 1, tags=['dep']),
            Row('S2', 'e1', 'P', None, 2, tags=['dep']),
            Row('P', 'e2', 'S1', 3, 3, tags=['dep', 'compexit']),
            Row('S1', 'e2', 'S4', None, 10, tags=['dep']),
            Row('S4', None, 'S1', 9, 9, tags=['dep', 'anon']),
        ]),
        'P': St(rows=[Row('*C1', 'e1', 'C2', 4, 4, tags=['dep'])],
                internal=[Internal('e3', 5, 5, tags=['dep', 'internal'])]),
        'S2': St(entry=20, exit=21, defer=['e3']),
    }, deps=2, maxq=2)


@machine
def deps3():
    """three dependencies, two of one type, in all kinds of rows"""
    return Machine('deps3', {
        'M': St(handler=40, rows=[
            Row('*S1', 'e1', ('entry', 'P', 'C2'), 1, 1, tags=['dep', 'pseudo']),
            Row('S1', 'e2', 'S2', 2, (2, 3), tags=['dep', 'chain']),
            Row('S2', None, 'S1', 4, 4, tags=['dep', 'anon']),
            Row('S2', 'e1', ('history', 'P'), None, 10, tags=['dep', 'history']),
            Row(('exit', 'P', 'C3'), 'e2', 'S1', 5, 5, tags=['dep', 'pseudo']),
            Row('P', 'e3', 'S1', None, 6, tags=['dep', 'compexit']),
        ]),
        'P': St(entry=20, exit=21, rows=[Row('*C1', 'e1', 'C2', None, 7, tags=['dep']), Row('C2', 'e1', 'C3', 8, 8, tags=['dep'])],
                internal=[Internal('e4', 9, 9, tags=['dep', 'internal'])]),
        'S1': St(entry=22, exit=23, defer=['e4']),
    }, deps=3, maxq=1)


@machine
def depregions():
    """a dependency in a machine with regions and history"""
    return Machine('depregions', {
        'M': St(handler=40, rows=[
            Row('*S1', 'e1', 'P', None, 1, tags=['dep', 'regions']),
            Row('S1', 'e2', ('history', 'P'), 2, 2, tags=['dep', 'history']),
            Row('P', 'e3', 'S1', None, 3, tags=['dep', 'compexit']),
        ]),
        'P': St(rows=[
            Row('*A1', 'e1', 'A2', 4, 4, tags=['dep', 'region']),
            Row('*B1', 'e1', 'B2', 5, 5, tags=['dep', 'region']),
        ]),
    }, deps=1, starts=False)


@machine
def many():
    """more than 256 combined states: nested composites below each other"""
    st = {}
    n = 9
    rows = [Row('*S0', 'e1', 'P1', None, 1, tags=['plain', 'composite', 'many'])]
    for i in range(1, n + 1):
        st['M' if i == 1 else 'P%d' % (i - 1)] = St(rows=rows)
        rows = [Row('*C%d' % i, 'e1', 'D%d' % i, None, 10 + i, tags=['plain', 'many']),
                Row('D%d' % i, 'e2', 'E%d' % i, 20 + i, 20 + i, tags=['plain', 'many'])]
        if i < n:
            rows.append(Row('D%d' % i, 'e1', 'P%d' % (i + 1), None, 30 + i, tags=['plain', 'composite', 'many']))
        else:
            rows.append(Row('D%d' % i, 'e1', 'C%d' % i, None, 30 + i, tags=['plain', 'many']))
    st['P%d' % n] = St(rows=rows)
    return Machine('many', st, starts=False, peekall=False)


@machine
def dsl():
    """every form of a row: with / without event, guard, action, initial mark, pseudo states"""
    return Machine('dsl', {
        'M': St(handler=40, rows=[
            Row('*S1', 'e1', 'S2', tags=['dsl']),
            Row('S1', 'e2', 'S3', 1, tags=['dsl']),
            Row('S1', 'e3', 'S4', None, 2, tags=['dsl']),
            Row('S1', 'e4', 'S2', 3, 3, tags=['dsl']),
            Row('S2', 'e1', ('entry', 'P', 'C2'), 4, 4, tags=['dsl']),
            Row('S2', 'e2', ('direct', 'P', 'C1'), None, 5, tags=['dsl']),
            Row('S2', 'e3', ('history', 'P'), 6, tags=['dsl']),
            Row('S2', 'e4', 'P', tags=['dsl']),
            Row(('exit', 'P', 'C2'), 'e1', 'S1', 7, tags=['dsl']),
            Row(('exit', 'P', 'C2'), 'e2', 'S1', None, 8, tags=['dsl']),
            Row(('exit', 'P', 'C2'), 'e3', 'S1', tags=['dsl']),
            Row('P', 'e4', 'S5', 9, 9, tags=['dsl']),
            Row('S3', None, 'S1', 10, 10, tags=['dsl']),
            Row('S4', None, 'S1', tags=['dsl']),
            Row('S5', None, 'S4', 11, tags=['dsl']),
            Row('S5', 'e1', 'S6', tags=['dsl']),
            Row('S6', None, 'S1', None, 12, tags=['dsl']),
        ]),
        'P': St(rows=[Row('*C1', 'e1', 'C2', 13, 13, tags=['dsl'])],
                internal=[Internal('e2', 14, 14), Internal('e3', None, 15), Internal('e4', 16), Internal('e5')]),
        'S1': St(entry=20, exit=21), 'S2': St(entry=22, exit=23),
    }, starts=False, maxg=8)


@machine
def chain():
    """chains of actions, nested, with dependency, entry and exit actions"""
    return Machine('chain', {
        'M': St(handler=40, rows=[
            Row('*S1', 'e1', 'S2', 1, (1, 2, 3), tags=['chain']),
            Row('S2', 'e1', 'S1', 2, (4, 5), tags=['chain']),
            Row('S2', 'e2', 'S2', None, (6, (7, 8), 9), tags=['chain']),
            Row('S1', 'e3', 'S1', None, (6, 6, 7, 6), tags=['chain']),
            Row('S2', 'e3', 'S3', None, (10,), tags=['chain']),
            Row('S3', None, 'S1', None, (11, 12), tags=['chain', 'anon']),
        ]),
        'S2': St(entry=20, exit=21, internal=[Internal('e4', 3, (13, 14), tags=['chain', 'internal'])]),
    }, deps=2, actret=True)


@machine
def valued():
    """all guards (actions) have the same type, the function objects differ in their value"""
    return Machine('valued', {
        'M': St(rows=[
            Row('*S1', 'e1', 'S2', 1, 1, tags=['valued']),
            Row('S1', 'e1', 'S3', 2, 2, tags=['valued']),
            Row('S1', 'e2', 'P', 3, 3, tags=['valued']),
            Row('S2', 'e1', 'S1', 4, 4, tags=['valued']),
            Row('S3', 'e2', 'S1', None, 5, tags=['valued']),
            Row('P', 'e2', 'S1', 6, (6, 7), tags=['valued', 'compexit']),
        ]),
        'P': St(rows=[Row('*C1', 'e1', 'C2', 8, 8, tags=['valued'])]),
        'S2': St(entry=20, exit=21),
        'S3': St(internal=[Internal('e3', 9, 9, tags=['valued'])]),
    }, valued=True)


@machine
def valuedinternal():
    """two internal rows whose guards (actions) have the same type and different values"""
    return Machine('valuedinternal', {
        'M': St(rows=[Row('*S1', 'e1', 'S2', 1, 1), Row('S2', 'e1', 'S1', 2, 2)]),
        'S2': St(internal=[Internal('e2', 3, 3, tags=['dupinternal']), Internal('e2', 4, 4, tags=['dupinternal'])]),
    }, valued=True)


@machine
def deferlong():
    """many deferred events"""
    return Machine('deferlong', {
        'M': St(rows=[
            Row('*S1', 'e1', 'S2', None, 1, tags=['plain']),
            Row('S2', 'e2', 'S2', None, 2, tags=['plain']),
            Row('S2', 'e1', 'S1', None, 3, tags=['plain']),
        ]),
        'S1': St(defer=['e2']),
    }, maxq=140, starts=False)


@machine
def nohandler():
    """no unexpected event handler, no entry / exit actions, no actions at all"""
    return Machine('nohandler', {
        'M': St(rows=[
            Row('*S1', 'e1', 'S2', tags=['plain']),
            Row('S2', 'e2', 'P', 1, tags=['plain', 'composite']),
            Row('P', 'e1', 'S1', 2, tags=['compexit']),
        ]),
        'P': St(rows=[Row('*C1', 'e2', 'C2', tags=['plain']), Row('C2', 'e3', 'C2', 3, tags=['plain', 'self'])]),
    })


@machine
def twoevents():
    """rvalue events in deferral, regions and completion"""
    return Machine('twoevents', {
        'M': St(handler=40, rows=[
            Row('*A1', 'e1', 'A2', 1, 1, tags=['region']),
            Row('A2', 'e2', 'A1', None, 2, tags=['region']),
            Row('*B1', 'e1', 'B2', 3, 3, tags=['region']),
            Row('B2', 'e3', 'B1', 4, 4, tags=['region']),
            Row('B1', 'e2', 'B1', 5, 5, tags=['region', 'self']),
        ]),
        'A1': St(entry=20, exit=21), 'B2': St(defer=['e2'], entry=22, exit=23),
    }, deps=1, rvalue=True, starts=False)


@machine
def wideregions():
    """nine regions, entered and left, with history"""
    n = 9
    rows = [Row('*S1', 'e1', 'P', None, 1, tags=['composite', 'regions']),
            Row('P', 'e3', 'S1', None, 2, tags=['compexit', 'regions']),
            Row('S1', 'e2', ('history', 'P'), None, 3, tags=['history', 'regions']),
            Row('S1', 'e5', 'S2', None, 4, tags=['plain']), Row('S2', 'e6', 'S1', None, 5, tags=['plain'])]
    sub = []
    for i in range(1, n + 1):
        sub.append(Row('*A%d' % i, 'e4' if i in (1, n) else 'e5', 'B%d' % i, 10 if i == n else None, 10 + i, tags=['region']))
        sub.append(Row('B%d' % i, 'e6' if i in (2, n) else 'e7', 'A%d' % i, None, 30 + i, tags=['region']))
    return Machine('wideregions', {'M': St(rows=rows), 'P': St(rows=sub)}, starts=False, peekall=False)


@machine
def widecands():
    """many candidates of one state and event, many internal rows, a long chain of actions"""
    rows = [Row('*S0', 'e1', 'S%d' % i, i, i, tags=['plain', 'many']) for i in range(1, 14)]
    rows += [Row('S%d' % i, 'e2', 'S0', None, 50 + i, tags=['plain', 'many']) for i in range(1, 14)]
    rows += [Row('S1', 'e4', 'S2', None, tuple(range(100, 118)), tags=['plain', 'chain'])]
    return Machine('widecands', {'M': St(handler=40, rows=rows),
                                 'S1': St(internal=[Internal('e3', 70 + i, 80 + i, tags=['internal', 'many']) for i in range(12)])},
                   starts=False, peekall=False)


@machine
def wideevents():
    """many event types, most of them deferred somewhere"""
    n = 18
    rows = [Row('*S0', 'e0', 'S1', None, 1, tags=['plain', 'many'])]
    rows += [Row('S1', 'e%d' % i, 'S1' if i % 3 else 'S0', None, 10 + i, tags=['plain', 'many']) for i in range(1, n)]
    return Machine('wideevents', {'M': St(handler=40, rows=rows),
                                  'S0': St(defer=['e%d' % i for i in range(1, n) if i % 5 != 2])}, starts=False, peekall=False, maxq=1)


@machine
def empty():
    """events without content, states without data members of their own, functions without state"""
    return Machine('empty', {
        'M': St(handler=40, rows=[
            Row('*S1', 'e1', 'S2', 1, 1, tags=['plain']),
            Row('S1', 'e1', 'S1', 2, 2, tags=['plain', 'self']),
            Row('S2', 'e2', 'P', 3, 3, tags=['composite']),
            Row('S2', 'e1', 'S1', 4, 4, tags=['plain']),
            Row('P', 'e2', 'S1', 5, 5, tags=['compexit']),
            Row('P', 'e1', 'S3', None, 6, tags=['compexit']),
            Row('S3', None, 'S1', 7, 7, tags=['anon']),
            Row('S3', 'e3', 'S1', None, 8, tags=['plain']),
        ]),
        'P': St(entry=20, exit=21, rows=[Row('*C1', 'e3', 'C2', 9, 9, tags=['plain'])], internal=[Internal('e4', 10, 10, tags=['internal'])]),
        'S1': St(entry=22, exit=23, defer=['e3']),
    }, maxq=2, empty=True)


@machine
def emptydeps():
    """empty events in two regions with a dependency"""
    return Machine('emptydeps', {
        'M': St(handler=40, rows=[
            Row('*A1', 'e1', 'A2', 1, 1, tags=['region']),
            Row('A2', 'e1', 'A1', 2, 2, tags=['region']),
            Row('*B1', 'e1', 'B2', 3, 3, tags=['region']),
            Row('B2', 'e2', 'B1', None, 4, tags=['region']),
        ]),
    }, deps=1, empty=True, starts=False)


@machine
def nested():
    """callbacks (actions, entry and exit actions, the handler) that process an event themselves"""
    return Machine('nested', {
        'M': St(handler=40, rows=[
            Row('*S1', 'e1', 'S2', 1, 1, tags=['plain']),
            Row('S1', 'e2', 'P', 2, 2, tags=['composite']),
            Row('S2', 'e2', 'S1', None, 3, tags=['plain']),
            Row('P', 'e3', 'S1', 4, 4, tags=['compexit']),
        ]),
        'P': St(entry=24, rows=[
            Row('*C', 'e1', 'D', 5, 5, tags=['plain']),
            Row('D', 'e1', 'C', None, 6, tags=['plain']),
            Row('D', 'e2', 'D', 7, 7, tags=['plain', 'self']),
        ], internal=[Internal('e4', 8, 8, tags=['internal'])]),
        'S1': St(entry=20, exit=21), 'C': St(entry=22), 'D': St(exit=23),
    }, nest={1: 'e2', 4: 'e1', 5: 'e3', 20: 'e1', 21: 'e2', 24: 'e3', 23: 'e1', 40: 'e1', 7: 'e1', 8: 'e1'})


@machine
def nestedregions():
    """actions that process an event, in orthogonal regions and across changes of the parent state"""
    return Machine('nestedregions', {
        'M': St(handler=40, rows=[
            Row('*A1', 'e1', 'A2', 1, 1, tags=['region']),
            Row('A2', 'e2', 'A1', 2, 2, tags=['region']),
            Row('A2', 'e3', 'P', None, 7, tags=['composite', 'region']),
            Row('P', 'e3', 'A1', None, 8, tags=['compexit', 'region']),
            Row('*B1', 'e1', 'B2', 3, 3, tags=['region']),
            Row('B2', 'e2', 'B1', 4, 4, tags=['region']),
            Row('B1', 'e2', 'B3', None, 5, tags=['region']),
            Row('B3', 'e1', 'B1', None, 6, tags=['region']),
            Row('B1', 'e3', 'P', None, 13, tags=['composite', 'region']),
        ]),
        'P': St(rows=[
            Row('*C1', 'e1', 'C2', None, 9, tags=['region']),
            Row('C2', 'e2', 'C1', 10, 10, tags=['region']),
            Row('*D1', 'e1', 'D2', None, 11, tags=['region']),
            Row('D2', 'e2', 'D1', 12, 12, tags=['region']),
        ]),
    }, starts=False, nest={1: 'e2', 4: 'e1', 5: 'e1', 2: 'e2', 7: 'e1', 9: 'e2', 11: 'e2'})


@machine
def nesteddefer():
    """actions that process events which are deferred or make deferred events due"""
    return Machine('nesteddefer', {
        'M': St(handler=40, rows=[
            Row('*S1', 'e1', 'S2', 1, 1, tags=['plain']),
            Row('S2', 'e3', 'S1', None, 2, tags=['plain']),
            Row('S1', 'e2', 'S3', 3, 3, tags=['plain']),
            Row('S3', 'e3', 'S1', None, 4, tags=['plain']),
        ]),
        'S2': St(defer=['e2']), 'S3': St(defer=['e1', 'e2']),
    }, maxq=4, starts=False, rich=True, nest={1: 'e2', 2: 'e1', 3: 'e3', 4: 'e2'})


@machine
def nestedanon():
    """actions that process an event before and during completion transitions"""
    return Machine('nestedanon', {
        'M': St(handler=40, rows=[
            Row('*S1', 'e1', 'S2', 1, 1, tags=['plain']),
            Row('S2', None, 'S3', 2, 2, tags=['anon']),
            Row('S3', 'e2', 'S1', None, 3, tags=['plain']),
            Row('S3', None, 'S1', 4, 4, tags=['anon']),
            Row('S2', 'e2', 'S3', 5, 5, tags=['plain']),
        ]),
    }, maxg=9, starts=False, nest={1: 'e2', 2: 'e2', 3: 'e1', 5: 'e2'})


@machine
def rootinternal():
    """internal transitions of the root state, which apply in all of its states and in no sub state"""
    return Machine('rootinternal', {
        'M': St(handler=40, rows=[
            Row('*A1', 'e1', 'A2', None, 1, tags=['region']),
            Row('A2', 'e1', 'P', 2, 2, tags=['composite', 'region']),
            Row('P', 'e1', 'A1', 3, 3, tags=['compexit', 'region']),
            Row('*B1', 'e2', 'B2', None, 4, tags=['region']),
            Row('B2', 'e2', 'B1', 5, 5, tags=['region']),
            Row('B2', 'e3', 'B2', 6, 6, tags=['region', 'self']),
        ], internal=[Internal('e3', 7, 7, tags=['internal']), Internal('e4', None, 8, tags=['internal'])]),
        'P': St(entry=20, exit=21, rows=[
            Row('*C1', 'e2', 'C2', 9, 9, tags=['plain']),
            Row('C2', 'e4', 'C1', None, 10, tags=['plain']),
        ], internal=[Internal('e3', 11, 11, tags=['internal'])]),
        'A1': St(entry=22, exit=23),
    }, starts=False)


@machine
def deep():
    """five levels of composites, entered and left at each of them, with rows, internal rows, history and
    deferral on the way"""
    def level(i, sub, **kw):
        rows = [Row('*C%d' % i, 'e1', sub, None, 10 * i, tags=['composite']),
                Row(sub, 'e2', 'C%d' % i, 10 * i + 1, 10 * i + 1, tags=['compexit']),
                Row('C%d' % i, 'e2', 'D%d' % i, None, 10 * i + 2, tags=['plain']),
                Row('D%d' % i, 'e1', 'C%d' % i, None, 10 * i + 3, tags=['plain'])]
        return St(entry=100 + i, exit=110 + i, rows=rows, internal=[Internal('e3', None, 10 * i + 4, tags=['internal'])], **kw)
    return Machine('deep', {
        'M': St(handler=140, rows=[
            Row('*S', 'e1', 'P1', None, 1, tags=['composite']),
            Row('P1', 'e2', 'S', 2, 2, tags=['compexit']),
            Row('S', 'e4', ('direct', 'P5', 'E2'), None, 3, tags=['pseudo']),
            Row('S', 'e2', ('history', 'P3'), None, 4, tags=['history']),
            Row(('exit', 'P5', 'E2'), 'e4', 'S', 5, 5, tags=['pseudo']),
            Row(('exit', 'P3', 'D3'), 'e4', ('history', 'P2'), None, 6, tags=['history', 'pseudo']),
        ]),
        'P1': level(1, 'P2'), 'P2': level(2, 'P3'), 'P3': level(3, 'P4'), 'P4': level(4, 'P5'),
        'P5': St(entry=105, exit=115, rows=[
            Row('*E1', 'e1', 'E2', 7, 7, tags=['plain']),
            Row('E2', 'e1', 'E1', None, 8, tags=['plain']),
            Row('E1', 'e2', 'P2', None, 9, tags=['composite']),
        ], internal=[Internal('e3', 8, 60, tags=['internal'])]),
        'C3': St(entry=120, exit=121),
    }, starts=False)
