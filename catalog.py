#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: python3 catalog.py rewrites both."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
SM = 'include/hsm/details/sm.h'
FILL = 'include/hsm/details/fill_dispatch_table.h'
FLAT = 'include/hsm/details/flatten_transition_table.h'
FLATI = 'include/hsm/details/flatten_internal_transition_table.h'
RES = 'include/hsm/details/resolve_state.h'
DISP = 'include/hsm/details/dispatch_table.h'
TRT = 'include/hsm/details/transition_table_traits.h'
TRAITS = 'include/hsm/details/traits.h'
IDX = 'include/hsm/details/idx.h'
STATES = 'include/hsm/details/collect_states.h'
INIT = 'include/hsm/details/collect_initial_states.h'
PAR = 'include/hsm/details/collect_parent_states.h'
VQ = 'include/hsm/details/variant_queue.h'
DUP = 'include/hsm/details/utils/dunique_ptr.h'
DSL = 'include/hsm/front/transition_dsl.h'
TUP = 'include/hsm/front/transition_tuple.h'
TRANS = 'include/hsm/details/transition.h'
HIST = 'every sequence of events, set() calls and guard outcomes'
PROG = 'every machine that uses the feature'

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, na=na))


AI = 'interprocedural abstract interpretation of the compiled headers to a fixpoint over machine states, checked against the declared transition table'
NOTE = ('Holds for every event history, guard outcome and event content of the witness machines listed in the evidence (fixpoint, no '
        'bound except the deferral queue length); other machines instantiate the same templates but are not analysed. Trusts the '
        'clang 18 front end, the abstract model of std::deque/std::vector and that callbacks do not throw (exceptions are the subject of C32, events processed from within callbacks of C25).')

prop('C01', 'A transition takes effect only if its guard accepts',
     'A declared transition runs its action and changes the state only in a call in which its guard was evaluated for this event and returned true; a transition without guard always qualifies. If a guard returns false, the row has no effect at all: no action, no entry or exit action, no state change.',
     ['inputs', 'histories', 'programs'], HIST + ', every combination of guard results, every row of a table',
     'The tests run one or two fixed constant guards per feature; guard results are free booleans at every evaluation and every history.',
     [SM, DISP], [('guard checked before the state update and the action', SM + ' process_event / process_anonymous_transitions'), ('executeGuard', DISP)])
prop('C02', 'Every active region is offered each event once; the first accepting row wins',
     'Processing an event offers it to every active orthogonal region in declaration order of the regions, exactly once per region. In a region the candidate rows are tried in priority order, each guard is evaluated at most once per event, evaluation stops at the first row that accepts, and at most one row fires per region.',
     ['inputs', 'histories', 'programs'], HIST + ' and every assignment of guard results in up to four regions',
     'Tests fire a few events on a two- or three-region machine with constant guards; the number of guard evaluations and their order is never observed.',
     [SM], [('region loop and candidate loop', SM + ' process_event')])
prop('C03', 'The result of processing an event tells whether a transition fired',
     'Processing an event returns true exactly if at least one region executed a transition for that event (internal transitions included), and false if no row exists in any active region, if all guards rejected or if the event was deferred. Completion transitions and redelivered events do not change the result.',
     ['inputs', 'histories', 'programs'], HIST + ', all mixes of absent, rejected, deferred and firing rows over the regions',
     'Existing tests check four single-region cases; mixes over regions and deferral are not sampled.',
     [SM], [('result enumeration and switch', SM + ' process_event / process_event')])
prop('C04', 'The unexpected-event handler runs exactly when no row applies',
     'The handler of the root state is called exactly once for an event for which no active region has any row and which is not deferred, with that event, the current state of the first region and the dependencies. It is never called if some row existed, even when all guards rejected, and the machine does not change state.',
     ['inputs', 'histories', 'programs'], HIST + ' in all states of flat, nested and orthogonal machines',
     'Tests call one undefined event in one or two states.',
     [SM, 'include/hsm/details/fill_unexpected_event_handler_tables.h', 'include/hsm/details/make_unexpected_event_handler_tables.h'],
     [('call_unexpected_event_handler', SM), ('one handler entry per event and combined state', 'include/hsm/details/fill_unexpected_event_handler_tables.h')])
prop('C05', 'Exit action, transition action and entry actions run once, in this order',
     'A transition between two states runs the exit action of its source, then its own action, then the entry action of its target and, when a composite is entered, the entry action of its initial sub state; each runs exactly once per fired transition, and self transitions run them too. Internal transitions run neither exit nor entry actions.',
     ['inputs', 'histories', 'programs'], HIST + ', every row kind',
     'Tests count calls of a few entry/exit actions; combinations with guards, completion, pseudo states, history and regions and the relative order are not covered.',
     [RES, 'include/hsm/details/has_action.h'], [('composition of exit, transition, entry and initial entry action', RES + ' resolveEntryExitAction')])
prop('C06', 'Guards and actions receive the event, states and dependencies of their row',
     'Every guard, action, entry and exit action and handler is called with the very event object being processed, the state objects of the source and the target of its row (the source twice for internal transitions) and the registered dependencies in declaration order, all by reference; redelivered events carry the content of the event that was deferred.',
     ['inputs', 'histories', 'programs'], HIST + ' and every event content',
     'Tests look at a data member of one event and one state; the identity of the objects passed is never compared over rows, regions and nesting.',
     [DISP, FILL, RES], [('arguments bound per table entry', DISP + ' DispatchTableEntry'), ('source and target looked up in the states map', FILL)])
prop('C07', 'A fired transition leads exactly to its declared target',
     'After a row fired, the region that fired it is in the declared target state, inside the parent state the target belongs to, or in the initial state of the target if that is a composite; all other regions keep their states. If no row fires, no region changes.',
     ['inputs', 'histories', 'programs'], HIST + '; state spaces with hundreds of parent/state combinations',
     'Tests check single steps; the index arithmetic of combined states depends on the number of states and parents of the whole program.',
     [SM, FILL, IDX, TRT, STATES], [('combined state index', IDX), ('table entry stores the combined index of the target', FILL), ('update_current_state', SM)])
prop('C08', 'Direct, entry and exit pseudo states enter and leave exactly the named sub state',
     'A transition to a direct or entry pseudo state puts the machine into the named sub state of the named composite instead of its initial state; a row whose source is an exit pseudo state or a direct state applies exactly when the machine is in that sub state of that composite.',
     ['histories', 'programs'], HIST + '; states shared by several composites',
     'Tests take each pseudo state once on one composite.',
     [RES, TRT, TRAITS, FLAT], [('resolveDst / resolveSrc and parents', RES), ('pseudo states', 'include/hsm/details/pseudo_states.h')])
prop('C09', 'Rows leaving a composite apply in each of its sub states',
     'A row whose source is a composite state applies for as long as the machine is in any of the direct sub states of that composite, whatever sub state that is and however it was reached, and it applies in no other state.',
     ['histories', 'programs'], HIST + '; every sub state, regions included',
     'Tests leave a composite from its initial sub state.',
     [FLAT, TRT], [('extension of composite rows to the sub states', FLAT + ' / ' + TRT)])
prop('C10', 'Internal transitions run their action and change nothing',
     'An internal transition of a state applies exactly while the machine is in this state (or in a sub state of the composite that declares it), runs guard and action once with the active state, and neither changes the state of any region nor the history nor runs entry or exit actions.',
     ['inputs', 'histories', 'programs'], HIST + '; plain, composite, pseudo-entered and nested declaring states',
     'Tests check reachability of a few internal rows on one machine.',
     [FLATI, FILL, SM], [('collection of internal tables', FLATI), ('internal flag of a table entry', FILL + ', ' + SM + ' update_current_state')])
prop('C11', 'Completion transitions are taken until none is enabled',
     'After an event was processed, completion transitions (rows without event) of the states reached are taken, in all regions, until no enabled one is left; their guards and actions see no user event, and they are not evaluated after events which fired no transition.',
     ['inputs', 'histories', 'programs'], HIST + ' with guarded and unguarded chains of completion rows in one and two regions',
     'Tests take single unguarded completion rows.',
     [SM], [('process_anonymous_transitions', SM)])
prop('C12', 'A deferred event is kept and redelivered, in order, after a processed event',
     'An event which a current state defers and which no region processes is kept unchanged, without calling guards, actions or the handler. After each processed event exactly the oldest kept event is delivered again, once, with its original content, and if it is then deferred again it becomes the youngest; no kept event is lost, duplicated or changed before its delivery.',
     ['inputs', 'histories', 'programs'], HIST + ' with up to the queue bound of pending events; regions and sub states deferring',
     'Tests defer one event or two and release them at once.',
     [SM, VQ, FILL], [('defer queue', SM + ' process_deferred_events'), ('deferring entries of the tables', FILL + ' fill_dispatch_table_with_deferred_events')])
prop('C13', 'History restores the sub state that was last active',
     'A transition to the history of a composite resumes, in every region, the sub state which was active when the composite was last left; if it was never left, its initial sub state is entered.',
     ['histories', 'programs'], HIST + '; repeated exits and re-entries, several composites, several regions',
     'Tests leave and resume one composite once.',
     [SM, RES], [('history table per parent and region', SM + ' update_current_state / init_history')])
prop('C14', 'Machines start in their initial states; entering activates the declared regions',
     'A new machine is in the initial state of every declared region, without having called any callback. Whenever the parent state of the machine changes, exactly the regions declared by the new parent are active, and each newly active region is in its initial state (or in the resumed one for history).',
     ['histories', 'programs'], HIST + '; parents with different numbers of regions entered and left in all orders',
     'Tests build one machine with a fixed number of regions and never change the number of active regions back and forth.',
     [SM, INIT, TRT], [('init_current_state, update_current_regions', SM), ('fill_initial_state_table', INIT)])
prop('C15', 'Callbacks always see the registered dependencies, also after replacing them',
     'Every callback receives the dependencies given at construction, in order and by reference; after they have been replaced, every later callback receives exactly the new ones, no row fires twice or gets lost, and the state of the machine, its history and its kept events are unchanged.',
     ['histories', 'programs'], HIST + ', replacement at any point of the history',
     'Tests replace a dependency once at the start.',
     [SM, DISP, FILL], [('set_dependency', SM), ('m_optionalDependency', DISP)])
prop('C16', 'There is one object per declared state for the life of the machine',
     'All rows, parents, guards and actions that refer to a state see the same state object, and the machine itself never modifies it. For states that cannot be default-constructed, the object made by the creating row is the one later rows and reusing rows see, and it is replaced only by a new creation.',
     ['histories', 'programs'], HIST + ' and all rows sharing states',
     'Tests write one data member and read it back once.',
     ['include/hsm/details/make_states_map.h', FILL, 'include/hsm/details/create_state.h', 'include/hsm/details/reuse_state.h'],
     [('states map', 'include/hsm/details/make_states_map.h'), ('create_state / reuse_state', 'include/hsm/details/create_state.h')],
     technique='abstract interpretation with an object-identity (alias) domain for the state objects, over all reachable machine states')
prop('C17', 'State queries and set() agree with each other and have no side effects',
     'Asking for the current state, parent or region answers true exactly for the state the machine is in, changes nothing and calls nothing; asking for a region the machine does not have raises an out-of-range error. Setting a state makes exactly the queries of that state true, activates the regions of its parent and calls no callbacks.',
     ['inputs', 'histories', 'programs'], 'every reachable machine state, every declared state, parent and region number',
     'Tests query the state just entered; negative answers and other regions are rarely asked.',
     [SM, IDX, STATES, PAR], [('is / parent_is / set', SM), ('index maps', IDX)],
     technique='abstract interpretation of every query and set instantiation in every reachable abstract machine state (effect and result analysis)')
prop('C18', 'Ill-formed machines are rejected at compile time, documented notations accepted',
     'A program does not compile if its machine has no or an empty transition table, no initial state in a table, or an initial state of its root table with sub states or internal transitions, if it processes an event or sets a state or parent that no table mentions, if it copies a machine, or if dependencies do not match. Every documented notation compiles in the supported language versions.',
     ['programs'], 'programs, each ill-formed in one construct, and the documented notations',
     'A test suite that has to compile cannot contain a program that must not.',
     [SM, TRT, DSL, TUP, DUP], [('static assertions', SM + ' constructor, process_event, set'), ('deleted copy of the owning pointer', DUP)],
     technique='compile-fail and compile-pass witness pairs decided by the clang type checker',
     note='Decides the listed witness programs (each ill-formed one next to a well-formed twin); says nothing about diagnostics texts. Trusts the clang 18 front end.')
prop('C19', 'Candidates of a state and event are exactly the declared rows, in priority order',
     'In every state the rows considered for an event are exactly the rows declared for that state and event (with the rows inherited from the composite), every row once, none missing, none of another state or event; external rows have priority over internal ones and, among those of one kind, the row declared later over the row declared earlier.',
     ['inputs', 'histories', 'programs'], 'every reachable state, every event, all guard results (which reveal the full candidate list)',
     'Tests have at most two candidates per state and event and constant guards, so that later candidates are never seen.',
     [FLAT, FLATI, FILL, 'include/hsm/details/make_dispatch_tables.h'], [('flattening', FLAT), ('table filling', FILL)])
prop('C20', 'A state used in several parents is kept apart by its parent',
     'If the same state appears in several composites (or in a composite and the root), its rows, history, completion and queries in one parent are independent of those in the other: a row declared in one parent never applies in the other.',
     ['histories', 'programs'], HIST + '; states shared by two to many parents, up to hundreds of combinations',
     'Tests share at most one state between two parents.',
     [IDX, STATES, PAR], [('combined index of parent and state', IDX)])
prop('C21', 'The event queue is first-in first-out for mixed event types',
     'Events of different types put into the queue come out one per delivery in the order they were put in, with the type and the content they had, whatever is put in meanwhile, including from within a delivery. An empty queue reports so and delivering from it raises an error; deferred events of a machine are delivered in that order.',
     ['inputs', 'histories'], 'all interleavings of put and deliver of several event types, all contents',
     'Unit tests push two events.',
     [VQ], [('std::variant in a std::queue', VQ)],
     technique='abstract interpretation of the queue operations to a fixpoint over queue contents (symbolic contents, bounded length)')
prop('C22', 'Every heap object of a machine has one owner and is freed exactly once',
     'Owning pointers hand over, replace, release and destroy their object exactly once in every sequence of operations; destroying a machine in any state it can reach, with any pending events, frees everything it allocated exactly once and calls no callbacks.',
     ['histories'], 'all operation sequences on two owners; destruction in every reachable machine state',
     'Leaks and double frees are invisible to the assertions of the tests.',
     [DUP, SM, 'include/hsm/details/make_dispatch_tables.h'], [('dunique_ptr', DUP), ('tables of owned entries', DISP)],
     technique='ownership (typestate) analysis by abstract interpretation with an allocation-site heap')
prop('C23', 'Prefix, postfix and function notations of a table mean the same machine',
     'A transition table written with the prefix operators, with the postfix operators or with plain function calls denotes the same machine: same candidates, guards, actions, targets, initial states, internal and completion rows and pseudo states in every history.',
     ['histories', 'programs'], 'every row form in the three notations, ' + HIST,
     'Tests try a few row forms per notation and never compare notations.',
     [DSL, TUP, TRANS], [('operators', DSL), ('functions', TUP), ('row classes', TRANS)],
     technique='equivalence by abstract interpretation: each notation against the same reference relation')
prop('C24', 'Chained actions run all, once, in order, with the same arguments',
     'A chain of actions behaves like one action that runs each of its members exactly once, in the order written, each with the same event, state and dependency objects; chains nest and may be used wherever an action may.',
     ['inputs', 'histories', 'programs'], HIST + '; chains of one to four and nested chains in external, internal and completion rows',
     'Tests chain two actions once.',
     ['include/hsm/details/chain_actions.h'], [('chain_actions', 'include/hsm/details/chain_actions.h')])
prop('C25', 'An event processed from within a callback is handled completely, in place',
     'An event that an action, an entry or exit action or a handler for unexpected events processes on its own machine is handled completely before that call returns: guards, actions, state changes, completion, deferral and redelivery and the result are those the event would have had if it had arrived in the state the machine reports to that callback; the outer event then goes on from the resulting state (its remaining callbacks, completion, other regions and redelivery still happen), and nothing kept is lost or delivered twice.',
     ['histories', 'programs'], HIST + '; every callback but guards as the one that processes a further event',
     'No test processes an event from within a callback.',
     [SM, VQ], [('process_event', SM), ('process_deferred_queue', SM)],
     note='Holds for every event history and guard outcome of the witness machines listed in the evidence, in which events are processed from actions, entry and '
          'exit actions, chained and completion actions and handlers; a callback that belongs to such an inner event does not process a further one. '
          'Other machines instantiate the same templates but are not analysed. Trusts the clang 18 front end and the abstract model of std::deque/std::vector.')
prop('C26', 'Machines are independent of each other',
     'Two machines of the same type do not influence each other: no event, state change, deferred event, history, dependency or destruction of one is visible in the other, and the library keeps no modifiable global state.',
     ['histories', 'schedules'], 'all interleavings of events on two machines with different dependencies',
     'Every test uses one machine.',
     [SM, FILL], [('all tables are members', SM)],
     technique='non-interference analysis: product of two machines in one abstract heap plus a write-effect analysis of globals')
prop('C27', 'The state changes before the action and after the guard of a row',
     'While a guard runs, the machine reports the state it was in before the transition; while the action and the entry and exit actions of a fired transition run, it already reports the target state.',
     ['inputs', 'histories', 'programs'], HIST + ', observed at every callback',
     'No test queries the machine from inside a callback.',
     [SM], [('update_current_state before executeAction', SM)])
prop('C28', 'No event history leads to undefined behaviour or a hang inside the library',
     'Constructing, using and destroying a machine never reads uninitialised or freed memory, never indexes outside a table, never dereferences a null entry, never frees twice, throws nothing and terminates, for every history in which callbacks return normally and completion guards do not stay enabled forever.',
     ['inputs', 'histories', 'programs'], HIST + ', including destruction in every reachable state',
     'The tests run without sanitizers and on a few histories.',
     [SM, FILL, 'include/hsm/details/make_dispatch_tables.h', VQ], [('sizes of tables from type-level counts', 'include/hsm/details/make_dispatch_tables.h')],
     technique='memory-safety analysis by abstract interpretation (bounds, initialisation, lifetime and null domains) of all instantiations')
prop('C30', 'A moved machine continues where the original was',
     'After a machine is moved (by construction or assignment), the new machine behaves as the original would have: same state, history, kept events, dependencies and rows; the original can be destroyed at any time without affecting it, and nothing is leaked or freed twice.',
     ['histories', 'programs'], 'moving in every reachable state, followed by every history',
     'No test moves a machine.',
     [SM, DUP, VQ], [('implicit move of the members', SM), ('move of the owning pointer', DUP)],
     technique='abstract interpretation: move in every reachable state, then fixpoint over the histories of the moved machine with the original destroyed')
prop('C31', 'Completion terminates',
     'Processing an event returns: the sequence of completion transitions started by one event is finite.',
     ['inputs', 'programs'], 'every machine and every guard behaviour',
     'Termination is a statement about user-supplied guards.',
     [SM], [('process_anonymous_transitions', SM)],
     na='Whether a chain of completion transitions ends depends on the return values of user guards over time, which no static argument on the library bounds; the library part (the loop ends as soon as no enabled row is left) is decided under C11 and C28.')
prop('C32', 'A callback that throws leaves the machine consistent and usable',
     'If a guard, an action, an entry or exit action or a handler throws, the exception reaches the caller of process_event and no further callback runs. What was done before stays done and nothing is done after: a row whose guard throws does not change the state, a row whose action, entry or exit action throws has reached its target state, rows of other regions that fired before stay fired, and events kept for later stay kept except the one being delivered. The machine can go on processing events from that state, and be destroyed, with nothing leaked, freed twice or left locked.',
     ['fault_sequences', 'histories', 'programs'], HIST + '; every callback of every history as the throwing one, any number of times',
     'No test throws.',
     [SM, VQ, 'include/hsm/details/transition.h'], [('no exception handling in the library', SM), ('pop before visit', VQ)],
     technique='abstract interpretation with exceptional control flow (invoke edges, landing pads and cleanups of the compiled headers) and an allocation-site heap, checked against the declared transition table',
     note='Holds for every event history, guard outcome and choice of throwing callbacks of the witness machines listed in the evidence (fixpoint, no bound except '
          'the deferral queue length). The exception is of a type of the user: typed catch clauses in the library may or may not match. Exceptions from '
          'allocation or from copying events are not considered. Trusts the clang 18 front end and the abstract model of std::deque/std::vector.')


def write():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in sorted(P, key=lambda p: p['id']):
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                            'observe_at': p['observe'] or ['include/hsm/hsm.h (public API: process_event, is, parent_is, set, callbacks)'],
                            'hook_needed': None}}) + '\n')
    sys.path.insert(0, os.path.join(HERE, 'py'))
    import props
    claimed = [p for p in P if not p['na']]
    assert sorted(p['id'] for p in claimed) == sorted(props.PROPS), set(props.PROPS) ^ {p['id'] for p in claimed}
    man = {'version': 1, 'setup_cmd': 'python3 check.py --setup',
           'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
                       'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                       'technique': p['technique'] or AI, 'level': 'other', 'level_note': p['note'] or NOTE}
                      for p in sorted(claimed, key=lambda p: p['id'])],
           'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in P if p['na']]}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    write()
