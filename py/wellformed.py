"""Compile-time witnesses: ill-formed programs which the front end has to reject, each next to a well-formed
twin that differs in exactly the offending construct and has to be accepted (so that a rejection is not
an accident of the witness), and the documented notations, accepted as C++17 and C++20."""

PRE = '''
#include "%(header)s"
#include <memory>
#include <utility>
namespace {
struct e1 {}; struct e2 {}; struct e3 {}; struct nowhere {}; struct S1 {}; struct S2 {}; struct S3 {}; struct S4 {}; struct Stranger {};
struct Dep { int i = 0; };
struct A0 { template <class... T> constexpr void operator()(T&&...) const {} };
struct G0 { template <class... T> constexpr bool operator()(T&&...) const { return true; } };
using hsm::state; using hsm::event; using hsm::event_t; using hsm::transition_table; using hsm::transition;
%(types)s
}
int main() { %(body)s }
'''

M1 = 'struct M { static constexpr auto make_transition_table() { return transition_table(%s); } };'
BASIC = M1 % '* state<S1> + event<e1> = state<S2>, state<S2> + event<e2> = state<S1>'
NESTED = ('struct SubState { static constexpr auto make_transition_table() { return transition_table(* state<S3> + event<e1> = state<S4>); } };'
          + M1 % '* state<S1> + event<e1> = state<SubState>, state<SubState> + event<e2> = state<S1>')
SUBN = 'struct SubState { static constexpr auto make_transition_table() { return transition_table(%s); } };'
RUN = 'hsm::sm<M> sm; sm.process_event(e1 {});'

# (name, types, body) pairs: ill-formed, well-formed
PAIRS = [
    ('no transition table', ('struct M { };', 'hsm::sm<M> sm;'), (BASIC, 'hsm::sm<M> sm;')),
    ('transition table of another name',
     ('struct M { static constexpr auto transitions() { return transition_table(* state<S1> + event<e1> = state<S2>); } };', 'hsm::sm<M> sm;'),
     (BASIC, 'hsm::sm<M> sm;')),
    ('empty transition table', (M1 % '', 'hsm::sm<M> sm;'), (M1 % '* state<S1> + event<e1> = state<S1>', 'hsm::sm<M> sm;')),
    ('no initial state', (M1 % 'state<S1> + event<e1> = state<S2>, state<S2> + event<e2> = state<S1>', 'hsm::sm<M> sm;'), (BASIC, 'hsm::sm<M> sm;')),
    ('no initial state, one row', (M1 % 'state<S1> + event<e1> = state<S2>', 'hsm::sm<M> sm;'),
     (M1 % '* state<S1> + event<e1> = state<S2>', 'hsm::sm<M> sm;')),
    ('initial state with sub states',
     ('struct SubState { static constexpr auto make_transition_table() { return transition_table(* state<S3> + event<e1> = state<S4>); } };'
      + M1 % '* state<SubState> + event<e1> = state<S1>, state<S1> + event<e2> = state<SubState>', 'hsm::sm<M> sm;'),
     (NESTED, 'hsm::sm<M> sm;')),
    ('second initial state with sub states',
     ('struct SubState { static constexpr auto make_transition_table() { return transition_table(* state<S3> + event<e1> = state<S4>); } };'
      + M1 % '* state<S1> + event<e1> = state<S2>, * state<SubState> + event<e2> = state<S1>', 'hsm::sm<M> sm;'),
     ('struct SubState { static constexpr auto make_transition_table() { return transition_table(* state<S3> + event<e1> = state<S4>); } };'
      + M1 % '* state<S1> + event<e1> = state<S2>, state<SubState> + event<e2> = state<S1>', 'hsm::sm<M> sm;')),
    ('third initial state with sub states',
     ('struct SubState { static constexpr auto make_transition_table() { return transition_table(* state<S3> + event<e1> = state<S4>); } };'
      + M1 % '* state<S1> + event<e1> = state<S2>, * state<S3> + event<e1> = state<S4>, * state<SubState> + event<e2> = state<S1>', 'hsm::sm<M> sm;'),
     ('struct SubState { static constexpr auto make_transition_table() { return transition_table(* state<S3> + event<e1> = state<S4>); } };'
      + M1 % '* state<S1> + event<e1> = state<S2>, * state<S3> + event<e1> = state<S4>, state<SubState> + event<e2> = state<S1>', 'hsm::sm<M> sm;')),
    ('initial state with internal transitions',
     ('struct I { static constexpr auto make_internal_transition_table() { return transition_table(+ (event<e3> / A0 {})); } };'
      + M1 % '* state<I> + event<e1> = state<S2>, state<S2> + event<e2> = state<I>', 'hsm::sm<M> sm;'),
     ('struct I { static constexpr auto make_internal_transition_table() { return transition_table(+ (event<e3> / A0 {})); } };'
      + M1 % '* state<S2> + event<e1> = state<I>, state<I> + event<e2> = state<S2>', 'hsm::sm<M> sm;')),
    ('second initial state with internal transitions',
     ('struct I { static constexpr auto make_internal_transition_table() { return transition_table(+ (event<e3> / A0 {})); } };'
      + M1 % '* state<S1> + event<e1> = state<S2>, * state<I> + event<e2> = state<S3>', 'hsm::sm<M> sm;'),
     ('struct I { static constexpr auto make_internal_transition_table() { return transition_table(+ (event<e3> / A0 {})); } };'
      + M1 % '* state<S1> + event<e1> = state<S2>, * state<S4> + event<e2> = state<I>', 'hsm::sm<M> sm;')),
    ('unknown event', (BASIC, 'hsm::sm<M> sm; sm.process_event(nowhere {});'), (BASIC, 'hsm::sm<M> sm; sm.process_event(e2 {});')),
    ('unknown event as lvalue', (BASIC, 'hsm::sm<M> sm; nowhere e; sm.process_event(e);'), (BASIC, 'hsm::sm<M> sm; e2 e; sm.process_event(e);')),
    ('unknown event of a nested machine', (NESTED, 'hsm::sm<M> sm; sm.process_event(nowhere {});'), (NESTED, 'hsm::sm<M> sm; sm.process_event(e2 {});')),
    ('event whose base class is in the table', ('struct derived : e1 {};' + BASIC, 'hsm::sm<M> sm; sm.process_event(derived {});'),
     ('struct derived : e1 {};' + BASIC, 'hsm::sm<M> sm; derived e; sm.process_event(static_cast<e1&>(e));')),
    ('set() to an unknown state', (BASIC, 'hsm::sm<M> sm; sm.set(state<Stranger>);'), (BASIC, 'hsm::sm<M> sm; sm.set(state<S2>);')),
    ('set() with parent to an unknown state', (NESTED, 'hsm::sm<M> sm; sm.set(state<SubState>, state<Stranger>);'),
     (NESTED, 'hsm::sm<M> sm; sm.set(state<SubState>, state<S4>);')),
    ('set() to an unknown parent', (NESTED, 'hsm::sm<M> sm; sm.set(state<Stranger>, state<S4>);'),
     (NESTED, 'hsm::sm<M> sm; sm.set(state<SubState>, state<S4>);')),
    ('set() to a parent without sub states', (NESTED, 'hsm::sm<M> sm; sm.set(state<S1>, state<S4>);'),
     (NESTED, 'hsm::sm<M> sm; sm.set(state<M>, state<S1>);')),
    ('set() of a region to a parent without sub states', (NESTED, 'hsm::sm<M> sm; sm.set(0, state<S1>, state<S4>);'),
     (NESTED, 'hsm::sm<M> sm; sm.set(0, state<M>, state<S1>);')),
    ('set() to a sub state as parent', (NESTED, 'hsm::sm<M> sm; sm.set(state<S4>, state<S3>);'),
     (NESTED, 'hsm::sm<M> sm; sm.set(state<SubState>, state<S3>);')),
    ('set() to an event as parent', (NESTED, 'hsm::sm<M> sm; sm.set(state<e1>, state<S1>);'),
     (NESTED, 'hsm::sm<M> sm; sm.set(state<M>, state<S1>);')),
    ('set() to an event', (NESTED, 'hsm::sm<M> sm; sm.set(state<M>, state<e1>);'),
     (NESTED, 'hsm::sm<M> sm; sm.set(state<M>, state<S1>);')),
    ('initial state only in a nested table', (SUBN % '* state<S3> + event<e1> = state<S4>' + M1 % 'state<S1> + event<e1> = state<SubState>, state<SubState> + event<e2> = state<S1>', 'hsm::sm<M> sm;'),
     (NESTED, 'hsm::sm<M> sm;')),
    ('nested table without initial state', (SUBN % 'state<S3> + event<e1> = state<S4>' + M1 % '* state<S1> + event<e1> = state<SubState>, state<SubState> + event<e2> = state<S1>', 'hsm::sm<M> sm;'),
     (NESTED, 'hsm::sm<M> sm;')),
    ('empty nested table', (SUBN % '' + M1 % '* state<S1> + event<e1> = state<SubState>, state<SubState> + event<e2> = state<S1>', 'hsm::sm<M> sm;'),
     (NESTED, 'hsm::sm<M> sm;')),
    ('state as event', (BASIC, 'hsm::sm<M> sm; sm.process_event(S1 {});'), (BASIC, 'hsm::sm<M> sm; sm.process_event(e1 {});')),
    ('pointer to an event', (BASIC, 'hsm::sm<M> sm; e1 e; sm.process_event(&e);'), (BASIC, 'hsm::sm<M> sm; e1 e; sm.process_event(e);')),
    ('set_dependency() without dependency', (BASIC, 'Dep d; hsm::sm<M, Dep> sm { d }; sm.set_dependency();'),
     (BASIC, 'Dep d; hsm::sm<M, Dep> sm { d }; sm.set_dependency(d);')),
    ('set_dependency() of another type', (BASIC, 'Dep d; S1 s; hsm::sm<M, Dep> sm { d }; sm.set_dependency(s);'),
     (BASIC, 'Dep d; hsm::sm<M, Dep> sm { d }; sm.set_dependency(d);')),
    ('set_dependency() with a superfluous dependency', (BASIC, 'Dep d; hsm::sm<M, Dep> sm { d }; sm.set_dependency(d, d);'),
     (BASIC, 'Dep d; hsm::sm<M, Dep> sm { d }; sm.set_dependency(d);')),
    ('set() of a region to an unknown state', (NESTED, 'hsm::sm<M> sm; sm.set(0, state<SubState>, state<Stranger>);'),
     (NESTED, 'hsm::sm<M> sm; sm.set(0, state<SubState>, state<S3>);')),
    ('set() of a region to an unknown parent', (NESTED, 'hsm::sm<M> sm; sm.set(0, state<Stranger>, state<S3>);'),
     (NESTED, 'hsm::sm<M> sm; sm.set(0, state<SubState>, state<S3>);')),
    ('copy construction', (BASIC, 'hsm::sm<M> a; hsm::sm<M> b(a);'), (BASIC, 'hsm::sm<M> a; hsm::sm<M> b;')),
    ('copy assignment', (BASIC, 'hsm::sm<M> a; hsm::sm<M> b; b = a;'), (BASIC, 'hsm::sm<M> a; hsm::sm<M> b;')),
    ('assignment of a constant machine', (BASIC, 'const hsm::sm<M> a; hsm::sm<M> b; b = a;'), (BASIC, 'hsm::sm<M> a; hsm::sm<M> b;')),
    ('missing dependency', (BASIC, 'hsm::sm<M, Dep> sm;'), (BASIC, 'Dep d; hsm::sm<M, Dep> sm { d };')),
    ('dependency of another type', (BASIC, 'S1 d; hsm::sm<M, Dep> sm { d };'), (BASIC, 'Dep d; hsm::sm<M, Dep> sm { d };')),
    ('temporary dependency', (BASIC, 'hsm::sm<M, Dep> sm { Dep {} };'), (BASIC, 'Dep d; hsm::sm<M, Dep> sm { d };')),
    ('superfluous dependency', (BASIC, 'Dep d; hsm::sm<M> sm { d };'), (BASIC, 'Dep d; hsm::sm<M, Dep> sm { d };')),
]

# notations of the documentation, each accepted as C++17 and C++20
SUB = 'struct SubState { static constexpr auto make_transition_table() { return transition_table(* state<S3> + event<e1> = state<S4>, state<S4> + event<e3> = state<S3>); } };'
OK = [
    ('basic', BASIC, RUN),
    ('guard, action', M1 % '* state<S1> + event<e1> [G0 {}] / A0 {} = state<S2>, state<S2> + event<e2> / A0 {} = state<S1>, state<S2> + event<e3> [G0 {}] = state<S1>', RUN),
    ('lambda guard, action', M1 % '* state<S1> + event<e1> [([](auto&&...) { return true; })] / [](auto&&...) {} = state<S2>', RUN),
    ('postfix', M1 % 'state<S2> <= * state<S1> + event<e1> [G0 {}] / A0 {}, state<S1> <= state<S2> + event<e2>', RUN),
    ('postfix anonymous', M1 % 'state<S2> <= * state<S1> + event<e1>, state<S1> <= state<S2>', RUN),
    ('prefix anonymous', M1 % '* state<S1> + event<e1> = state<S2>, state<S2> [G0 {}] / A0 {} = state<S1>', RUN),
    ('nested', NESTED, RUN + 'sm.is(state<SubState>, state<S3>); sm.parent_is(state<SubState>); sm.set(state<SubState>, state<S4>);'),
    ('event object, temporary, constant', BASIC, 'hsm::sm<M> sm; e1 e; sm.process_event(e); sm.process_event(e1 {}); sm.process_event(std::move(e));'),
    ('direct', SUB + M1 % '* state<S1> + event<e1> = hsm::direct<SubState, S4>, state<SubState> + event<e2> = state<S1>', RUN),
    ('entry pseudo state', SUB + M1 % '* state<S1> + event<e1> = hsm::entry<SubState, S4>, state<SubState> + event<e2> = state<S1>', RUN),
    ('exit pseudo state', SUB + M1 % '* state<S1> + event<e1> = state<SubState>, hsm::exit<SubState, S4> + event<e2> = state<S1>', RUN),
    ('history', SUB + M1 % '* state<S1> + event<e1> = state<SubState>, state<SubState> + event<e2> = state<S1>, state<S1> + event<e3> = hsm::history<SubState>', RUN),
    ('orthogonal regions', M1 % '* state<S1> + event<e1> = state<S2>, * state<S3> + event<e2> = state<S4>', RUN + 'sm.is(0, state<M>, state<S1>); sm.set(1, state<M>, state<S4>);'),
    ('dependencies', BASIC, 'Dep a, b; hsm::sm<M, Dep> sm { a }; sm.set_dependency(b); sm.process_event(e1 {});'),
    ('two dependencies', BASIC, 'Dep a; S4 b; hsm::sm<M, Dep, S4> sm { a, b }; sm.set_dependency(a, b); sm.process_event(e1 {});'),
    ('constant dependency', BASIC, 'const Dep a {}; hsm::sm<M, const Dep> sm { a }; sm.process_event(e1 {});'),
    ('entry and exit actions', 'struct W { static constexpr auto on_entry() { return A0 {}; } static constexpr auto on_exit() { return A0 {}; } };'
     + M1 % '* state<S1> + event<e1> = state<W>, state<W> + event<e2> = state<S1>', RUN),
    ('internal transitions', 'struct I { static constexpr auto make_internal_transition_table() { return transition_table(+ (event<e3> / A0 {}), + (event<e2> [G0 {}] / A0 {}), + (event<e1> [G0 {}])); } };'
     + M1 % '* state<S1> + event<e1> = state<I>, state<I> + event<e2> = state<S1>', RUN + 'sm.process_event(e3 {});'),
    ('deferred events', 'struct D { static constexpr auto defer_events() { return hsm::events<e2, e3>; } };'
     + M1 % '* state<S1> + event<e1> = state<D>, state<D> + event<e1> = state<S1>, state<S1> + event<e2> = state<S2>, state<S1> + event<e3> = state<S2>', RUN),
    ('chained actions', M1 % '* state<S1> + event<e1> / hsm::chain(A0 {}, A0 {}) = state<S2>, state<S2> + event<e2> / hsm::chain_actions(A0 {}, A0 {}, A0 {}) = state<S1>', RUN),
    ('no action', M1 % '* state<S1> + event<e1> / hsm::noAction {} = state<S2>', RUN),
    ('logged transition', M1 % '* state<S1> + event<e1> / hsm::log = state<S2>', RUN),
    ('unexpected event handler', 'struct M { static constexpr auto make_transition_table() { return transition_table(* state<S1> + event<e1> = state<S2>, state<S2> + event<e2> = state<S1>); } static constexpr auto on_unexpected_event() { return [](auto&&...) {}; } };', RUN),
    ('created state', 'struct C { explicit C(int) {} };' + M1 % '* state<S1> + event<e1> / hsm::create_state([](auto, auto) { return std::make_unique<C>(1); }) = state<C>, state<C> + event<e2> / A0 {} = state<S1>, state<S1> + event<e3> / hsm::reuse_state(A0 {}) = state<C>', RUN),
    ('tuple notation', M1 % 'transition(* state<S1>, event<e1>, G0 {}, A0 {}, state<S2>), transition(state<S2>, event<e2>, hsm::noGuard {}, hsm::noAction {}, state<S1>)', RUN),
    ('event without default constructor', 'struct nd { explicit nd(int) {} };' + M1 % '* state<S1> + event<nd> / A0 {} = state<S2>', 'hsm::sm<M> sm; nd e(1); sm.process_event(e); sm.process_event(nd(2));'),
    ('two machines of one table', BASIC, 'hsm::sm<M> a; hsm::sm<M> b; a.process_event(e1 {}); b.process_event(e2 {});'),
    ('forty rows', M1 % ', '.join(['* state<S1> + event<e1> = state<S2>'] + ['state<S%d> + event_t<std::integral_constant<int, %d>> {} = state<S%d>' % (1 + i % 4, i, 1 + (i + 1) % 4) for i in range(39)]), RUN),
]


def text(types, body, header='hsm/hsm.h'):
    return PRE % dict(header=header, types=types, body=body)
