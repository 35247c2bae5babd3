From eff287f17d22c477d80f2b645a2fbfc6d5603029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:11 +0000
Subject: [PATCH 01/15] fix: compare the parent state of the asked region

is(region, parent, state) and status() looked at the parent state of region 0
whatever region was asked for.
---
 include/hsm/details/sm.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index 0c436ee..3ec5b57 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -120,7 +120,7 @@ template <class RootState, class... OptionalParameters> class sm {
     template <class ParentState, class State>
     auto is(Region region, ParentState parentState, State state) -> bool
     {
-        return currentParentState() == getParentStateIdx(rootState, parentState)
+        return currentParentState(region) == getParentStateIdx(rootState, parentState)
             && currentState(region) == getStateIdx(rootState, state);
     }
 
@@ -160,7 +160,7 @@ template <class RootState, class... OptionalParameters> class sm {
         for (Region region = 0; region < currentRegions; region++) {
             statusStream << "[" << region << "] "
                          << "combined: " << m_currentCombinedState[region] << " "
-                         << "parent: " << currentParentState() << " "
+                         << "parent: " << currentParentState(region) << " "
                          << "state: " << currentState(region);
         }
         return statusStream.str();
@@ -339,9 +339,9 @@ template <class RootState, class... OptionalParameters> class sm {
         return calcStateIdx(nStates(rootState), m_currentCombinedState.at(region));
     }
 
-    auto currentParentState()
+    auto currentParentState(Region region = 0)
     {
-        return calcParentStateIdx(nStates(rootState), m_currentCombinedState[0]);
+        return calcParentStateIdx(nStates(rootState), m_currentCombinedState.at(region));
     }
 
     void init_current_state()
-- 
2.43.0


From 3a7f24b07d47ba15ddf8b238c61b3003175ffad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:11 +0000
Subject: [PATCH 02/15] fix: keep one history state per region and parent state

The history of a region was saved under the parent state of region 0, and the
history of a parent state had only as many slots as the parent has initial
states: a region could write or read out of bounds of that vector.
---
 include/hsm/details/sm.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index 3ec5b57..6a5bf08 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -80,7 +80,7 @@ template <class RootState, class... OptionalParameters> class sm {
 
         fill_dispatch_table(optionalDependency);
         fill_initial_state_table(rootState, m_initial_states);
-        fill_initial_state_table(rootState, m_history);
+        init_history();
         init_current_state();
         update_current_regions();
     }
@@ -286,7 +286,7 @@ template <class RootState, class... OptionalParameters> class sm {
 
         if constexpr (has_history(rootState)) {
             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-            m_history[currentParentState()][region] = m_currentCombinedState[region];
+            m_history[currentParentState(region)][region] = m_currentCombinedState[region];
 
             if (dispatchTableEntry.history) {
                 auto parent
@@ -344,6 +344,17 @@ template <class RootState, class... OptionalParameters> class sm {
         return calcParentStateIdx(nStates(rootState), m_currentCombinedState.at(region));
     }
 
+    void init_history()
+    {
+        fill_initial_state_table(rootState, m_history);
+
+        // Every region can enter every parent state
+        for (auto& history : m_history) {
+            history.resize(
+                m_currentCombinedState.size(), history.empty() ? StateIdx {} : history.front());
+        }
+    }
+
     void init_current_state()
     {
         const auto initialParentState = getParentStateIdx(rootState, rootState);
-- 
2.43.0


From a37e9c9037d0f43f02e57f8d59c58b9c6adfd3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:11 +0000
Subject: [PATCH 03/15] fix: start regions that become active in a defined
 state

Entering a sub state machine with more regions than its surrounding state left
the additional regions in an indeterminate or stale state.
---
 include/hsm/details/sm.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index 6a5bf08..83db369 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -34,7 +34,7 @@ template <class RootState, class... OptionalParameters> class sm {
     using StatesMap = decltype(make_states_map(rootState));
     using DispatchTables = decltype(make_dispatch_tables(rootState));
     using UnexpectedEventHandlerTables = decltype(make_unexpected_event_handler_tables(rootState));
-    std::array<StateIdx, maxInitialStates(rootState)> m_currentCombinedState;
+    std::array<StateIdx, maxInitialStates(rootState)> m_currentCombinedState {};
     std::array<std::vector<std::size_t>, nParentStates(rootState)> m_initial_states;
     std::array<std::vector<std::size_t>, nParentStates(rootState)> m_history;
     variant_queue<Events> m_defer_queue;
@@ -304,14 +304,23 @@ template <class RootState, class... OptionalParameters> class sm {
             m_currentCombinedState[region] = dispatchTableEntry.combinedState;
         }
 
-        update_current_regions();
+        update_current_regions(dispatchTableEntry.history);
     }
 
-    void update_current_regions()
+    void update_current_regions(bool restoreHistory = false)
     {
         if constexpr (hasParallelRegions(rootState)) {
+            const auto parent = currentParentState();
+            const auto previousRegions = m_currentRegions;
             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-            m_currentRegions = m_initial_states[currentParentState()].size();
+            m_currentRegions = m_initial_states[parent].size();
+
+            // Regions that become active start in their initial or history state
+            for (Region region = previousRegions; region < m_currentRegions; region++) {
+                // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
+                m_currentCombinedState[region] = restoreHistory ? m_history[parent][region]
+                                                                : m_initial_states[parent][region];
+            }
         }
     }
 
-- 
2.43.0


From 40c81225b83ddce0f08e8301873c9202ca27bfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:45 +0000
Subject: [PATCH 04/15] fix: set() activates the regions of the state it sets

set() left the number of active regions as it was, so after setting a state of
a sub state machine with several regions only the old regions got events.
---
 include/hsm/details/sm.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index 83db369..2ae7e95 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -151,6 +151,20 @@ template <class RootState, class... OptionalParameters> class sm {
 
         m_currentCombinedState.at(region)
             = getCombinedStateIdx(getCombinedStateTypeids(rootState), parentState, state);
+
+        if constexpr (hasParallelRegions(rootState)) {
+            // Keep the regions which were already set to a state of the same parent state
+            const auto currentStates = m_currentCombinedState;
+            update_current_regions();
+            for (Region other = 0; other < m_currentRegions; other++) {
+                // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
+                if (calcParentStateIdx(nStates(rootState), currentStates[other])
+                    == currentParentState()) {
+                    // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
+                    m_currentCombinedState[other] = currentStates[other];
+                }
+            }
+        }
     }
 
     auto status() -> std::string
-- 
2.43.0


From 1f682c2c5f0357dc55070fa066ff165fd74ea06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:45 +0000
Subject: [PATCH 05/15] fix: set_dependency() replaces the old dependencies

set_dependency() added a second set of transitions in front of the old one, so
guards still ran with the old, maybe dangling, dependencies and the unexpected
event handler never got the new ones.
---
 include/hsm/details/sm.h | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index 2ae7e95..26a2c96 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -12,6 +12,8 @@
 
 #include <boost/hana/basic_tuple.hpp>
 #include <boost/hana/contains.hpp>
+#include <boost/hana/for_each.hpp>
+#include <boost/hana/keys.hpp>
 #include <boost/hana/type.hpp>
 
 #include <array>
@@ -69,15 +71,7 @@ template <class RootState, class... OptionalParameters> class sm {
 
         auto optionalDependency = bh::make_basic_tuple(std::ref(optionalParameters)...);
 
-        if constexpr (has_unexpected_event_handler(rootState)) {
-            fill_unexpected_event_handler_tables(
-                rootState,
-                m_statesMap,
-                m_unexpectedEventHandlerTables,
-                get_unexpected_event_handler(rootState),
-                optionalDependency);
-        }
-
+        fill_unexpected_event_handlers(optionalDependency);
         fill_dispatch_table(optionalDependency);
         fill_initial_state_table(rootState, m_initial_states);
         init_history();
@@ -183,6 +177,8 @@ template <class RootState, class... OptionalParameters> class sm {
     auto set_dependency(OptionalParameters&... optionalParameters)
     {
         auto optionalDependency = bh::make_basic_tuple(std::ref(optionalParameters)...);
+        fill_unexpected_event_handlers(optionalDependency);
+        clear_dispatch_table();
         fill_dispatch_table(optionalDependency);
     }
 
@@ -395,6 +391,31 @@ template <class RootState, class... OptionalParameters> class sm {
         return m_dispatchTables[bh::typeid_(event)][m_currentCombinedState[region]];
     }
 
+    template <class OptionalDependency>
+    void fill_unexpected_event_handlers(OptionalDependency& optionalDependency)
+    {
+        // Folowing line satisfies older gcc -Werror=unused-but-set-parameter
+        (void)optionalDependency;
+
+        if constexpr (has_unexpected_event_handler(rootState)) {
+            fill_unexpected_event_handler_tables(
+                rootState,
+                m_statesMap,
+                m_unexpectedEventHandlerTables,
+                get_unexpected_event_handler(rootState),
+                optionalDependency);
+        }
+    }
+
+    void clear_dispatch_table()
+    {
+        bh::for_each(bh::keys(m_dispatchTables), [this](auto eventTypeid) {
+            for (auto& transitions : m_dispatchTables[eventTypeid]) {
+                transitions.clear();
+            }
+        });
+    }
+
     template <class OptionalDependency>
     void fill_dispatch_table(OptionalDependency& optionalDependency)
     {
-- 
2.43.0


From b43d92690f4c25f097f41e8cd0baa1508582e472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:45 +0000
Subject: [PATCH 06/15] fix: defer an event only when no region processed it

A deferring region deferred an event that another region had already processed
and kept the remaining regions from seeing it.
---
 include/hsm/details/sm.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index 26a2c96..2c150de 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -194,6 +194,7 @@ template <class RootState, class... OptionalParameters> class sm {
     {
         bool allGuardsFailed = true;
         bool allTransitionsInvalid = true;
+        bool eventDefered = false;
 
         const auto currentRegions = current_regions();
         for (Region region = 0; region < currentRegions; region++) {
@@ -208,8 +209,8 @@ template <class RootState, class... OptionalParameters> class sm {
             for (auto& result : results) {
 
                 if (result.defer) {
-                    m_defer_queue.push(event);
-                    return ProcessEventResult::EventDefered;
+                    eventDefered = true;
+                    break;
                 }
 
                 if (!result.transition->executeGuard(event)) {
@@ -226,6 +227,11 @@ template <class RootState, class... OptionalParameters> class sm {
             }
         }
 
+        if (eventDefered && allGuardsFailed) {
+            m_defer_queue.push(event);
+            return ProcessEventResult::EventDefered;
+        }
+
         if (allTransitionsInvalid) {
             return ProcessEventResult::AllTransitionsInvalid;
         }
-- 
2.43.0


From fdeeafda81be7fd833968b11fd6868659604dbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:45 +0000
Subject: [PATCH 07/15] fix: defer events also in states without outgoing
 transition

---
 include/hsm/details/fill_dispatch_table.h | 29 +++++++++++++++--------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/include/hsm/details/fill_dispatch_table.h b/include/hsm/details/fill_dispatch_table.h
index c7b3e8f..93d627f 100644
--- a/include/hsm/details/fill_dispatch_table.h
+++ b/include/hsm/details/fill_dispatch_table.h
@@ -222,30 +222,39 @@ constexpr auto fill_dispatch_table_with_transitions(
         });
 }
 
-constexpr auto getDeferingTransitions = [](auto rootState) {
-    constexpr auto transitionHasDeferedEvents
-        = [](auto transition) { return has_deferred_events(resolveExtentedInitialState(transition)); };
+/**
+ * Returns the typeids of all (parent state, state) pairs, where state deferes events. A state
+ * deferes its events also when it is only the target of transitions.
+ */
+constexpr auto getDeferingStates = [](auto rootState) {
+    constexpr auto hasDeferedEvents
+        = [](auto parentAndState) { return has_deferred_events(bh::second(parentAndState)); };
 
-    constexpr auto transitions = flatten_transition_table(rootState);
-    return bh::filter(transitions, transitionHasDeferedEvents);
+    constexpr auto parentAndStates
+        = bh::flatten(bh::transform(flatten_transition_table(rootState), [](auto transition) {
+              return bh::make_basic_tuple(
+                  bh::make_pair(resolveSrcParent(transition), resolveSrc(transition)),
+                  bh::make_pair(resolveDstParent(transition), resolveDst(transition)));
+          }));
+    return remove_duplicates(bh::filter(parentAndStates, hasDeferedEvents));
 };
 
 constexpr auto hasDeferedEvents = [](auto rootState) {
-    return bh::not_equal(bh::size_c<0>, bh::size(getDeferingTransitions(rootState)));
+    return bh::not_equal(bh::size_c<0>, bh::size(getDeferingStates(rootState)));
 };
 
 template <class RootState, class DispatchTables, class OptionalDependency>
 constexpr auto fill_dispatch_table_with_deferred_events(
     RootState rootState, DispatchTables& dispatchTables, OptionalDependency /*optionalDependency*/)
 {
-    const auto transitions = getDeferingTransitions(rootState);
-    bh::for_each(transitions, [=, &dispatchTables](auto transition) {
-        const auto deferredEvents = get_defer_events(resolveExtentedInitialState(transition));
+    const auto parentAndStates = getDeferingStates(rootState);
+    bh::for_each(parentAndStates, [=, &dispatchTables](auto parentAndState) {
+        const auto deferredEvents = get_defer_events(bh::second(parentAndState));
         bh::for_each(deferredEvents, [=, &dispatchTables](auto event) {
             const auto combinedStateTypeids = getCombinedStateTypeids(rootState);
             auto& dispatchTable = dispatchTables[event];
             const auto from = getCombinedStateIdx(
-                combinedStateTypeids, resolveSrcParent(transition), resolveSrc(transition));
+                combinedStateTypeids, bh::first(parentAndState), bh::second(parentAndState));
 
             dispatchTable[from].push_front({});
             dispatchTable[from].front().defer = true;
-- 
2.43.0


From a8b30b67e86ee7e3b0161dec6ed9ab175904efc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:14 +0000
Subject: [PATCH 08/15] fix: run the entry and exit actions of states marked as
 initial

The row which marks its source as initial state did not run the exit action of
that state.
---
 include/hsm/details/has_action.h    | 4 ++--
 include/hsm/details/resolve_state.h | 8 ++++----
 include/hsm/details/traits.h        | 8 ++++++++
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/hsm/details/has_action.h b/include/hsm/details/has_action.h
index eeede7c..722aaeb 100644
--- a/include/hsm/details/has_action.h
+++ b/include/hsm/details/has_action.h
@@ -31,9 +31,9 @@ constexpr auto has_pseudo_exit_action = [](auto transition) {
 constexpr auto has_action = [](auto transition) {
     return bh::or_(
         bh::not_(is_no_action(transition.action())),
-        has_entry_action(transition.target()),
+        has_entry_action(resolve_initial_state(transition.target())),
         has_substate_initial_state_entry_action(transition.target()),
-        has_exit_action(transition.source()),
+        has_exit_action(resolve_initial_state(transition.source())),
         has_pseudo_exit_action(transition));
 };
 }
\ No newline at end of file
diff --git a/include/hsm/details/resolve_state.h b/include/hsm/details/resolve_state.h
index e46de11..65adc3d 100644
--- a/include/hsm/details/resolve_state.h
+++ b/include/hsm/details/resolve_state.h
@@ -92,8 +92,8 @@ template <class Transition> constexpr auto resolveEntryAction(Transition transit
 {
     if constexpr (transition.internal()) {
         return [](auto&&...) {};
-    } else if constexpr (has_entry_action(transition.target())) {
-        return get_entry_action(transition.target());
+    } else if constexpr (has_entry_action(resolve_initial_state(transition.target()))) {
+        return get_entry_action(resolve_initial_state(transition.target()));
     } else {
         return [](auto&&...) {};
     }
@@ -115,8 +115,8 @@ template <class Transition> constexpr auto resolveExitAction(Transition transiti
 
     if constexpr (transition.internal()) {
         return [](auto&&...) {};
-    } else if constexpr (has_exit_action(transition.source())) {
-        return get_exit_action(transition.source());
+    } else if constexpr (has_exit_action(resolve_initial_state(transition.source()))) {
+        return get_exit_action(resolve_initial_state(transition.source()));
     } else if constexpr (hasPseudoExitAction) {
         return get_exit_action(resolveSrcParent(transition));
     } else {
diff --git a/include/hsm/details/traits.h b/include/hsm/details/traits.h
index c80a728..32e312c 100644
--- a/include/hsm/details/traits.h
+++ b/include/hsm/details/traits.h
@@ -122,6 +122,14 @@ constexpr auto is_initial_state = [](auto typeid_) {
         bh::true_c);
 };
 
+constexpr auto resolve_initial_state = [](auto state) {
+    if constexpr (is_initial_state(state)) {
+        return get_state(state);
+    } else {
+        return state;
+    }
+};
+
 constexpr auto is_no_action
     = [](auto action) { return bh::equal(bh::typeid_(action), bh::typeid_(noAction {})); };
 
-- 
2.43.0


From 688a73854457ca9d657e6475d9ea246fa55fe823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:14 +0000
Subject: [PATCH 09/15] fix: add internal transitions once to initial states

A state which is marked as initial in one row and named without mark in another
got every internal transition twice, so its guards ran twice per event.
---
 include/hsm/details/flatten_internal_transition_table.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/hsm/details/flatten_internal_transition_table.h b/include/hsm/details/flatten_internal_transition_table.h
index 89e7b09..e61ef51 100644
--- a/include/hsm/details/flatten_internal_transition_table.h
+++ b/include/hsm/details/flatten_internal_transition_table.h
@@ -113,7 +113,9 @@ constexpr auto get_internal_transitions = [](auto stateAndParentStatePairs) {
                         if constexpr (has_transition_table(bh::second(stateAndParentStatePair))) {
                             return extend_internal_transition(
                                 internalTransition,
-                                collect_child_states(bh::second(stateAndParentStatePair)));
+                                remove_duplicates(bh::transform(
+                                    collect_child_states(bh::second(stateAndParentStatePair)),
+                                    resolve_initial_state)));
                         } else if constexpr (has_internal_transition_table(
                                                  bh::second(stateAndParentStatePair))) {
                             return extend_internal_transition2(
-- 
2.43.0


From e0b529935ed728d458794b761e7541691ca5ac56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:56 +0000
Subject: [PATCH 10/15] fix: keep internal transitions of sub state machines
 entered by pseudo states

The internal transition table of a sub state machine was ignored when the sub
state machine is only reached by entry, direct or history pseudo states.
---
 .../flatten_internal_transition_table.h       | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/hsm/details/flatten_internal_transition_table.h b/include/hsm/details/flatten_internal_transition_table.h
index e61ef51..20ee6b0 100644
--- a/include/hsm/details/flatten_internal_transition_table.h
+++ b/include/hsm/details/flatten_internal_transition_table.h
@@ -7,6 +7,7 @@
 #include <boost/hana/append.hpp>
 #include <boost/hana/at.hpp>
 #include <boost/hana/basic_tuple.hpp>
+#include <boost/hana/concat.hpp>
 #include <boost/hana/equal.hpp>
 #include <boost/hana/filter.hpp>
 #include <boost/hana/functional/capture.hpp>
@@ -133,6 +134,23 @@ constexpr auto get_internal_transitions = [](auto stateAndParentStatePairs) {
         isNotEmpty));
 };
 
+/**
+ * Returns the parent state and state pairs of all states which might have an internal transition
+ * table. These are all states of the transition tables and the parent states itself, since a parent
+ * state might be entered only by pseudo states.
+ *
+ * @param rootState
+ */
+template <class State> constexpr auto collect_internal_transition_owners(State rootState)
+{
+    constexpr auto toParentPair
+        = [](auto transition) { return bh::make_pair(transition.parent(), transition.parent()); };
+
+    return remove_duplicates(bh::concat(
+        bh::transform(flatten_transition_table(rootState), toParentPair),
+        collect_state_parentstate_pairs_recursively(rootState)));
+}
+
 /**
  * Returns a tuple of extended internal transitions reachable from a given rootState
  *
@@ -143,7 +161,7 @@ template <class State> constexpr auto flatten_internal_transition_table(State ro
     return [](auto stateAndParentStatePairs) {
         return remove_duplicate_types(bh::to<bh::basic_tuple_tag>(
             bh::flatten(get_internal_transitions(stateAndParentStatePairs))));
-    }(collect_state_parentstate_pairs_recursively(rootState));
+    }(collect_internal_transition_owners(rootState));
 }
 
 } // namespace hsm
\ No newline at end of file
-- 
2.43.0


From b838f1e9c4a60d67f66f03a5a2e48fdb21ad39a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:13 +0000
Subject: [PATCH 11/15] fix: collect the transitions of a sub state machine
 once

A sub state machine that is the target of several transitions had all of its
transitions collected once per target, so a failing guard ran several times for
a single event.
---
 .../hsm/details/flatten_transition_table.h    | 68 ++++++++++++-------
 1 file changed, 45 insertions(+), 23 deletions(-)

diff --git a/include/hsm/details/flatten_transition_table.h b/include/hsm/details/flatten_transition_table.h
index 920eae5..2bb6202 100644
--- a/include/hsm/details/flatten_transition_table.h
+++ b/include/hsm/details/flatten_transition_table.h
@@ -5,12 +5,22 @@
 #include "hsm/details/traits.h"
 #include "hsm/details/transition.h"
 
+#include <boost/hana/append.hpp>
 #include <boost/hana/back.hpp>
 #include <boost/hana/basic_tuple.hpp>
+#include <boost/hana/concat.hpp>
+#include <boost/hana/contains.hpp>
+#include <boost/hana/first.hpp>
 #include <boost/hana/flatten.hpp>
+#include <boost/hana/fold_right.hpp>
 #include <boost/hana/if.hpp>
+#include <boost/hana/pair.hpp>
 #include <boost/hana/prepend.hpp>
+#include <boost/hana/second.hpp>
 #include <boost/hana/transform.hpp>
+#include <boost/hana/type.hpp>
+
+#include <type_traits>
 
 namespace hsm {
 
@@ -19,8 +29,40 @@ using namespace boost::hana;
 }
 
 namespace {
-template <class State> constexpr auto flatten_sub_transition_table(State state);
 
+/**
+ * Flattens the transition table of a state and of all its sub states that are not in visited.
+ *
+ * A sub state might be the target of several transitions, but its transitions are collected just
+ * once (at the last of these transitions).
+ *
+ * @return pair of a list of ExtendedTransition and a list of the typeids of all visited states
+ */
+template <class State, class Visited>
+constexpr auto flatten_unvisited_transition_table(State state, Visited visited)
+{
+    return bh::fold_right(
+        make_transition_table2(state),
+        bh::make_pair(bh::make_basic_tuple(), visited),
+        [state](auto transition, auto result) {
+            const auto subState = resolveSubStateParent(transition);
+            const auto extendedTransition = details::extended_transition(state, transition);
+            using SubState = std::decay_t<decltype(subState)>;
+            using IsVisited = decltype(bh::contains(bh::second(result), bh::type_c<SubState>));
+
+            if constexpr (has_transition_table(SubState {}) && !IsVisited::value) {
+                const auto subResult = flatten_unvisited_transition_table(
+                    subState, bh::append(bh::second(result), bh::type_c<SubState>));
+                return bh::make_pair(
+                    bh::prepend(
+                        bh::concat(bh::first(subResult), bh::first(result)), extendedTransition),
+                    bh::second(subResult));
+            } else {
+                return bh::make_pair(
+                    bh::prepend(bh::first(result), extendedTransition), bh::second(result));
+            }
+        });
+}
 }
 
 /**
@@ -31,27 +73,7 @@ template <class State> constexpr auto flatten_sub_transition_table(State state);
  */
 template <class State> constexpr auto flatten_transition_table(State state)
 {
-    auto flattenSubTransitionTable = [state](auto transition) {
-        return bh::prepend(
-            flatten_sub_transition_table(resolveSubStateParent(transition)),
-            details::extended_transition(state, transition));
-    };
-
-    return bh::flatten(bh::transform(make_transition_table2(state), flattenSubTransitionTable));
-}
-
-namespace {
-
-template <class State> constexpr auto flatten_sub_transition_table(State state)
-{
-    // clang-format off
-    if constexpr(has_transition_table(state)){
-        return flatten_transition_table(state);
-    }
-    else {
-        return bh::make_basic_tuple();
-    }
-    // clang-format on
+    return bh::first(
+        flatten_unvisited_transition_table(state, bh::make_basic_tuple(bh::type_c<State>)));
 }
 }
-}
\ No newline at end of file
-- 
2.43.0


From 361086f00a1f6c1cf7181afca80fa5ba8a17c49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:08 +0000
Subject: [PATCH 12/15] fix: keep internal transitions of composites out of
 states behind their pseudo states

---
 .../hsm/details/flatten_internal_transition_table.h   | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/hsm/details/flatten_internal_transition_table.h b/include/hsm/details/flatten_internal_transition_table.h
index 20ee6b0..eb65552 100644
--- a/include/hsm/details/flatten_internal_transition_table.h
+++ b/include/hsm/details/flatten_internal_transition_table.h
@@ -28,6 +28,12 @@ using namespace boost::hana;
 constexpr auto isNotEmpty
     = [](const auto& tuple) { return bh::not_(bh::equal(bh::size_c<0>, bh::size(tuple))); };
 
+/**
+ * Predicate that checks that a state is no pseudo state that stands for a state of another parent
+ */
+constexpr auto isOwnState
+    = [](auto state) { return bh::not_(bh::or_(is_exit_state(state), is_direct_state(state))); };
+
 /**
  * Returns a tuple of internal transitions of a state if it exists.
  * Otherwise a empty tuple is returned. Source and target of the
@@ -115,7 +121,10 @@ constexpr auto get_internal_transitions = [](auto stateAndParentStatePairs) {
                             return extend_internal_transition(
                                 internalTransition,
                                 remove_duplicates(bh::transform(
-                                    collect_child_states(bh::second(stateAndParentStatePair)),
+                                    bh::filter(
+                                        collect_child_states(
+                                            bh::second(stateAndParentStatePair)),
+                                        isOwnState),
                                     resolve_initial_state)));
                         } else if constexpr (has_internal_transition_table(
                                                  bh::second(stateAndParentStatePair))) {
-- 
2.43.0


From 5e3a9e5477a71400e468847917540519b6328979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:00 +0000
Subject: [PATCH 13/15] fix: keep the history of all regions when the first
 region leaves their parent

A composite state with several regions can be left by its first region alone, for
example by an exit pseudo state. The other regions were then resumed in the state
they had before their last transition.
---
 include/hsm/details/sm.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index 2c150de..5ec709a 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -304,6 +304,14 @@ template <class RootState, class... OptionalParameters> class sm {
             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
             m_history[currentParentState(region)][region] = m_currentCombinedState[region];
 
+            if (region == 0) {
+                // The first region leaves its parent state together with all other regions
+                for (Region other = 1; other < current_regions(); other++) {
+                    // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
+                    m_history[currentParentState(other)][other] = m_currentCombinedState[other];
+                }
+            }
+
             if (dispatchTableEntry.history) {
                 auto parent
                     = calcParentStateIdx(nStates(rootState), dispatchTableEntry.combinedState);
-- 
2.43.0


From e3aee437d0f62c9c54ce76ac4f21ca744d215451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:23 +0000
Subject: [PATCH 14/15] fix: enter the initial state of each region when all
 regions change their parent

A transition from a composite state with several regions to another one put every
region into the initial state of the first region.
---
 include/hsm/details/sm.h | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index 5ec709a..3044940 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -321,16 +321,38 @@ template <class RootState, class... OptionalParameters> class sm {
                 m_currentCombinedState[region] = combined;
             } else {
                 // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-                m_currentCombinedState[region] = dispatchTableEntry.combinedState;
+                m_currentCombinedState[region]
+                    = initial_state_of_region(region, dispatchTableEntry.combinedState);
             }
         } else {
             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-            m_currentCombinedState[region] = dispatchTableEntry.combinedState;
+            m_currentCombinedState[region]
+                = initial_state_of_region(region, dispatchTableEntry.combinedState);
         }
 
         update_current_regions(dispatchTableEntry.history);
     }
 
+    /**
+     * Regions that follow the first region into its new parent state enter their own initial state
+     * instead of the initial state of the first region.
+     */
+    auto initial_state_of_region(Region region, StateIdx combinedState) -> StateIdx
+    {
+        if constexpr (hasParallelRegions(rootState)) {
+            const auto parent = calcParentStateIdx(nStates(rootState), combinedState);
+            // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
+            const auto& initialStates = m_initial_states[parent];
+            if (parent == currentParentState() && parent != currentParentState(region)
+                && region < initialStates.size() && combinedState == initialStates.front()) {
+                // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
+                return initialStates[region];
+            }
+        }
+
+        return combinedState;
+    }
+
     void update_current_regions(bool restoreHistory = false)
     {
         if constexpr (hasParallelRegions(rootState)) {
-- 
2.43.0


From 49679b5289433def3a8c85929e16265cad10a970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:24 +0000
Subject: [PATCH 15/15] fix: require an initial state in the root transition
 table

---
 include/hsm/details/sm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index 3044940..46176df 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -58,7 +58,7 @@ template <class RootState, class... OptionalParameters> class sm {
             bh::size(flatten_transition_table(rootState)),
             "Transition table needs at least one transition");
         static_assert(
-            maxInitialStates(rootState),
+            bh::size(collect_initial_states(rootState)),
             "Transition table needs to have at least one initial state");
         static_assert(
             bh::not_(at_least_one_initial_state_has_transition_table(rootState)),
-- 
2.43.0

