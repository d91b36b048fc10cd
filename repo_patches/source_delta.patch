From 5cfa2d756be8a8e0ce6399ed96e299e556c014a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:39 +0000
Subject: [PATCH 01/21] fix: run on_exit of states marked as initial

A row whose source is written as initial state (* state<S>) never ran the
on_exit action of S, since the trait was looked up on the initial pseudo
state instead of on S.
---
 include/hsm/details/has_action.h    | 10 +++++++++-
 include/hsm/details/resolve_state.h |  4 ++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/hsm/details/has_action.h b/include/hsm/details/has_action.h
index eeede7c..8974adb 100644
--- a/include/hsm/details/has_action.h
+++ b/include/hsm/details/has_action.h
@@ -23,6 +23,14 @@ constexpr auto has_substate_initial_state_entry_action = [](auto target) {
     }
 };
 
+constexpr auto resolve_initial_pseudo_state = [](auto state) {
+    if constexpr (is_initial_state(state)) {
+        return get_state(state);
+    } else {
+        return state;
+    }
+};
+
 constexpr auto has_pseudo_exit_action = [](auto transition) {
     return bh::and_(
         is_exit_state(transition.source()), has_exit_action(resolveSrcParent(transition)));
@@ -33,7 +41,7 @@ constexpr auto has_action = [](auto transition) {
         bh::not_(is_no_action(transition.action())),
         has_entry_action(transition.target()),
         has_substate_initial_state_entry_action(transition.target()),
-        has_exit_action(transition.source()),
+        has_exit_action(resolve_initial_pseudo_state(transition.source())),
         has_pseudo_exit_action(transition));
 };
 }
\ No newline at end of file
diff --git a/include/hsm/details/resolve_state.h b/include/hsm/details/resolve_state.h
index e46de11..03ca0af 100644
--- a/include/hsm/details/resolve_state.h
+++ b/include/hsm/details/resolve_state.h
@@ -115,8 +115,8 @@ template <class Transition> constexpr auto resolveExitAction(Transition transiti
 
     if constexpr (transition.internal()) {
         return [](auto&&...) {};
-    } else if constexpr (has_exit_action(transition.source())) {
-        return get_exit_action(transition.source());
+    } else if constexpr (has_exit_action(resolve_initial_pseudo_state(transition.source()))) {
+        return get_exit_action(resolve_initial_pseudo_state(transition.source()));
     } else if constexpr (hasPseudoExitAction) {
         return get_exit_action(resolveSrcParent(transition));
     } else {
-- 
2.43.0


From e86c4aa4fd07c0be51d855091339727bb3bc8ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:59 +0000
Subject: [PATCH 02/21] fix: replace dependencies in set_dependency

set_dependency stacked a second set of rows bound to the new dependencies
on top of the rows bound to the old ones: whenever the guard of a new row
failed, the guard of the old row was evaluated with the old (possibly
destroyed) dependency. The unexpected event handler kept the old
dependencies altogether.
---
 include/hsm/details/sm.h | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index 0c436ee..98ece35 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -12,6 +12,8 @@
 
 #include <boost/hana/basic_tuple.hpp>
 #include <boost/hana/contains.hpp>
+#include <boost/hana/for_each.hpp>
+#include <boost/hana/keys.hpp>
 #include <boost/hana/type.hpp>
 
 #include <array>
@@ -69,15 +71,7 @@ template <class RootState, class... OptionalParameters> class sm {
 
         auto optionalDependency = bh::make_basic_tuple(std::ref(optionalParameters)...);
 
-        if constexpr (has_unexpected_event_handler(rootState)) {
-            fill_unexpected_event_handler_tables(
-                rootState,
-                m_statesMap,
-                m_unexpectedEventHandlerTables,
-                get_unexpected_event_handler(rootState),
-                optionalDependency);
-        }
-
+        fill_unexpected_event_handler_table(optionalDependency);
         fill_dispatch_table(optionalDependency);
         fill_initial_state_table(rootState, m_initial_states);
         fill_initial_state_table(rootState, m_history);
@@ -169,6 +163,8 @@ template <class RootState, class... OptionalParameters> class sm {
     auto set_dependency(OptionalParameters&... optionalParameters)
     {
         auto optionalDependency = bh::make_basic_tuple(std::ref(optionalParameters)...);
+        clear_dispatch_table();
+        fill_unexpected_event_handler_table(optionalDependency);
         fill_dispatch_table(optionalDependency);
     }
 
@@ -361,6 +357,29 @@ template <class RootState, class... OptionalParameters> class sm {
         return m_dispatchTables[bh::typeid_(event)][m_currentCombinedState[region]];
     }
 
+    void clear_dispatch_table()
+    {
+        bh::for_each(bh::keys(m_dispatchTables), [this](auto eventTypeid) {
+            for (auto& results : m_dispatchTables[eventTypeid]) {
+                results.clear();
+            }
+        });
+    }
+
+    template <class OptionalDependency>
+    void fill_unexpected_event_handler_table(OptionalDependency& optionalDependency)
+    {
+        (void)optionalDependency;
+        if constexpr (has_unexpected_event_handler(rootState)) {
+            fill_unexpected_event_handler_tables(
+                rootState,
+                m_statesMap,
+                m_unexpectedEventHandlerTables,
+                get_unexpected_event_handler(rootState),
+                optionalDependency);
+        }
+    }
+
     template <class OptionalDependency>
     void fill_dispatch_table(OptionalDependency& optionalDependency)
     {
-- 
2.43.0


From d3922e3f86af2882c17e7b24f5e32b76bcdce857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:59 +0000
Subject: [PATCH 03/21] fix: report every region by its own parent state

is(region, parent, state) and status() compared or printed the parent
state of region 0 for all regions, and status() printed the region number
as a raw character.
---
 include/hsm/details/sm.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index 98ece35..94c65b6 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -114,7 +114,7 @@ template <class RootState, class... OptionalParameters> class sm {
     template <class ParentState, class State>
     auto is(Region region, ParentState parentState, State state) -> bool
     {
-        return currentParentState() == getParentStateIdx(rootState, parentState)
+        return currentParentState(region) == getParentStateIdx(rootState, parentState)
             && currentState(region) == getStateIdx(rootState, state);
     }
 
@@ -152,9 +152,9 @@ template <class RootState, class... OptionalParameters> class sm {
         std::stringstream statusStream;
         const auto currentRegions = current_regions();
         for (Region region = 0; region < currentRegions; region++) {
-            statusStream << "[" << region << "] "
+            statusStream << "[" << static_cast<std::size_t>(region) << "] "
                          << "combined: " << m_currentCombinedState[region] << " "
-                         << "parent: " << currentParentState() << " "
+                         << "parent: " << currentParentState(region) << " "
                          << "state: " << currentState(region);
         }
         return statusStream.str();
@@ -335,9 +335,9 @@ template <class RootState, class... OptionalParameters> class sm {
         return calcStateIdx(nStates(rootState), m_currentCombinedState.at(region));
     }
 
-    auto currentParentState()
+    auto currentParentState(Region region = 0)
     {
-        return calcParentStateIdx(nStates(rootState), m_currentCombinedState[0]);
+        return calcParentStateIdx(nStates(rootState), m_currentCombinedState.at(region));
     }
 
     void init_current_state()
-- 
2.43.0


From adf172e8cbd311640c96d84cc3a15d4e14610f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:16 +0000
Subject: [PATCH 04/21] fix: keep the regions of the root state active inside a
 sub state

While region 0 was in a composite state with fewer regions than the root
state, the remaining regions of the root state did not receive events.
---
 include/hsm/details/sm.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index 94c65b6..0ea94c8 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -16,6 +16,7 @@
 #include <boost/hana/keys.hpp>
 #include <boost/hana/type.hpp>
 
+#include <algorithm>
 #include <array>
 #include <cstdint>
 #include <iostream>
@@ -306,11 +307,18 @@ template <class RootState, class... OptionalParameters> class sm {
     void update_current_regions()
     {
         if constexpr (hasParallelRegions(rootState)) {
-            // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-            m_currentRegions = m_initial_states[currentParentState()].size();
+            m_currentRegions = std::max(
+                number_of_regions(getParentStateIdx(rootState, rootState)),
+                number_of_regions(currentParentState()));
         }
     }
 
+    auto number_of_regions(Idx parentState) -> std::size_t
+    {
+        // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
+        return m_initial_states[parentState].size();
+    }
+
     auto current_regions() -> std::size_t
     {
         if constexpr (hasParallelRegions(rootState)) {
-- 
2.43.0


From c83bf209a6e9f61b2972d7c7dad3012ae3b1fec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:16 +0000
Subject: [PATCH 05/21] fix: record history under the parent state of the
 region

The history of every region was recorded under the parent state of region
0, and indexed past the end of the history of parent states that have
fewer regions.
---
 include/hsm/details/sm.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index 0ea94c8..41c566d 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -283,13 +283,12 @@ template <class RootState, class... OptionalParameters> class sm {
 
         if constexpr (has_history(rootState)) {
             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-            m_history[currentParentState()][region] = m_currentCombinedState[region];
+            history_of(currentParentState(region), region) = m_currentCombinedState[region];
 
             if (dispatchTableEntry.history) {
                 auto parent
                     = calcParentStateIdx(nStates(rootState), dispatchTableEntry.combinedState);
-                // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-                auto combined = m_history[parent][region];
+                auto combined = history_of(parent, region);
                 // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
                 m_currentCombinedState[region] = combined;
             } else {
@@ -304,6 +303,13 @@ template <class RootState, class... OptionalParameters> class sm {
         update_current_regions();
     }
 
+    auto history_of(Idx parentState, Region region) -> std::size_t&
+    {
+        // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
+        auto& states = m_history[parentState];
+        return region < states.size() ? states[region] : states.front();
+    }
+
     void update_current_regions()
     {
         if constexpr (hasParallelRegions(rootState)) {
-- 
2.43.0


From 24c3b1ef961eef380b5dd848438424ffb19d348e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:38 +0000
Subject: [PATCH 06/21] fix: initialise the regions of an entered orthogonal
 state

Entering a composite state with more regions than the state it was entered
from left the states of the additional regions uninitialised or stale.
They now start in their initial states, or in their last states if the
composite is entered through its history.
---
 include/hsm/details/dispatch_table.h      |  1 +
 include/hsm/details/fill_dispatch_table.h | 14 ++++++-
 include/hsm/details/sm.h                  | 46 ++++++++++++++++-------
 3 files changed, 46 insertions(+), 15 deletions(-)

diff --git a/include/hsm/details/dispatch_table.h b/include/hsm/details/dispatch_table.h
index b669455..72f2724 100644
--- a/include/hsm/details/dispatch_table.h
+++ b/include/hsm/details/dispatch_table.h
@@ -154,6 +154,7 @@ constexpr auto make_transition(
 
 template <class Event> struct NextState {
     StateIdx combinedState {};
+    StateIdx parentState {};
     bool history {};
     bool defer {};
     bool valid = false;
diff --git a/include/hsm/details/fill_dispatch_table.h b/include/hsm/details/fill_dispatch_table.h
index c7b3e8f..596a191 100644
--- a/include/hsm/details/fill_dispatch_table.h
+++ b/include/hsm/details/fill_dispatch_table.h
@@ -73,12 +73,19 @@ constexpr auto addDispatchTableEntry(
                     -> void {
                     bh::apply(
                         [=](auto& dispatchTable, auto&& transition2, bool internal) -> void {
+                            const StateIdx parentState
+                                = getParentStateIdx(rootState, transition.parent());
                             const auto defer = false;
                             const auto valid = true;
 
                             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-                            dispatchTable[fromIdx].push_front(
-                                { toIdx, history, defer, valid, internal, std::move(transition2) });
+                            dispatchTable[fromIdx].push_front({ toIdx,
+                                                                parentState,
+                                                                history,
+                                                                defer,
+                                                                valid,
+                                                                internal,
+                                                                std::move(transition2) });
                         },
                         dispatchTables[eventTypeid],
                         make_transition(
@@ -139,11 +146,14 @@ constexpr auto addDispatchTableEntryOfSubMachineExits(
                             auto mappedTarget) {
                             bh::apply(
                                 [=](auto& dispatchTable, auto&& transition2, bool internal) {
+                                    const StateIdx parentState
+                                        = getParentStateIdx(rootState, transition.parent());
                                     const auto defer = false;
                                     const auto valid = true;
                                     // TODO: Since dispatch table is static, transitions might be
                                     // added twice
                                     dispatchTable[fromIdx].push_front({ toIdx,
+                                                                        parentState,
                                                                         history,
                                                                         defer,
                                                                         valid,
diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index 41c566d..a726ef4 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -48,7 +48,8 @@ template <class RootState, class... OptionalParameters> class sm {
 
   public:
     sm(OptionalParameters&... optionalParameters)
-        : m_initial_states()
+        : m_currentCombinedState()
+        , m_initial_states()
         , m_history()
         , m_defer_queue(collect_event_typeids_recursive(rootState))
         , m_statesMap(make_states_map(rootState))
@@ -281,28 +282,47 @@ template <class RootState, class... OptionalParameters> class sm {
             return;
         }
 
+        const auto source = currentParentState(region);
+        const auto target
+            = calcParentStateIdx(nStates(rootState), dispatchTableEntry.combinedState);
+
         if constexpr (has_history(rootState)) {
+            history_of(source, region) = m_currentCombinedState[region];
+        }
+
+        if (dispatchTableEntry.history) {
             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-            history_of(currentParentState(region), region) = m_currentCombinedState[region];
-
-            if (dispatchTableEntry.history) {
-                auto parent
-                    = calcParentStateIdx(nStates(rootState), dispatchTableEntry.combinedState);
-                auto combined = history_of(parent, region);
-                // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-                m_currentCombinedState[region] = combined;
-            } else {
-                // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-                m_currentCombinedState[region] = dispatchTableEntry.combinedState;
-            }
+            m_currentCombinedState[region] = history_of(target, region);
         } else {
             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
             m_currentCombinedState[region] = dispatchTableEntry.combinedState;
         }
 
+        if (dispatchTableEntry.parentState != target) {
+            enter_regions(target, region, dispatchTableEntry.history);
+        }
+
         update_current_regions();
     }
 
+    /**
+     * Puts the regions that become active with a parent state into their initial
+     * state, or into their last state if the parent state is entered by history.
+     */
+    void enter_regions(Idx parentState, Region enteringRegion, bool history)
+    {
+        if constexpr (hasParallelRegions(rootState)) {
+            const auto& initialStates = m_initial_states[parentState];
+            for (Region region = m_currentRegions; region < initialStates.size(); region++) {
+                if (region != enteringRegion) {
+                    // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
+                    m_currentCombinedState[region]
+                        = history ? history_of(parentState, region) : initialStates[region];
+                }
+            }
+        }
+    }
+
     auto history_of(Idx parentState, Region region) -> std::size_t&
     {
         // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-- 
2.43.0


From 7de0e8de1ac21572c4826a1c3050385bbd4a4fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:56 +0000
Subject: [PATCH 07/21] fix: leave all regions of an orthogonal state together

A transition that leaves an orthogonal composite state was taken again for
every further region of the state, and when it was taken by another region
than the first one, the first region stayed inside the left state. The
transition is now taken once and ends all regions of the state, whose last
states are recorded in its history.
---
 include/hsm/details/sm.h | 52 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 48 insertions(+), 4 deletions(-)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index a726ef4..8119bd4 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -33,6 +33,7 @@ template <class RootState, class... OptionalParameters> class sm {
     static constexpr state_t<RootState> rootState {};
 
     using Region = std::uint8_t;
+    static constexpr Idx noParentState = nParentStates(rootState);
     using Events = decltype(collect_event_typeids_recursive(rootState));
     using StatesMap = decltype(make_states_map(rootState));
     using DispatchTables = decltype(make_dispatch_tables(rootState));
@@ -184,8 +185,13 @@ template <class RootState, class... OptionalParameters> class sm {
         bool allTransitionsInvalid = true;
 
         const auto currentRegions = current_regions();
+        auto leftParentState = noParentState;
         for (Region region = 0; region < currentRegions; region++) {
 
+            if (currentParentState(region) == leftParentState) {
+                continue;
+            }
+
             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
             auto& results = get_dispatch_table_entry(event, region);
 
@@ -207,7 +213,7 @@ template <class RootState, class... OptionalParameters> class sm {
 
                 allTransitionsInvalid = false;
                 allGuardsFailed = false;
-                update_current_state(region, result);
+                leftParentState = update_current_state(region, result);
 
                 result.transition->executeAction(event);
                 break;
@@ -242,7 +248,13 @@ template <class RootState, class... OptionalParameters> class sm {
                 auto allGuardsFailed = true;
 
                 const auto currentRegions = current_regions();
+                auto leftParentState = noParentState;
                 for (Region region = 0; region < currentRegions; region++) {
+
+                    if (currentParentState(region) == leftParentState) {
+                        continue;
+                    }
+
                     // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
                     auto& results = get_dispatch_table_entry(event, region);
 
@@ -255,7 +267,7 @@ template <class RootState, class... OptionalParameters> class sm {
                             continue;
                         }
 
-                        update_current_state(region, result);
+                        leftParentState = update_current_state(region, result);
                         result.transition->executeAction(event);
                         allGuardsFailed = false;
                         break;
@@ -276,10 +288,10 @@ template <class RootState, class... OptionalParameters> class sm {
     }
 
     template <class DispatchTableEntry>
-    void update_current_state(Region region, const DispatchTableEntry& dispatchTableEntry)
+    auto update_current_state(Region region, const DispatchTableEntry& dispatchTableEntry) -> Idx
     {
         if (dispatchTableEntry.internal) {
-            return;
+            return noParentState;
         }
 
         const auto source = currentParentState(region);
@@ -290,6 +302,15 @@ template <class RootState, class... OptionalParameters> class sm {
             history_of(source, region) = m_currentCombinedState[region];
         }
 
+        const auto leftParentState
+            = dispatchTableEntry.parentState != source && number_of_regions(source) > 1
+            ? source
+            : noParentState;
+
+        if (leftParentState == source) {
+            region = leave_regions(source, region);
+        }
+
         if (dispatchTableEntry.history) {
             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
             m_currentCombinedState[region] = history_of(target, region);
@@ -303,6 +324,29 @@ template <class RootState, class... OptionalParameters> class sm {
         }
 
         update_current_regions();
+
+        return leftParentState;
+    }
+
+    /**
+     * Ends all regions of an orthogonal parent state.
+     *
+     * Returns: the region in which the transition that left the parent state continues.
+     */
+    auto leave_regions(Idx parentState, Region leavingRegion) -> Region
+    {
+        for (Region region = m_currentRegions; region-- > 0;) {
+            if (currentParentState(region) == parentState) {
+                // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
+                history_of(parentState, region) = m_currentCombinedState[region];
+                leavingRegion = std::min(leavingRegion, region);
+            }
+        }
+
+        m_currentRegions = std::max<std::size_t>(
+            number_of_regions(getParentStateIdx(rootState, rootState)), leavingRegion + 1);
+
+        return leavingRegion;
     }
 
     /**
-- 
2.43.0


From e5a906ff7de1cfc7a83a62ff99d57917c694e9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:14 +0000
Subject: [PATCH 08/21] fix: update the active regions when a state is set

set() into or out of an orthogonal state kept the number of regions of the
old state, so that regions of the new state did not receive events.
---
 include/hsm/details/sm.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index 8119bd4..47170cc 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -148,6 +148,19 @@ template <class RootState, class... OptionalParameters> class sm {
 
         m_currentCombinedState.at(region)
             = getCombinedStateIdx(getCombinedStateTypeids(rootState), parentState, state);
+
+        if constexpr (hasParallelRegions(rootState)) {
+            const auto currentParent = currentParentState();
+            for (Region other = m_currentRegions; other < number_of_regions(currentParent);
+                 other++) {
+                if (currentParentState(other) != currentParent) {
+                    // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
+                    m_currentCombinedState[other] = m_initial_states[currentParent][other];
+                }
+            }
+        }
+
+        update_current_regions();
     }
 
     auto status() -> std::string
-- 
2.43.0


From 835c209da85b360cc5b7d96d5cb336e791bfa7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:14 +0000
Subject: [PATCH 09/21] fix: do not defer an event that a region has processed

An event that was processed by one region and is deferred by a later one
was processed, deferred, reported as not processed, skipped the completion
transitions, and was delivered a second time on recall. An event is now
deferred only if no region has processed it.
---
 include/hsm/details/sm.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index 47170cc..ed2ddf3 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -196,6 +196,7 @@ template <class RootState, class... OptionalParameters> class sm {
     {
         bool allGuardsFailed = true;
         bool allTransitionsInvalid = true;
+        bool eventDeferred = false;
 
         const auto currentRegions = current_regions();
         auto leftParentState = noParentState;
@@ -215,8 +216,8 @@ template <class RootState, class... OptionalParameters> class sm {
             for (auto& result : results) {
 
                 if (result.defer) {
-                    m_defer_queue.push(event);
-                    return ProcessEventResult::EventDefered;
+                    eventDeferred = true;
+                    break;
                 }
 
                 if (!result.transition->executeGuard(event)) {
@@ -233,6 +234,11 @@ template <class RootState, class... OptionalParameters> class sm {
             }
         }
 
+        if (eventDeferred && allGuardsFailed) {
+            m_defer_queue.push(event);
+            return ProcessEventResult::EventDefered;
+        }
+
         if (allTransitionsInvalid) {
             return ProcessEventResult::AllTransitionsInvalid;
         }
-- 
2.43.0


From 3010afaa580bff1a7fa22c78efcc2ebf45f57ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:37 +0000
Subject: [PATCH 10/21] fix: defer events in states without outgoing
 transitions

defer_events() was only honoured for states that are the source of a
transition of their own, not for states that are left through their parent
state or not at all.
---
 include/hsm/details/fill_dispatch_table.h | 31 ++++++++++++++++-------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/include/hsm/details/fill_dispatch_table.h b/include/hsm/details/fill_dispatch_table.h
index 596a191..90ba216 100644
--- a/include/hsm/details/fill_dispatch_table.h
+++ b/include/hsm/details/fill_dispatch_table.h
@@ -6,6 +6,7 @@
 #include "hsm/details/flatten_internal_transition_table.h"
 #include "hsm/details/for_each_idx.h"
 #include "hsm/details/idx.h"
+#include "hsm/details/remove_duplicates.h"
 #include "hsm/details/resolve_state.h"
 #include "hsm/details/to_pairs.h"
 
@@ -232,30 +233,42 @@ constexpr auto fill_dispatch_table_with_transitions(
         });
 }
 
-constexpr auto getDeferingTransitions = [](auto rootState) {
-    constexpr auto transitionHasDeferedEvents
-        = [](auto transition) { return has_deferred_events(resolveExtentedInitialState(transition)); };
+/**
+ * Returns a tuple of pairs of parent state and state of all states that defer events
+ */
+constexpr auto getDeferingStates = [](auto rootState) {
+    constexpr auto toParentStateAndState = [](auto transition) {
+        return bh::make_basic_tuple(
+            bh::make_pair(resolveSrcParent(transition), resolveSrc(transition)),
+            bh::make_pair(resolveDstParent(transition), resolveDst(transition)));
+    };
+    constexpr auto stateHasDeferedEvents
+        = [](auto parentStateAndState) { return has_deferred_events(bh::second(parentStateAndState)); };
 
     constexpr auto transitions = flatten_transition_table(rootState);
-    return bh::filter(transitions, transitionHasDeferedEvents);
+    return bh::filter(
+        remove_duplicates(bh::flatten(bh::transform(transitions, toParentStateAndState))),
+        stateHasDeferedEvents);
 };
 
 constexpr auto hasDeferedEvents = [](auto rootState) {
-    return bh::not_equal(bh::size_c<0>, bh::size(getDeferingTransitions(rootState)));
+    return bh::not_equal(bh::size_c<0>, bh::size(getDeferingStates(rootState)));
 };
 
 template <class RootState, class DispatchTables, class OptionalDependency>
 constexpr auto fill_dispatch_table_with_deferred_events(
     RootState rootState, DispatchTables& dispatchTables, OptionalDependency /*optionalDependency*/)
 {
-    const auto transitions = getDeferingTransitions(rootState);
-    bh::for_each(transitions, [=, &dispatchTables](auto transition) {
-        const auto deferredEvents = get_defer_events(resolveExtentedInitialState(transition));
+    const auto deferingStates = getDeferingStates(rootState);
+    bh::for_each(deferingStates, [=, &dispatchTables](auto parentStateAndState) {
+        const auto deferredEvents = get_defer_events(bh::second(parentStateAndState));
         bh::for_each(deferredEvents, [=, &dispatchTables](auto event) {
             const auto combinedStateTypeids = getCombinedStateTypeids(rootState);
             auto& dispatchTable = dispatchTables[event];
             const auto from = getCombinedStateIdx(
-                combinedStateTypeids, resolveSrcParent(transition), resolveSrc(transition));
+                combinedStateTypeids,
+                bh::first(parentStateAndState),
+                bh::second(parentStateAndState));
 
             dispatchTable[from].push_front({});
             dispatchTable[from].front().defer = true;
-- 
2.43.0


From da4b558721e7ba395260720d87ee75169dad8727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:56 +0000
Subject: [PATCH 11/21] fix: regenerate the single header from the modular
 headers

The single header, which the documentation offers as a way to use the
library, had not been regenerated for a while and lacked later fixes of the
modular headers. Generated as in .github/workflows/disabled-workflows/quom.yml.
---
 include/hsm/gen/hsm.h | 440 +++++++++++++++++++++++++++++++++---------
 1 file changed, 346 insertions(+), 94 deletions(-)

diff --git a/include/hsm/gen/hsm.h b/include/hsm/gen/hsm.h
index 261e64d..d958fe4 100644
--- a/include/hsm/gen/hsm.h
+++ b/include/hsm/gen/hsm.h
@@ -353,7 +353,7 @@ constexpr auto is_initial_state = [](auto typeid_) {
 constexpr auto is_no_action
     = [](auto action) { return bh::equal(bh::typeid_(action), bh::typeid_(noAction {})); };
 
-template <class Action> constexpr decltype(auto) is_action()
+template <class Action> constexpr auto is_action() -> decltype(auto)
 {
     return bh::not_equal(bh::type_c<Action>, bh::typeid_(noAction {}));
 }
@@ -361,7 +361,7 @@ template <class Action> constexpr decltype(auto) is_action()
 constexpr auto is_no_guard
     = [](auto guard) { return bh::equal(bh::typeid_(guard), bh::typeid_(noGuard {})); };
 
-template <class Guard> constexpr decltype(auto) is_guard()
+template <class Guard> constexpr auto is_guard() -> decltype(auto)
 {
     return bh::not_equal(bh::type_c<Guard>, bh::typeid_(noGuard {}));
 }
@@ -450,8 +450,7 @@ template <class Source> struct initial_t;
 
 #include <boost/hana/bool.hpp>
 
-namespace hsm {
-namespace details {
+namespace hsm::details {
 
 namespace bh {
 using namespace boost::hana;
@@ -615,7 +614,6 @@ constexpr auto internal_extended_transition = [](auto parent, auto transition) {
                 transition.target() };
 };
 }
-}
 
 #include <boost/hana/basic_tuple.hpp>
 #include <boost/hana/type.hpp>
@@ -669,13 +667,13 @@ template <class Tuple> constexpr auto to_pairs(const Tuple& tuple)
 }
 }
 
-#include <boost/hana/basic_tuple.hpp>
 #include <boost/hana/drop_while.hpp>
 #include <boost/hana/map.hpp>
 #include <boost/hana/minus.hpp>
 #include <boost/hana/not_equal.hpp>
 #include <boost/hana/range.hpp>
 #include <boost/hana/size.hpp>
+#include <boost/hana/basic_tuple.hpp>
 #include <boost/hana/zip.hpp>
 
 namespace {
@@ -802,7 +800,7 @@ constexpr auto calcParentStateIdx
 constexpr auto calcStateIdx
     = [](std::size_t nStates, Idx combinedState) -> Idx { return combinedState % nStates; };
 
-template <class Event> constexpr decltype(auto) resolveEvent(Event event)
+template <class Event> constexpr auto resolveEvent(Event event) -> decltype(auto)
 {
     if constexpr (is_event(event)) {
         return event.typeid_;
@@ -922,6 +920,24 @@ constexpr auto fill_initial_state_table(State rootState, StateTable& initialStat
         });
 }
 
+template <class State>
+constexpr auto at_least_one_initial_state_has_transition_table(State rootState)
+{
+    return bh::fold_left(
+        collect_initial_states(rootState), bh::false_c, [](auto result, auto initialState) {
+            return bh::or_(result, has_transition_table(initialState));
+        });
+}
+
+template <class State>
+constexpr auto at_least_one_initial_state_has_internal_transition_table(State rootState)
+{
+    return bh::fold_left(
+        collect_initial_states(rootState), bh::false_c, [](auto result, auto initialState) {
+            return bh::or_(result, has_internal_transition_table(initialState));
+        });
+}
+
 /**
  * Returns a tuple of initial state sizes
  *
@@ -965,6 +981,14 @@ constexpr auto has_substate_initial_state_entry_action = [](auto target) {
     }
 };
 
+constexpr auto resolve_initial_pseudo_state = [](auto state) {
+    if constexpr (is_initial_state(state)) {
+        return get_state(state);
+    } else {
+        return state;
+    }
+};
+
 constexpr auto has_pseudo_exit_action = [](auto transition) {
     return bh::and_(
         is_exit_state(transition.source()), has_exit_action(resolveSrcParent(transition)));
@@ -975,11 +999,10 @@ constexpr auto has_action = [](auto transition) {
         bh::not_(is_no_action(transition.action())),
         has_entry_action(transition.target()),
         has_substate_initial_state_entry_action(transition.target()),
-        has_exit_action(transition.source()),
+        has_exit_action(resolve_initial_pseudo_state(transition.source())),
         has_pseudo_exit_action(transition));
 };
 }
-
 #include <boost/hana/functional/apply.hpp>
 
 namespace hsm {
@@ -1093,8 +1116,8 @@ template <class Transition> constexpr auto resolveExitAction(Transition transiti
 
     if constexpr (transition.internal()) {
         return [](auto&&...) {};
-    } else if constexpr (has_exit_action(transition.source())) {
-        return get_exit_action(transition.source());
+    } else if constexpr (has_exit_action(resolve_initial_pseudo_state(transition.source()))) {
+        return get_exit_action(resolve_initial_pseudo_state(transition.source()));
     } else if constexpr (hasPseudoExitAction) {
         return get_exit_action(resolveSrcParent(transition));
     } else {
@@ -1197,6 +1220,12 @@ template <class State> constexpr auto flatten_sub_transition_table(State state);
 
 }
 
+/**
+ * This function iterates recursively trough the transition table of a state provided by
+ * `make_transition_table()` and collects all transitions.
+ *
+ * @return a list of ExtendedTransition
+ */
 template <class State> constexpr auto flatten_transition_table(State state)
 {
     auto flattenSubTransitionTable = [state](auto transition) {
@@ -1227,6 +1256,7 @@ template <class State> constexpr auto flatten_sub_transition_table(State state)
 #include <boost/hana/at.hpp>
 #include <boost/hana/basic_tuple.hpp>
 #include <boost/hana/flatten.hpp>
+#include <boost/hana/prepend.hpp>
 #include <boost/hana/transform.hpp>
 #include <boost/hana/type.hpp>
 
@@ -1270,6 +1300,12 @@ constexpr auto extractStateTypeids = [](auto transition) {
 };
 }
 
+constexpr auto extractParentAndState = [](auto transition) {
+    return bh::make_basic_tuple(
+        bh::make_pair(transition.parent(), resolveInitialState(transition)),
+        bh::make_pair(transition.parent(), transition.target()));
+};
+
 template <class State> constexpr auto collect_child_state_typeids_recursive(State parentState)
 {
     auto transitions = flatten_transition_table(parentState);
@@ -1281,7 +1317,6 @@ template <class State> constexpr auto collect_child_state_typeids_recursive(Stat
 template <class State> constexpr auto collect_child_states_recursive(State parentState)
 {
     return bh::flatten(bh::transform(flatten_transition_table(parentState), extractExtendedStates));
-    ;
 }
 
 template <class State> constexpr auto collect_state_typeids_recursive(State parentState)
@@ -1309,6 +1344,13 @@ template <class State> constexpr auto collect_child_states(State state)
     return remove_duplicates(
         bh::flatten(bh::transform(make_transition_table2(state), extractStates)));
 }
+
+template <class State> constexpr auto collect_state_parentstate_pairs_recursively(State rootState)
+{
+    return remove_duplicates(bh::prepend(
+        bh::flatten(bh::transform(flatten_transition_table(rootState), extractParentAndState)),
+        bh::make_pair(rootState, rootState)));
+}
 }
 
 #include <boost/hana/append.hpp>
@@ -1383,29 +1425,57 @@ constexpr auto extend_internal_transition(Transition internalTransition, States
 }
 
 /**
- * Returns the internal transitions for each for each state
+ * Extends an internal transitions to all provided states
+ *
+ * @param internalTranstion Internal transition that should be extended
+ * @param states tuple of states
+ */
+template <class Transition, class ParentState, class State>
+constexpr auto
+extend_internal_transition2(Transition internalTransition, ParentState parent, State state)
+{
+    return bh::make_basic_tuple(details::internal_extended_transition(
+        parent,
+        details::transition(
+            state,
+            internalTransition.event(),
+            internalTransition.guard(),
+            internalTransition.action(),
+            state)));
+}
+
+/**
+ * Returns the internal transitions for each state
  * [[transition1, transition2], [transition3, transition4], []]
  *
  * @param states a tuple of states
  */
-constexpr auto get_internal_transitions = [](auto states) {
+constexpr auto get_internal_transitions = [](auto stateAndParentStatePairs) {
     return bh::flatten(bh::filter(
         bh::transform(
-            states,
-            [](auto parentState) {
-                constexpr auto extend
-                    = bh::capture(parentState)([](auto parentState, auto transition) {
-                          // Folowing lines satisfies older gcc -Werror=unused-but-set-parameter
-                          (void)transition;
-                          if constexpr (has_transition_table(parentState)) {
-                              return extend_internal_transition(
-                                  transition, collect_child_states(parentState));
-                          } else {
-                              return bh::make_basic_tuple();
-                          }
-                      });
-
-                return bh::transform(get_internal_transition_table(parentState), extend);
+            stateAndParentStatePairs,
+            [](auto stateAndParentStatePair) {
+                constexpr auto extend = bh::capture(stateAndParentStatePair)(
+                    [](auto stateAndParentStatePair, auto internalTransition) {
+                        // Folowing lines satisfies older gcc -Werror=unused-but-set-parameter
+                        (void)internalTransition;
+                        if constexpr (has_transition_table(bh::second(stateAndParentStatePair))) {
+                            return extend_internal_transition(
+                                internalTransition,
+                                collect_child_states(bh::second(stateAndParentStatePair)));
+                        } else if constexpr (has_internal_transition_table(
+                                                 bh::second(stateAndParentStatePair))) {
+                            return extend_internal_transition2(
+                                internalTransition,
+                                bh::first(stateAndParentStatePair),
+                                bh::second(stateAndParentStatePair));
+                        } else {
+                            return bh::make_basic_tuple();
+                        }
+                    });
+
+                return bh::transform(
+                    get_internal_transition_table(bh::second(stateAndParentStatePair)), extend);
             }),
         isNotEmpty));
 };
@@ -1417,9 +1487,10 @@ constexpr auto get_internal_transitions = [](auto states) {
  */
 template <class State> constexpr auto flatten_internal_transition_table(State rootState)
 {
-    return [](auto states) {
-        return bh::to<bh::basic_tuple_tag>(bh::flatten(get_internal_transitions(states)));
-    }(collect_states_recursive(rootState));
+    return [](auto stateAndParentStatePairs) {
+        return remove_duplicate_types(bh::to<bh::basic_tuple_tag>(
+            bh::flatten(get_internal_transitions(stateAndParentStatePairs))));
+    }(collect_state_parentstate_pairs_recursively(rootState));
 }
 
 } // namespace hsm
@@ -1716,6 +1787,7 @@ constexpr auto make_transition(
 
 template <class Event> struct NextState {
     StateIdx combinedState {};
+    StateIdx parentState {};
     bool history {};
     bool defer {};
     bool valid = false;
@@ -1760,7 +1832,7 @@ template <class State> constexpr auto nEvents(State rootState)
     return bh::length(collect_event_typeids_recursive(rootState));
 }
 
-template <class State> constexpr decltype(auto) hasParallelRegions(State rootState)
+template <class State> constexpr auto hasParallelRegions(State rootState) -> decltype(auto)
 {
     return bh::greater(maxInitialStates(rootState), bh::size_c<1>);
 }
@@ -1788,12 +1860,19 @@ constexpr auto addDispatchTableEntry(
                     -> void {
                     bh::apply(
                         [=](auto& dispatchTable, auto&& transition2, bool internal) -> void {
+                            const StateIdx parentState
+                                = getParentStateIdx(rootState, transition.parent());
                             const auto defer = false;
                             const auto valid = true;
 
                             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-                            dispatchTable[fromIdx].push_front(
-                                { toIdx, history, defer, valid, internal, std::move(transition2) });
+                            dispatchTable[fromIdx].push_front({ toIdx,
+                                                                parentState,
+                                                                history,
+                                                                defer,
+                                                                valid,
+                                                                internal,
+                                                                std::move(transition2) });
                         },
                         dispatchTables[eventTypeid],
                         make_transition(
@@ -1840,7 +1919,7 @@ constexpr auto addDispatchTableEntryOfSubMachineExits(
         return;
     }
 
-    constexpr auto parentState = transition.source();
+    const auto parentState = transition.source();
     if constexpr (has_transition_table(parentState)) {
         bh::for_each(collect_child_state_typeids(parentState), [=, &dispatchTables](auto state) {
             bh::apply(
@@ -1854,11 +1933,14 @@ constexpr auto addDispatchTableEntryOfSubMachineExits(
                             auto mappedTarget) {
                             bh::apply(
                                 [=](auto& dispatchTable, auto&& transition2, bool internal) {
+                                    const StateIdx parentState
+                                        = getParentStateIdx(rootState, transition.parent());
                                     const auto defer = false;
                                     const auto valid = true;
                                     // TODO: Since dispatch table is static, transitions might be
                                     // added twice
                                     dispatchTable[fromIdx].push_front({ toIdx,
+                                                                        parentState,
                                                                         history,
                                                                         defer,
                                                                         valid,
@@ -1937,30 +2019,42 @@ constexpr auto fill_dispatch_table_with_transitions(
         });
 }
 
-constexpr auto getDeferingTransitions = [](auto rootState) {
-    constexpr auto transitionHasDeferedEvents
-        = [](auto transition) { return has_deferred_events(resolveExtentedInitialState(transition)); };
+/**
+ * Returns a tuple of pairs of parent state and state of all states that defer events
+ */
+constexpr auto getDeferingStates = [](auto rootState) {
+    constexpr auto toParentStateAndState = [](auto transition) {
+        return bh::make_basic_tuple(
+            bh::make_pair(resolveSrcParent(transition), resolveSrc(transition)),
+            bh::make_pair(resolveDstParent(transition), resolveDst(transition)));
+    };
+    constexpr auto stateHasDeferedEvents
+        = [](auto parentStateAndState) { return has_deferred_events(bh::second(parentStateAndState)); };
 
     constexpr auto transitions = flatten_transition_table(rootState);
-    return bh::filter(transitions, transitionHasDeferedEvents);
+    return bh::filter(
+        remove_duplicates(bh::flatten(bh::transform(transitions, toParentStateAndState))),
+        stateHasDeferedEvents);
 };
 
 constexpr auto hasDeferedEvents = [](auto rootState) {
-    return bh::not_equal(bh::size_c<0>, bh::size(getDeferingTransitions(rootState)));
+    return bh::not_equal(bh::size_c<0>, bh::size(getDeferingStates(rootState)));
 };
 
 template <class RootState, class DispatchTables, class OptionalDependency>
 constexpr auto fill_dispatch_table_with_deferred_events(
     RootState rootState, DispatchTables& dispatchTables, OptionalDependency /*optionalDependency*/)
 {
-    const auto transitions = getDeferingTransitions(rootState);
-    bh::for_each(transitions, [=, &dispatchTables](auto transition) {
-        const auto deferredEvents = get_defer_events(resolveExtentedInitialState(transition));
+    const auto deferingStates = getDeferingStates(rootState);
+    bh::for_each(deferingStates, [=, &dispatchTables](auto parentStateAndState) {
+        const auto deferredEvents = get_defer_events(bh::second(parentStateAndState));
         bh::for_each(deferredEvents, [=, &dispatchTables](auto event) {
             const auto combinedStateTypeids = getCombinedStateTypeids(rootState);
             auto& dispatchTable = dispatchTables[event];
             const auto from = getCombinedStateIdx(
-                combinedStateTypeids, resolveSrcParent(transition), resolveSrc(transition));
+                combinedStateTypeids,
+                bh::first(parentStateAndState),
+                bh::second(parentStateAndState));
 
             dispatchTable[from].push_front({});
             dispatchTable[from].front().defer = true;
@@ -2283,8 +2377,11 @@ public:
 
 #include <boost/hana/basic_tuple.hpp>
 #include <boost/hana/contains.hpp>
+#include <boost/hana/for_each.hpp>
+#include <boost/hana/keys.hpp>
 #include <boost/hana/type.hpp>
 
+#include <algorithm>
 #include <array>
 #include <cstdint>
 #include <iostream>
@@ -2301,6 +2398,7 @@ template <class RootState, class... OptionalParameters> class sm {
     static constexpr state_t<RootState> rootState {};
 
     using Region = std::uint8_t;
+    static constexpr Idx noParentState = nParentStates(rootState);
     using Events = decltype(collect_event_typeids_recursive(rootState));
     using StatesMap = decltype(make_states_map(rootState));
     using DispatchTables = decltype(make_dispatch_tables(rootState));
@@ -2316,7 +2414,8 @@ template <class RootState, class... OptionalParameters> class sm {
 
   public:
     sm(OptionalParameters&... optionalParameters)
-        : m_initial_states()
+        : m_currentCombinedState()
+        , m_initial_states()
         , m_history()
         , m_defer_queue(collect_event_typeids_recursive(rootState))
         , m_statesMap(make_states_map(rootState))
@@ -2329,18 +2428,18 @@ template <class RootState, class... OptionalParameters> class sm {
         static_assert(
             maxInitialStates(rootState),
             "Transition table needs to have at least one initial state");
+        static_assert(
+            bh::not_(at_least_one_initial_state_has_transition_table(rootState)),
+            "At least one initial state of the state machine has sub states/transition tables. "
+            "This is not allowed.");
+        static_assert(
+            bh::not_(at_least_one_initial_state_has_internal_transition_table(rootState)),
+            "At least one initial state of the state machine has internal transition tables. This "
+            "is not allowed.");
 
         auto optionalDependency = bh::make_basic_tuple(std::ref(optionalParameters)...);
 
-        if constexpr (has_unexpected_event_handler(rootState)) {
-            fill_unexpected_event_handler_tables(
-                rootState,
-                m_statesMap,
-                m_unexpectedEventHandlerTables,
-                get_unexpected_event_handler(rootState),
-                optionalDependency);
-        }
-
+        fill_unexpected_event_handler_table(optionalDependency);
         fill_dispatch_table(optionalDependency);
         fill_initial_state_table(rootState, m_initial_states);
         fill_initial_state_table(rootState, m_history);
@@ -2348,7 +2447,7 @@ template <class RootState, class... OptionalParameters> class sm {
         update_current_regions();
     }
 
-    template <class Event> auto process_event(Event&& event)
+    template <class Event> auto process_event(Event&& event) -> bool
     {
         static_assert(
             bh::contains(
@@ -2356,12 +2455,17 @@ template <class RootState, class... OptionalParameters> class sm {
                 bh::type_c<typename std::remove_reference<Event>::type>),
             "Processed event was not found in the transition table");
 
-        if (!process_event_internal(event)) {
+        switch (process_event_internal(event)) {
+        case ProcessEventResult::AllTransitionsInvalid:
             call_unexpected_event_handler(event);
-            return;
+            [[fallthrough]];
+        case ProcessEventResult::EventDefered:
+        case ProcessEventResult::AllGuardsFailed:
+            return false;
+        case ProcessEventResult::EventProcessed:
+            process_deferred_events();
         }
-
-        process_deferred_events();
+        return true;
     }
 
     template <class State> auto is(State state) -> bool
@@ -2378,7 +2482,7 @@ template <class RootState, class... OptionalParameters> class sm {
     template <class ParentState, class State>
     auto is(Region region, ParentState parentState, State state) -> bool
     {
-        return currentParentState() == getParentStateIdx(rootState, parentState)
+        return currentParentState(region) == getParentStateIdx(rootState, parentState)
             && currentState(region) == getStateIdx(rootState, state);
     }
 
@@ -2387,14 +2491,51 @@ template <class RootState, class... OptionalParameters> class sm {
         return currentParentState() == getParentStateIdx(rootState, parentState);
     }
 
+    template <class State> auto set(State state) -> void
+    {
+        set(0, rootState, state);
+    }
+
+    template <class ParentState, class State> auto set(ParentState parentState, State state) -> void
+    {
+        set(0, parentState, state);
+    }
+
+    template <class ParentState, class State>
+    auto set(Region region, ParentState parentState, State state) -> void
+    {
+        static_assert(
+            bh::contains(collect_state_typeids_recursive(rootState), bh::typeid_(state)),
+            "State does not exist in transition table");
+        static_assert(
+            bh::contains(collect_parent_state_typeids(rootState), bh::typeid_(parentState)),
+            "Parent state does not exist in transition table");
+
+        m_currentCombinedState.at(region)
+            = getCombinedStateIdx(getCombinedStateTypeids(rootState), parentState, state);
+
+        if constexpr (hasParallelRegions(rootState)) {
+            const auto currentParent = currentParentState();
+            for (Region other = m_currentRegions; other < number_of_regions(currentParent);
+                 other++) {
+                if (currentParentState(other) != currentParent) {
+                    // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
+                    m_currentCombinedState[other] = m_initial_states[currentParent][other];
+                }
+            }
+        }
+
+        update_current_regions();
+    }
+
     auto status() -> std::string
     {
         std::stringstream statusStream;
         const auto currentRegions = current_regions();
         for (Region region = 0; region < currentRegions; region++) {
-            statusStream << "[" << region << "] "
+            statusStream << "[" << static_cast<std::size_t>(region) << "] "
                          << "combined: " << m_currentCombinedState[region] << " "
-                         << "parent: " << currentParentState() << " "
+                         << "parent: " << currentParentState(region) << " "
                          << "state: " << currentState(region);
         }
         return statusStream.str();
@@ -2403,18 +2544,33 @@ template <class RootState, class... OptionalParameters> class sm {
     auto set_dependency(OptionalParameters&... optionalParameters)
     {
         auto optionalDependency = bh::make_basic_tuple(std::ref(optionalParameters)...);
+        clear_dispatch_table();
+        fill_unexpected_event_handler_table(optionalDependency);
         fill_dispatch_table(optionalDependency);
     }
 
   private:
-    template <class Event> auto process_event_internal(Event&& event) -> bool
+    enum class ProcessEventResult {
+        AllTransitionsInvalid,
+        AllGuardsFailed,
+        EventProcessed,
+        EventDefered
+    };
+
+    template <class Event> auto process_event_internal(Event&& event) -> ProcessEventResult
     {
         bool allGuardsFailed = true;
         bool allTransitionsInvalid = true;
+        bool eventDeferred = false;
 
         const auto currentRegions = current_regions();
+        auto leftParentState = noParentState;
         for (Region region = 0; region < currentRegions; region++) {
 
+            if (currentParentState(region) == leftParentState) {
+                continue;
+            }
+
             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
             auto& results = get_dispatch_table_entry(event, region);
 
@@ -2425,8 +2581,8 @@ template <class RootState, class... OptionalParameters> class sm {
             for (auto& result : results) {
 
                 if (result.defer) {
-                    m_defer_queue.push(event);
-                    return true;
+                    eventDeferred = true;
+                    break;
                 }
 
                 if (!result.transition->executeGuard(event)) {
@@ -2436,23 +2592,28 @@ template <class RootState, class... OptionalParameters> class sm {
 
                 allTransitionsInvalid = false;
                 allGuardsFailed = false;
-                update_current_state(region, result);
+                leftParentState = update_current_state(region, result);
 
                 result.transition->executeAction(event);
                 break;
             }
         }
 
+        if (eventDeferred && allGuardsFailed) {
+            m_defer_queue.push(event);
+            return ProcessEventResult::EventDefered;
+        }
+
         if (allTransitionsInvalid) {
-            return false;
+            return ProcessEventResult::AllTransitionsInvalid;
         }
 
         if (allGuardsFailed) {
-            return true;
+            return ProcessEventResult::AllGuardsFailed;
         }
 
-        process_anonymous_transitions();
-        return true;
+        process_anonymous_transitions(noneEvent {});
+        return ProcessEventResult::EventProcessed;
     }
 
     auto process_deferred_events()
@@ -2464,16 +2625,20 @@ template <class RootState, class... OptionalParameters> class sm {
         }
     }
 
-    auto process_anonymous_transitions()
+    template <class Event> auto process_anonymous_transitions(Event&& event)
     {
         if constexpr (has_anonymous_transition(rootState)) {
             while (true) {
                 auto allGuardsFailed = true;
 
                 const auto currentRegions = current_regions();
+                auto leftParentState = noParentState;
                 for (Region region = 0; region < currentRegions; region++) {
 
-                    auto event = noneEvent {};
+                    if (currentParentState(region) == leftParentState) {
+                        continue;
+                    }
+
                     // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
                     auto& results = get_dispatch_table_entry(event, region);
 
@@ -2486,7 +2651,7 @@ template <class RootState, class... OptionalParameters> class sm {
                             continue;
                         }
 
-                        update_current_state(region, result);
+                        leftParentState = update_current_state(region, result);
                         result.transition->executeAction(event);
                         allGuardsFailed = false;
                         break;
@@ -2507,43 +2672,107 @@ template <class RootState, class... OptionalParameters> class sm {
     }
 
     template <class DispatchTableEntry>
-    void update_current_state(Region region, const DispatchTableEntry& dispatchTableEntry)
+    auto update_current_state(Region region, const DispatchTableEntry& dispatchTableEntry) -> Idx
     {
         if (dispatchTableEntry.internal) {
-            return;
+            return noParentState;
         }
 
+        const auto source = currentParentState(region);
+        const auto target
+            = calcParentStateIdx(nStates(rootState), dispatchTableEntry.combinedState);
+
         if constexpr (has_history(rootState)) {
-            // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-            m_history[currentParentState()][region] = m_currentCombinedState[region];
+            history_of(source, region) = m_currentCombinedState[region];
+        }
 
-            if (dispatchTableEntry.history) {
-                auto parent
-                    = calcParentStateIdx(nStates(rootState), dispatchTableEntry.combinedState);
-                // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-                auto combined = m_history[parent][region];
-                // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-                m_currentCombinedState[region] = combined;
-            } else {
-                // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-                m_currentCombinedState[region] = dispatchTableEntry.combinedState;
-            }
+        const auto leftParentState
+            = dispatchTableEntry.parentState != source && number_of_regions(source) > 1
+            ? source
+            : noParentState;
+
+        if (leftParentState == source) {
+            region = leave_regions(source, region);
+        }
+
+        if (dispatchTableEntry.history) {
+            // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
+            m_currentCombinedState[region] = history_of(target, region);
         } else {
             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
             m_currentCombinedState[region] = dispatchTableEntry.combinedState;
         }
 
+        if (dispatchTableEntry.parentState != target) {
+            enter_regions(target, region, dispatchTableEntry.history);
+        }
+
         update_current_regions();
+
+        return leftParentState;
+    }
+
+    /**
+     * Ends all regions of an orthogonal parent state.
+     *
+     * Returns: the region in which the transition that left the parent state continues.
+     */
+    auto leave_regions(Idx parentState, Region leavingRegion) -> Region
+    {
+        for (Region region = m_currentRegions; region-- > 0;) {
+            if (currentParentState(region) == parentState) {
+                // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
+                history_of(parentState, region) = m_currentCombinedState[region];
+                leavingRegion = std::min(leavingRegion, region);
+            }
+        }
+
+        m_currentRegions = std::max<std::size_t>(
+            number_of_regions(getParentStateIdx(rootState, rootState)), leavingRegion + 1);
+
+        return leavingRegion;
+    }
+
+    /**
+     * Puts the regions that become active with a parent state into their initial
+     * state, or into their last state if the parent state is entered by history.
+     */
+    void enter_regions(Idx parentState, Region enteringRegion, bool history)
+    {
+        if constexpr (hasParallelRegions(rootState)) {
+            const auto& initialStates = m_initial_states[parentState];
+            for (Region region = m_currentRegions; region < initialStates.size(); region++) {
+                if (region != enteringRegion) {
+                    // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
+                    m_currentCombinedState[region]
+                        = history ? history_of(parentState, region) : initialStates[region];
+                }
+            }
+        }
+    }
+
+    auto history_of(Idx parentState, Region region) -> std::size_t&
+    {
+        // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
+        auto& states = m_history[parentState];
+        return region < states.size() ? states[region] : states.front();
     }
 
     void update_current_regions()
     {
         if constexpr (hasParallelRegions(rootState)) {
-            // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-            m_currentRegions = m_initial_states[currentParentState()].size();
+            m_currentRegions = std::max(
+                number_of_regions(getParentStateIdx(rootState, rootState)),
+                number_of_regions(currentParentState()));
         }
     }
 
+    auto number_of_regions(Idx parentState) -> std::size_t
+    {
+        // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
+        return m_initial_states[parentState].size();
+    }
+
     auto current_regions() -> std::size_t
     {
         if constexpr (hasParallelRegions(rootState)) {
@@ -2568,9 +2797,9 @@ template <class RootState, class... OptionalParameters> class sm {
         return calcStateIdx(nStates(rootState), m_currentCombinedState.at(region));
     }
 
-    auto currentParentState()
+    auto currentParentState(Region region = 0)
     {
-        return calcParentStateIdx(nStates(rootState), m_currentCombinedState[0]);
+        return calcParentStateIdx(nStates(rootState), m_currentCombinedState.at(region));
     }
 
     void init_current_state()
@@ -2590,6 +2819,29 @@ template <class RootState, class... OptionalParameters> class sm {
         return m_dispatchTables[bh::typeid_(event)][m_currentCombinedState[region]];
     }
 
+    void clear_dispatch_table()
+    {
+        bh::for_each(bh::keys(m_dispatchTables), [this](auto eventTypeid) {
+            for (auto& results : m_dispatchTables[eventTypeid]) {
+                results.clear();
+            }
+        });
+    }
+
+    template <class OptionalDependency>
+    void fill_unexpected_event_handler_table(OptionalDependency& optionalDependency)
+    {
+        (void)optionalDependency;
+        if constexpr (has_unexpected_event_handler(rootState)) {
+            fill_unexpected_event_handler_tables(
+                rootState,
+                m_statesMap,
+                m_unexpectedEventHandlerTables,
+                get_unexpected_event_handler(rootState),
+                optionalDependency);
+        }
+    }
+
     template <class OptionalDependency>
     void fill_dispatch_table(OptionalDependency& optionalDependency)
     {
@@ -2930,4 +3182,4 @@ template <class Source, class Guard> class TransitionSG {
 namespace hsm {
 constexpr auto transition = details::transition;
 constexpr auto internal_transition = details::internal_transition;
-}
\ No newline at end of file
+}
-- 
2.43.0


From 9bd420f9e25807e2b21e8938eb644fe1d0c9b410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:45 +0000
Subject: [PATCH 12/21] fix: start ended regions over when their state is set
 again

---
 include/hsm/details/sm.h | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index ed2ddf3..5164f5d 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -362,12 +362,29 @@ template <class RootState, class... OptionalParameters> class sm {
             }
         }
 
-        m_currentRegions = std::max<std::size_t>(
-            number_of_regions(getParentStateIdx(rootState, rootState)), leavingRegion + 1);
+        end_regions(std::max<std::size_t>(
+            number_of_regions(getParentStateIdx(rootState, rootState)), leavingRegion + 1));
 
         return leavingRegion;
     }
 
+    /**
+     * Deactivates all regions but the first ones. A region that has ended starts over
+     * when its parent state is entered again, also if it is entered by set().
+     */
+    void end_regions(std::size_t remainingRegions)
+    {
+        for (Region region = remainingRegions; region < m_currentRegions; region++) {
+            const auto& initialStates = m_initial_states[currentParentState(region)];
+            if (region < initialStates.size()) {
+                // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
+                m_currentCombinedState[region] = initialStates[region];
+            }
+        }
+
+        m_currentRegions = remainingRegions;
+    }
+
     /**
      * Puts the regions that become active with a parent state into their initial
      * state, or into their last state if the parent state is entered by history.
@@ -396,9 +413,9 @@ template <class RootState, class... OptionalParameters> class sm {
     void update_current_regions()
     {
         if constexpr (hasParallelRegions(rootState)) {
-            m_currentRegions = std::max(
+            end_regions(std::max(
                 number_of_regions(getParentStateIdx(rootState, rootState)),
-                number_of_regions(currentParentState()));
+                number_of_regions(currentParentState())));
         }
     }
 
-- 
2.43.0


From 72380f317ba987f86335a567460847b1fe08274a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:45 +0000
Subject: [PATCH 13/21] fix: update the single header

---
 include/hsm/gen/hsm.h | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/include/hsm/gen/hsm.h b/include/hsm/gen/hsm.h
index d958fe4..6b776cc 100644
--- a/include/hsm/gen/hsm.h
+++ b/include/hsm/gen/hsm.h
@@ -2727,12 +2727,29 @@ template <class RootState, class... OptionalParameters> class sm {
             }
         }
 
-        m_currentRegions = std::max<std::size_t>(
-            number_of_regions(getParentStateIdx(rootState, rootState)), leavingRegion + 1);
+        end_regions(std::max<std::size_t>(
+            number_of_regions(getParentStateIdx(rootState, rootState)), leavingRegion + 1));
 
         return leavingRegion;
     }
 
+    /**
+     * Deactivates all regions but the first ones. A region that has ended starts over
+     * when its parent state is entered again, also if it is entered by set().
+     */
+    void end_regions(std::size_t remainingRegions)
+    {
+        for (Region region = remainingRegions; region < m_currentRegions; region++) {
+            const auto& initialStates = m_initial_states[currentParentState(region)];
+            if (region < initialStates.size()) {
+                // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
+                m_currentCombinedState[region] = initialStates[region];
+            }
+        }
+
+        m_currentRegions = remainingRegions;
+    }
+
     /**
      * Puts the regions that become active with a parent state into their initial
      * state, or into their last state if the parent state is entered by history.
@@ -2761,9 +2778,9 @@ template <class RootState, class... OptionalParameters> class sm {
     void update_current_regions()
     {
         if constexpr (hasParallelRegions(rootState)) {
-            m_currentRegions = std::max(
+            end_regions(std::max(
                 number_of_regions(getParentStateIdx(rootState, rootState)),
-                number_of_regions(currentParentState()));
+                number_of_regions(currentParentState())));
         }
     }
 
-- 
2.43.0


From 7b74d6e5c57e9e01ad3d8b452d0b49dd47e6a5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:04 +0000
Subject: [PATCH 14/21] fix: reject root states without initial state

---
 include/hsm/details/sm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index 5164f5d..9d4752c 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -61,7 +61,7 @@ template <class RootState, class... OptionalParameters> class sm {
             bh::size(flatten_transition_table(rootState)),
             "Transition table needs at least one transition");
         static_assert(
-            maxInitialStates(rootState),
+            bh::size(collect_initial_states(rootState)),
             "Transition table needs to have at least one initial state");
         static_assert(
             bh::not_(at_least_one_initial_state_has_transition_table(rootState)),
-- 
2.43.0


From ae7cacbef820e1afb24d1aca9909a22919732b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:04 +0000
Subject: [PATCH 15/21] fix: update the single header for the initial state
 check

---
 include/hsm/gen/hsm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hsm/gen/hsm.h b/include/hsm/gen/hsm.h
index 6b776cc..30761af 100644
--- a/include/hsm/gen/hsm.h
+++ b/include/hsm/gen/hsm.h
@@ -2426,7 +2426,7 @@ template <class RootState, class... OptionalParameters> class sm {
             bh::size(flatten_transition_table(rootState)),
             "Transition table needs at least one transition");
         static_assert(
-            maxInitialStates(rootState),
+            bh::size(collect_initial_states(rootState)),
             "Transition table needs to have at least one initial state");
         static_assert(
             bh::not_(at_least_one_initial_state_has_transition_table(rootState)),
-- 
2.43.0


From 07d7bd002e1f2217c000024db467b6bfdd435d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:31 +0000
Subject: [PATCH 16/21] fix: dispatch events only to regions that are active

A transition out of an orthogonal state ends its regions. If it led into another
orthogonal state, the regions of that one got the same event a second time, and if
an event processed by a callback ended the regions, they got the outer event.
---
 include/hsm/details/sm.h | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index 9d4752c..af1b87d 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -198,9 +198,9 @@ template <class RootState, class... OptionalParameters> class sm {
         bool allTransitionsInvalid = true;
         bool eventDeferred = false;
 
-        const auto currentRegions = current_regions();
+        auto currentRegions = current_regions();
         auto leftParentState = noParentState;
-        for (Region region = 0; region < currentRegions; region++) {
+        for (Region region = 0; is_active(region, currentRegions); region++) {
 
             if (currentParentState(region) == leftParentState) {
                 continue;
@@ -228,6 +228,7 @@ template <class RootState, class... OptionalParameters> class sm {
                 allTransitionsInvalid = false;
                 allGuardsFailed = false;
                 leftParentState = update_current_state(region, result);
+                currentRegions = remaining_regions(currentRegions, leftParentState);
 
                 result.transition->executeAction(event);
                 break;
@@ -266,9 +267,9 @@ template <class RootState, class... OptionalParameters> class sm {
             while (true) {
                 auto allGuardsFailed = true;
 
-                const auto currentRegions = current_regions();
+                auto currentRegions = current_regions();
                 auto leftParentState = noParentState;
-                for (Region region = 0; region < currentRegions; region++) {
+                for (Region region = 0; is_active(region, currentRegions); region++) {
 
                     if (currentParentState(region) == leftParentState) {
                         continue;
@@ -287,6 +288,7 @@ template <class RootState, class... OptionalParameters> class sm {
                         }
 
                         leftParentState = update_current_state(region, result);
+                        currentRegions = remaining_regions(currentRegions, leftParentState);
                         result.transition->executeAction(event);
                         allGuardsFailed = false;
                         break;
@@ -434,6 +436,28 @@ template <class RootState, class... OptionalParameters> class sm {
         }
     }
 
+    /**
+     * A callback may end regions by processing a further event.
+     */
+    auto is_active(Region region, std::size_t currentRegions) -> bool
+    {
+        return region < currentRegions && region < current_regions();
+    }
+
+    /**
+     * The regions that still get an event: when an orthogonal parent state has been left,
+     * its regions have ended, and the regions entered instead do not get the event.
+     */
+    auto remaining_regions(std::size_t currentRegions, Idx leftParentState) -> std::size_t
+    {
+        if (leftParentState == noParentState) {
+            return currentRegions;
+        }
+
+        return std::min(
+            currentRegions, number_of_regions(getParentStateIdx(rootState, rootState)));
+    }
+
     template <class Event> auto call_unexpected_event_handler(Event& event)
     {
         if constexpr (has_unexpected_event_handler(rootState)) {
-- 
2.43.0


From 241da7f1f386bd4da1fa3da1b55575119d0f442a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:31 +0000
Subject: [PATCH 17/21] fix: update the single header for the region activity
 check

---
 include/hsm/gen/hsm.h | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/include/hsm/gen/hsm.h b/include/hsm/gen/hsm.h
index 30761af..962be0b 100644
--- a/include/hsm/gen/hsm.h
+++ b/include/hsm/gen/hsm.h
@@ -2563,9 +2563,9 @@ template <class RootState, class... OptionalParameters> class sm {
         bool allTransitionsInvalid = true;
         bool eventDeferred = false;
 
-        const auto currentRegions = current_regions();
+        auto currentRegions = current_regions();
         auto leftParentState = noParentState;
-        for (Region region = 0; region < currentRegions; region++) {
+        for (Region region = 0; is_active(region, currentRegions); region++) {
 
             if (currentParentState(region) == leftParentState) {
                 continue;
@@ -2593,6 +2593,7 @@ template <class RootState, class... OptionalParameters> class sm {
                 allTransitionsInvalid = false;
                 allGuardsFailed = false;
                 leftParentState = update_current_state(region, result);
+                currentRegions = remaining_regions(currentRegions, leftParentState);
 
                 result.transition->executeAction(event);
                 break;
@@ -2631,9 +2632,9 @@ template <class RootState, class... OptionalParameters> class sm {
             while (true) {
                 auto allGuardsFailed = true;
 
-                const auto currentRegions = current_regions();
+                auto currentRegions = current_regions();
                 auto leftParentState = noParentState;
-                for (Region region = 0; region < currentRegions; region++) {
+                for (Region region = 0; is_active(region, currentRegions); region++) {
 
                     if (currentParentState(region) == leftParentState) {
                         continue;
@@ -2652,6 +2653,7 @@ template <class RootState, class... OptionalParameters> class sm {
                         }
 
                         leftParentState = update_current_state(region, result);
+                        currentRegions = remaining_regions(currentRegions, leftParentState);
                         result.transition->executeAction(event);
                         allGuardsFailed = false;
                         break;
@@ -2799,6 +2801,28 @@ template <class RootState, class... OptionalParameters> class sm {
         }
     }
 
+    /**
+     * A callback may end regions by processing a further event.
+     */
+    auto is_active(Region region, std::size_t currentRegions) -> bool
+    {
+        return region < currentRegions && region < current_regions();
+    }
+
+    /**
+     * The regions that still get an event: when an orthogonal parent state has been left,
+     * its regions have ended, and the regions entered instead do not get the event.
+     */
+    auto remaining_regions(std::size_t currentRegions, Idx leftParentState) -> std::size_t
+    {
+        if (leftParentState == noParentState) {
+            return currentRegions;
+        }
+
+        return std::min(
+            currentRegions, number_of_regions(getParentStateIdx(rootState, rootState)));
+    }
+
     template <class Event> auto call_unexpected_event_handler(Event& event)
     {
         if constexpr (has_unexpected_event_handler(rootState)) {
-- 
2.43.0


From 70d069be5e35668f9a5f4cacf47f50fb38c0eff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:49 +0000
Subject: [PATCH 18/21] fix: do not use the source state after create_state
 replaced it

---
 include/hsm/details/chain_actions.h | 30 ++++++++++++++++++++++-
 include/hsm/details/resolve_state.h |  9 ++++---
 include/hsm/gen/hsm.h               | 38 +++++++++++++++++++++++++----
 3 files changed, 67 insertions(+), 10 deletions(-)

diff --git a/include/hsm/details/chain_actions.h b/include/hsm/details/chain_actions.h
index 85592c4..6b8e012 100644
--- a/include/hsm/details/chain_actions.h
+++ b/include/hsm/details/chain_actions.h
@@ -1,9 +1,36 @@
 #pragma once
 
+#include <memory>
 #include <tuple>
 
 namespace hsm {
 
+namespace details {
+
+/*
+ * Calls an action with its arguments
+ */
+template <class Action, class... Args> constexpr void call_action(Action&& action, Args&... args)
+{
+    action(args...);
+}
+
+/*
+ * Calls an action of a transition whose source and target are the same state. An action called
+ * before (see create_state) may have replaced the object of that state.
+ */
+template <class Action, class Event, class State, class... Dependencies>
+constexpr void call_action(
+    Action&& action,
+    Event& event,
+    State& /*source*/,
+    std::shared_ptr<std::unique_ptr<State>>& target,
+    Dependencies&... dependencies)
+{
+    action(event, **target, target, dependencies...);
+}
+}
+
 /*
  * Chain abitrary number of actions to be used in the single transition
  *
@@ -11,7 +38,8 @@ namespace hsm {
  */
 constexpr auto chain_actions = [](auto... actions) {
     return [=](auto&&... args) {
-        return std::apply([&](auto... f) { (f(args...), ...); }, std::tie(actions...));
+        return std::apply(
+            [&](auto... f) { (details::call_action(f, args...), ...); }, std::tie(actions...));
     };
 };
 
diff --git a/include/hsm/details/resolve_state.h b/include/hsm/details/resolve_state.h
index 03ca0af..63efdc7 100644
--- a/include/hsm/details/resolve_state.h
+++ b/include/hsm/details/resolve_state.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include "hsm/details/chain_actions.h"
 #include "hsm/details/has_action.h"
 #include "hsm/details/traits.h"
 #include <boost/hana/functional/apply.hpp>
@@ -141,10 +142,10 @@ template <class Transition> constexpr auto resolveEntryExitAction(Transition tra
             action(resolveNoAction(transition)),
             entryAction(resolveEntryAction(transition)),
             initialStateEntryAction(resolveInitialStateEntryAction(transition))](auto&&... params) {
-        exitAction(std::forward<decltype(params)>(params)...);
-        action(std::forward<decltype(params)>(params)...);
-        entryAction(std::forward<decltype(params)>(params)...);
-        initialStateEntryAction(std::forward<decltype(params)>(params)...);
+        details::call_action(exitAction, params...);
+        details::call_action(action, params...);
+        details::call_action(entryAction, params...);
+        details::call_action(initialStateEntryAction, params...);
     };
 }
 
diff --git a/include/hsm/gen/hsm.h b/include/hsm/gen/hsm.h
index 962be0b..66a1027 100644
--- a/include/hsm/gen/hsm.h
+++ b/include/hsm/gen/hsm.h
@@ -1,9 +1,36 @@
 #pragma once
 
+#include <memory>
 #include <tuple>
 
 namespace hsm {
 
+namespace details {
+
+/*
+ * Calls an action with its arguments
+ */
+template <class Action, class... Args> constexpr void call_action(Action&& action, Args&... args)
+{
+    action(args...);
+}
+
+/*
+ * Calls an action of a transition whose source and target are the same state. An action called
+ * before (see create_state) may have replaced the object of that state.
+ */
+template <class Action, class Event, class State, class... Dependencies>
+constexpr void call_action(
+    Action&& action,
+    Event& event,
+    State& /*source*/,
+    std::shared_ptr<std::unique_ptr<State>>& target,
+    Dependencies&... dependencies)
+{
+    action(event, **target, target, dependencies...);
+}
+}
+
 /*
  * Chain abitrary number of actions to be used in the single transition
  *
@@ -11,7 +38,8 @@ namespace hsm {
  */
 constexpr auto chain_actions = [](auto... actions) {
     return [=](auto&&... args) {
-        return std::apply([&](auto... f) { (f(args...), ...); }, std::tie(actions...));
+        return std::apply(
+            [&](auto... f) { (details::call_action(f, args...), ...); }, std::tie(actions...));
     };
 };
 
@@ -1142,10 +1170,10 @@ template <class Transition> constexpr auto resolveEntryExitAction(Transition tra
             action(resolveNoAction(transition)),
             entryAction(resolveEntryAction(transition)),
             initialStateEntryAction(resolveInitialStateEntryAction(transition))](auto&&... params) {
-        exitAction(std::forward<decltype(params)>(params)...);
-        action(std::forward<decltype(params)>(params)...);
-        entryAction(std::forward<decltype(params)>(params)...);
-        initialStateEntryAction(std::forward<decltype(params)>(params)...);
+        details::call_action(exitAction, params...);
+        details::call_action(action, params...);
+        details::call_action(entryAction, params...);
+        details::call_action(initialStateEntryAction, params...);
     };
 }
 
-- 
2.43.0


From 8ebacdffddd0c2ea76df6fad6feeb64bcbd4b896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:52 +0000
Subject: [PATCH 19/21] fix: keep internal transitions that have the same type

Internal transitions whose guards and actions are function pointers, or closures of
one lambda with different captures, are different although their types are equal. Only
the first one was put into the dispatch table.
---
 include/hsm/details/fill_dispatch_table.h     |  2 +-
 .../flatten_internal_transition_table.h       | 38 ++++++++++++++++---
 2 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/include/hsm/details/fill_dispatch_table.h b/include/hsm/details/fill_dispatch_table.h
index 90ba216..33f03f4 100644
--- a/include/hsm/details/fill_dispatch_table.h
+++ b/include/hsm/details/fill_dispatch_table.h
@@ -303,6 +303,6 @@ constexpr auto fill_dispatch_table_with_internal_transitions(
         dispatchTables,
         statesMap,
         optionalDependecy,
-        flatten_internal_transition_table(rootState));
+        collect_internal_transitions(rootState));
 }
 }
\ No newline at end of file
diff --git a/include/hsm/details/flatten_internal_transition_table.h b/include/hsm/details/flatten_internal_transition_table.h
index 89e7b09..fa1b171 100644
--- a/include/hsm/details/flatten_internal_transition_table.h
+++ b/include/hsm/details/flatten_internal_transition_table.h
@@ -132,16 +132,44 @@ constexpr auto get_internal_transitions = [](auto stateAndParentStatePairs) {
 };
 
 /**
- * Returns a tuple of extended internal transitions reachable from a given rootState
+ * The internal transitions of a composite state are the same for each of its parent states
+ */
+constexpr auto ignore_parent_of_composite_state = [](auto stateAndParentStatePair) {
+    constexpr auto state = bh::second(stateAndParentStatePair);
+    if constexpr (has_transition_table(state)) {
+        return bh::make_pair(state, state);
+    } else {
+        return stateAndParentStatePair;
+    }
+};
+
+/**
+ * Returns a tuple of all extended internal transitions reachable from a given rootState
+ *
+ * Different transitions may have the same type, for example if their guards and actions are
+ * function pointers or differ only in the values they capture.
  *
  * @param rootState
  */
-template <class State> constexpr auto flatten_internal_transition_table(State rootState)
+template <class State> constexpr auto collect_internal_transitions(State rootState)
 {
     return [](auto stateAndParentStatePairs) {
-        return remove_duplicate_types(bh::to<bh::basic_tuple_tag>(
-            bh::flatten(get_internal_transitions(stateAndParentStatePairs))));
-    }(collect_state_parentstate_pairs_recursively(rootState));
+        return bh::to<bh::basic_tuple_tag>(
+            bh::flatten(get_internal_transitions(stateAndParentStatePairs)));
+    }(remove_duplicates(bh::transform(
+               collect_state_parentstate_pairs_recursively(rootState),
+               ignore_parent_of_composite_state)));
+}
+
+/**
+ * Returns a tuple of the extended internal transitions of different type reachable from a
+ * given rootState
+ *
+ * @param rootState
+ */
+template <class State> constexpr auto flatten_internal_transition_table(State rootState)
+{
+    return remove_duplicate_types(collect_internal_transitions(rootState));
 }
 
 } // namespace hsm
\ No newline at end of file
-- 
2.43.0


From 8b5dbe32c9cf6ebbfc0b1b0cc70e648765b5110f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:52 +0000
Subject: [PATCH 20/21] fix: apply internal transitions of composites entered
 by pseudo states

The internal transitions of a composite state that occurs in the transition tables only
in entry, direct or history states were ignored.
---
 include/hsm/details/flatten_internal_transition_table.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/hsm/details/flatten_internal_transition_table.h b/include/hsm/details/flatten_internal_transition_table.h
index fa1b171..f993200 100644
--- a/include/hsm/details/flatten_internal_transition_table.h
+++ b/include/hsm/details/flatten_internal_transition_table.h
@@ -133,11 +133,15 @@ constexpr auto get_internal_transitions = [](auto stateAndParentStatePairs) {
 
 /**
  * The internal transitions of a composite state are the same for each of its parent states
+ * and however it is entered
  */
 constexpr auto ignore_parent_of_composite_state = [](auto stateAndParentStatePair) {
     constexpr auto state = bh::second(stateAndParentStatePair);
     if constexpr (has_transition_table(state)) {
         return bh::make_pair(state, state);
+    } else if constexpr (
+        is_entry_state(state) || is_direct_state(state) || is_history_state(state)) {
+        return bh::make_pair(get_parent_state(state), get_parent_state(state));
     } else {
         return stateAndParentStatePair;
     }
-- 
2.43.0


From 67e873ee42be108bdcae74bd2528f123c48c3e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:52 +0000
Subject: [PATCH 21/21] fix: update the single header for the internal
 transition fixes

---
 include/hsm/gen/hsm.h | 44 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/include/hsm/gen/hsm.h b/include/hsm/gen/hsm.h
index 66a1027..980bd94 100644
--- a/include/hsm/gen/hsm.h
+++ b/include/hsm/gen/hsm.h
@@ -1509,16 +1509,48 @@ constexpr auto get_internal_transitions = [](auto stateAndParentStatePairs) {
 };
 
 /**
- * Returns a tuple of extended internal transitions reachable from a given rootState
+ * The internal transitions of a composite state are the same for each of its parent states
+ * and however it is entered
+ */
+constexpr auto ignore_parent_of_composite_state = [](auto stateAndParentStatePair) {
+    constexpr auto state = bh::second(stateAndParentStatePair);
+    if constexpr (has_transition_table(state)) {
+        return bh::make_pair(state, state);
+    } else if constexpr (
+        is_entry_state(state) || is_direct_state(state) || is_history_state(state)) {
+        return bh::make_pair(get_parent_state(state), get_parent_state(state));
+    } else {
+        return stateAndParentStatePair;
+    }
+};
+
+/**
+ * Returns a tuple of all extended internal transitions reachable from a given rootState
+ *
+ * Different transitions may have the same type, for example if their guards and actions are
+ * function pointers or differ only in the values they capture.
  *
  * @param rootState
  */
-template <class State> constexpr auto flatten_internal_transition_table(State rootState)
+template <class State> constexpr auto collect_internal_transitions(State rootState)
 {
     return [](auto stateAndParentStatePairs) {
-        return remove_duplicate_types(bh::to<bh::basic_tuple_tag>(
-            bh::flatten(get_internal_transitions(stateAndParentStatePairs))));
-    }(collect_state_parentstate_pairs_recursively(rootState));
+        return bh::to<bh::basic_tuple_tag>(
+            bh::flatten(get_internal_transitions(stateAndParentStatePairs)));
+    }(remove_duplicates(bh::transform(
+               collect_state_parentstate_pairs_recursively(rootState),
+               ignore_parent_of_composite_state)));
+}
+
+/**
+ * Returns a tuple of the extended internal transitions of different type reachable from a
+ * given rootState
+ *
+ * @param rootState
+ */
+template <class State> constexpr auto flatten_internal_transition_table(State rootState)
+{
+    return remove_duplicate_types(collect_internal_transitions(rootState));
 }
 
 } // namespace hsm
@@ -2117,7 +2149,7 @@ constexpr auto fill_dispatch_table_with_internal_transitions(
         dispatchTables,
         statesMap,
         optionalDependecy,
-        flatten_internal_transition_table(rootState));
+        collect_internal_transitions(rootState));
 }
 }
 
-- 
2.43.0

