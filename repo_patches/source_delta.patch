From bb76438434d823e19dc846c2174e2c56660b431f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:07 +0000
Subject: [PATCH 01/30] fix: models left without input by a Mealy retraction
 must not change state

A model that received input only from outputs that were later retracted, or a
Mealy model visited without input, stayed in the active set and had its
delta_int() called although it was not imminent. Whether this happened
depended on the addresses of the models.
---
 include/adevs/simulator.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/adevs/simulator.h b/include/adevs/simulator.h
index 1159619..fedabea 100644
--- a/include/adevs/simulator.h
+++ b/include/adevs/simulator.h
@@ -505,7 +505,9 @@ void Simulator<ValueType, TimeType>::computeNextOutput() {
         calculate_mealy_output(path,model);
     }
     // Gather input produced by Mealy models
-    for (auto model: active) {
+    auto active_iter = active.begin();
+    while (active_iter != active.end()) {
+        auto model = *active_iter;
         while (!model->revisable_inputs.empty()) {
             model->inputs.push_back(model->revisable_inputs.front().second);
             model->revisable_inputs.pop_front();
@@ -520,6 +522,12 @@ void Simulator<ValueType, TimeType>::computeNextOutput() {
         }
         // Done with the output
         model->outputs.clear();
+        // A model whose input was retracted has no event unless it is imminent
+        if (model->inputs.empty() && !(model->tN == tNext)) {
+            active_iter = active.erase(active_iter);
+        } else {
+            active_iter++;
+        }
     }
 }
 
-- 
2.43.0


From 768baf3281ef17181486855dad7e48e7809ab0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:43 +0000
Subject: [PATCH 02/30] fix: adding or removing one of several instances must
 not disturb the model's clock

Adding another instance of a model during a simulation reset its elapsed time,
and removing one of several instances unscheduled the model although it was
still part of the graph, so that it never had another internal event.
---
 include/adevs/simulator.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/adevs/simulator.h b/include/adevs/simulator.h
index fedabea..9de2be0 100644
--- a/include/adevs/simulator.h
+++ b/include/adevs/simulator.h
@@ -569,12 +569,21 @@ TimeType Simulator<ValueType, TimeType>::computeNextState() {
         pending.pop_front();
         switch (op.op) {
             case Graph<ValueType, TimeType>::ADD_ATOMIC:
-                graph->add_atomic(op.model);
-                schedule(op.model.get(), t);
+                // Another instance of a model that is already present
+                // does not disturb its schedule
+                if (graph->get_atomics().count(op.model) == 0) {
+                    graph->add_atomic(op.model);
+                    schedule(op.model.get(), t);
+                } else {
+                    graph->add_atomic(op.model);
+                }
                 break;
             case Graph<ValueType, TimeType>::REMOVE_ATOMIC:
-                sched.schedule(op.model.get(), adevs_inf<TimeType>());
                 graph->remove_atomic(op.model);
+                // Stop simulating the model when its last instance is gone
+                if (graph->get_atomics().count(op.model) == 0) {
+                    sched.schedule(op.model.get(), adevs_inf<TimeType>());
+                }
                 break;
             case Graph<ValueType, TimeType>::REMOVE_PIN:
                 graph->remove_pin(op.pin[0]);
-- 
2.43.0


From b95047144bc8557ab577bd8df56b32b131c3cac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 03/30] fix: removing a model that is not in the graph must be
 a no-op

Graph::remove_atomic() dereferenced and erased the end iterator when the model
was not (or no longer) in the graph, for instance when two models ask for the
removal of the same model in one cycle.
---
 include/adevs/graph.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/adevs/graph.h b/include/adevs/graph.h
index bb7c7f9..32cf74e 100644
--- a/include/adevs/graph.h
+++ b/include/adevs/graph.h
@@ -316,6 +316,10 @@ void Graph<ValueType, TimeType>::remove_atomic(std::shared_ptr<Atomic<ValueType,
         return;
     }
     auto instance_iter = atomic_instance_count.find(model.get());
+    if (instance_iter == atomic_instance_count.end()) {
+        // The model is not in the graph.
+        return;
+    }
     // Decrease the instance count and return.
     (*instance_iter).second--;
     if ((*instance_iter).second > 0) {
-- 
2.43.0


From b61b01b8fa16b6f8bbb362d04ea984587f23c3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:26 +0000
Subject: [PATCH 04/30] fix: removing a coupled model must disconnect its pin
 to pin couplings

Coupled::remove_from_graph() connected the pins once more instead of
disconnecting them, so events kept flowing through a removed coupled model.
---
 include/adevs/models.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/adevs/models.h b/include/adevs/models.h
index af25b54..14848b0 100644
--- a/include/adevs/models.h
+++ b/include/adevs/models.h
@@ -567,7 +567,7 @@ void Coupled<ValueType, TimeType>::remove_from_graph() {
         g->disconnect(coupling.first, coupling.second);
     }
     for (auto coupling : pin_to_pin) {
-        g->connect(coupling.first, coupling.second);
+        g->disconnect(coupling.first, coupling.second);
     }
     for (auto coupled : coupled_components) {
         coupled->remove_from_graph();
-- 
2.43.0


From 74aceefcff35ec8755bc1e1cd998d47d7dd1f968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:26 +0000
Subject: [PATCH 05/30] fix: Coupled::remove_atomic() must remove the
 connections to the model

The documentation says that the connections to the model that are part of the
Coupled model are removed, but they stayed: in the Coupled model, which later
connected pins to a model that is not its component, and in the graph when
another instance of the model was left.
---
 include/adevs/models.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/adevs/models.h b/include/adevs/models.h
index 14848b0..b9fc088 100644
--- a/include/adevs/models.h
+++ b/include/adevs/models.h
@@ -585,6 +585,18 @@ void Coupled<ValueType, TimeType>::add_atomic(std::shared_ptr<Atomic<ValueType,
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_atomic(
     std::shared_ptr<Atomic<ValueType, TimeType>> model) {
+    // Remove the connections to the model that belong to this Coupled model
+    auto coupling = pin_to_atomic.begin();
+    while (coupling != pin_to_atomic.end()) {
+        if (coupling->second == model) {
+            if (g != nullptr) {
+                g->disconnect(coupling->first, model);
+            }
+            coupling = pin_to_atomic.erase(coupling);
+        } else {
+            coupling++;
+        }
+    }
     atomic_components.erase(model);
     if (g != nullptr) {
         g->remove_atomic(model);
-- 
2.43.0


From 6a40660d826799a3b2899b377f9600b49cb6992d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:46 +0000
Subject: [PATCH 06/30] fix: Graph::remove_pin() must also remove edges that
 lead to the pin

All edges connected to the pin are documented to be removed, but edges from
other pins to the removed pin stayed.
---
 include/adevs/graph.h | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/adevs/graph.h b/include/adevs/graph.h
index 32cf74e..04732f9 100644
--- a/include/adevs/graph.h
+++ b/include/adevs/graph.h
@@ -289,6 +289,23 @@ void Graph<ValueType, TimeType>::remove_pin(pin_t pin) {
         // Remove the pin from the pin_to_atomic map.
         pin_to_pin.erase(pin);
     }
+    // Remove the pin from the pins that are connected to it
+    auto src_iter = pin_to_pin.begin();
+    while (src_iter != pin_to_pin.end()) {
+        auto dst_iter = src_iter->second.begin();
+        while (dst_iter != src_iter->second.end()) {
+            if ((*dst_iter).first == pin && --(*dst_iter).second == 0) {
+                dst_iter = src_iter->second.erase(dst_iter);
+            } else {
+                dst_iter++;
+            }
+        }
+        if (src_iter->second.empty()) {
+            src_iter = pin_to_pin.erase(src_iter);
+        } else {
+            src_iter++;
+        }
+    }
 }
 
 template <typename ValueType, typename TimeType>
-- 
2.43.0


From 74a7a710216691184c51bedfdaa36b0a865bf3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:37 +0000
Subject: [PATCH 07/30] fix: a coupled model must not use the graph of a
 destroyed simulator

Coupled kept a plain pointer to the simulator's graph, so changing the coupled
model after the simulator was gone accessed freed memory.
---
 include/adevs/models.h    | 24 +++++++++++++++++++-----
 include/adevs/simulator.h |  2 +-
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/include/adevs/models.h b/include/adevs/models.h
index b9fc088..5cbd1a4 100644
--- a/include/adevs/models.h
+++ b/include/adevs/models.h
@@ -405,7 +405,7 @@ class Coupled {
     /**
      * @brief Constructor creates a model without components or couplings.
      */
-    Coupled() : g(nullptr) {}
+    Coupled() {}
     /**
      * @brief Destructor
      *
@@ -495,7 +495,8 @@ class Coupled {
   private:
     friend class Simulator<ValueType, TimeType>;
 
-    Graph<ValueType, TimeType>* g;
+    /// The graph belongs to the Simulator and may be gone before the Coupled model
+    std::weak_ptr<Graph<ValueType, TimeType>> graph;
     std::set<std::shared_ptr<Atomic<ValueType, TimeType>>> atomic_components;
     std::set<std::shared_ptr<Coupled<ValueType, TimeType>>> coupled_components;
     /// Pins that provide input to the Atomic models
@@ -503,7 +504,7 @@ class Coupled {
     /// Pin to pin connections
     std::set<std::pair<pin_t, pin_t>> pin_to_pin;
 
-    void assign_to_graph(Graph<ValueType, TimeType>* graph);
+    void assign_to_graph(std::shared_ptr<Graph<ValueType, TimeType>> const &g);
     void remove_from_graph();
 };
 
@@ -511,6 +512,7 @@ template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::create_coupling(
     pin_t pin, std::shared_ptr<Atomic<ValueType, TimeType>> model) {
     pin_to_atomic.insert(std::make_pair(pin, model));
+    auto g = graph.lock();
     if (g != nullptr) {
         g->connect(pin, model);
     }
@@ -520,6 +522,7 @@ template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_coupling(
     pin_t pin, std::shared_ptr<Atomic<ValueType, TimeType>> model) {
     pin_to_atomic.erase(std::make_pair(pin, model));
+    auto g = graph.lock();
     if (g != nullptr) {
         g->disconnect(pin, model);
     }
@@ -528,6 +531,7 @@ void Coupled<ValueType, TimeType>::remove_coupling(
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::create_coupling(pin_t src, pin_t dst) {
     pin_to_pin.insert(std::make_pair(src, dst));
+    auto g = graph.lock();
     if (g != nullptr) {
         g->connect(src, dst);
     }
@@ -536,14 +540,16 @@ void Coupled<ValueType, TimeType>::create_coupling(pin_t src, pin_t dst) {
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_coupling(pin_t src, pin_t dst) {
     pin_to_pin.erase(std::make_pair(src, dst));
+    auto g = graph.lock();
     if (g != nullptr) {
         g->disconnect(src, dst);
     }
 }
 
 template <typename ValueType, typename TimeType>
-void Coupled<ValueType, TimeType>::assign_to_graph(Graph<ValueType, TimeType>* graph) {
-    g = graph;
+void Coupled<ValueType, TimeType>::assign_to_graph(
+    std::shared_ptr<Graph<ValueType, TimeType>> const &g) {
+    graph = g;
     for (auto atomic : atomic_components) {
         g->add_atomic(atomic);
     }
@@ -560,6 +566,10 @@ void Coupled<ValueType, TimeType>::assign_to_graph(Graph<ValueType, TimeType>* g
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_from_graph() {
+    auto g = graph.lock();
+    if (g == nullptr) {
+        return;
+    }
     for (auto atomic : atomic_components) {
         g->remove_atomic(atomic);
     }
@@ -577,6 +587,7 @@ void Coupled<ValueType, TimeType>::remove_from_graph() {
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::add_atomic(std::shared_ptr<Atomic<ValueType, TimeType>> model) {
     atomic_components.insert(model);
+    auto g = graph.lock();
     if (g != nullptr) {
         g->add_atomic(model);
     }
@@ -585,6 +596,7 @@ void Coupled<ValueType, TimeType>::add_atomic(std::shared_ptr<Atomic<ValueType,
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_atomic(
     std::shared_ptr<Atomic<ValueType, TimeType>> model) {
+    auto g = graph.lock();
     // Remove the connections to the model that belong to this Coupled model
     auto coupling = pin_to_atomic.begin();
     while (coupling != pin_to_atomic.end()) {
@@ -607,6 +619,7 @@ template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::add_coupled_model(
     std::shared_ptr<Coupled<ValueType, TimeType>> model) {
     coupled_components.insert(model);
+    auto g = graph.lock();
     if (g != nullptr) {
         model->assign_to_graph(g);
     }
@@ -616,6 +629,7 @@ template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_coupled_model(
     std::shared_ptr<Coupled<ValueType, TimeType>> model) {
     coupled_components.erase(model);
+    auto g = graph.lock();
     if (g != nullptr) {
         model->remove_from_graph();
     }
diff --git a/include/adevs/simulator.h b/include/adevs/simulator.h
index 9de2be0..a575f7f 100644
--- a/include/adevs/simulator.h
+++ b/include/adevs/simulator.h
@@ -422,7 +422,7 @@ void Simulator<ValueType, TimeType>::calculate_mealy_output(
 template <typename ValueType, typename TimeType>
 Simulator<ValueType, TimeType>::Simulator(std::shared_ptr<Coupled<ValueType, TimeType>> model)
     : graph(new Graph<ValueType, TimeType>()) {
-    model->assign_to_graph(graph.get());
+    model->assign_to_graph(graph);
     graph->set_provisional(true);
     for (auto atomic : graph->get_atomics()) {
         schedule(atomic.get(), adevs_zero<TimeType>());
-- 
2.43.0


From a1dec21510ceeb3795e522f676576a5dcf116f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 08/30] fix: changes to a coupled model shared by several
 parents apply to each instance

A coupled model that is a member of several coupled models is added to the
graph once for each of them, but later changes were applied only once. After
one of the parents was removed, the new components and couplings were lost;
after a coupling was removed, it was still there.
---
 include/adevs/models.h | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/include/adevs/models.h b/include/adevs/models.h
index 5cbd1a4..99b7250 100644
--- a/include/adevs/models.h
+++ b/include/adevs/models.h
@@ -405,7 +405,7 @@ class Coupled {
     /**
      * @brief Constructor creates a model without components or couplings.
      */
-    Coupled() {}
+    Coupled() : instances(0) {}
     /**
      * @brief Destructor
      *
@@ -497,6 +497,9 @@ class Coupled {
 
     /// The graph belongs to the Simulator and may be gone before the Coupled model
     std::weak_ptr<Graph<ValueType, TimeType>> graph;
+    /// How many times this model is part of the graph. Changes are applied
+    /// to the graph once for each of these instances.
+    int instances;
     std::set<std::shared_ptr<Atomic<ValueType, TimeType>>> atomic_components;
     std::set<std::shared_ptr<Coupled<ValueType, TimeType>>> coupled_components;
     /// Pins that provide input to the Atomic models
@@ -513,7 +516,7 @@ void Coupled<ValueType, TimeType>::create_coupling(
     pin_t pin, std::shared_ptr<Atomic<ValueType, TimeType>> model) {
     pin_to_atomic.insert(std::make_pair(pin, model));
     auto g = graph.lock();
-    if (g != nullptr) {
+    for (int i = 0; g != nullptr && i < instances; i++) {
         g->connect(pin, model);
     }
 }
@@ -523,7 +526,7 @@ void Coupled<ValueType, TimeType>::remove_coupling(
     pin_t pin, std::shared_ptr<Atomic<ValueType, TimeType>> model) {
     pin_to_atomic.erase(std::make_pair(pin, model));
     auto g = graph.lock();
-    if (g != nullptr) {
+    for (int i = 0; g != nullptr && i < instances; i++) {
         g->disconnect(pin, model);
     }
 }
@@ -532,7 +535,7 @@ template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::create_coupling(pin_t src, pin_t dst) {
     pin_to_pin.insert(std::make_pair(src, dst));
     auto g = graph.lock();
-    if (g != nullptr) {
+    for (int i = 0; g != nullptr && i < instances; i++) {
         g->connect(src, dst);
     }
 }
@@ -541,7 +544,7 @@ template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_coupling(pin_t src, pin_t dst) {
     pin_to_pin.erase(std::make_pair(src, dst));
     auto g = graph.lock();
-    if (g != nullptr) {
+    for (int i = 0; g != nullptr && i < instances; i++) {
         g->disconnect(src, dst);
     }
 }
@@ -549,7 +552,11 @@ void Coupled<ValueType, TimeType>::remove_coupling(pin_t src, pin_t dst) {
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::assign_to_graph(
     std::shared_ptr<Graph<ValueType, TimeType>> const &g) {
-    graph = g;
+    if (graph.lock() != g) {
+        graph = g;
+        instances = 0;
+    }
+    instances++;
     for (auto atomic : atomic_components) {
         g->add_atomic(atomic);
     }
@@ -570,6 +577,7 @@ void Coupled<ValueType, TimeType>::remove_from_graph() {
     if (g == nullptr) {
         return;
     }
+    instances--;
     for (auto atomic : atomic_components) {
         g->remove_atomic(atomic);
     }
@@ -588,7 +596,7 @@ template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::add_atomic(std::shared_ptr<Atomic<ValueType, TimeType>> model) {
     atomic_components.insert(model);
     auto g = graph.lock();
-    if (g != nullptr) {
+    for (int i = 0; g != nullptr && i < instances; i++) {
         g->add_atomic(model);
     }
 }
@@ -601,7 +609,7 @@ void Coupled<ValueType, TimeType>::remove_atomic(
     auto coupling = pin_to_atomic.begin();
     while (coupling != pin_to_atomic.end()) {
         if (coupling->second == model) {
-            if (g != nullptr) {
+            for (int i = 0; g != nullptr && i < instances; i++) {
                 g->disconnect(coupling->first, model);
             }
             coupling = pin_to_atomic.erase(coupling);
@@ -610,7 +618,7 @@ void Coupled<ValueType, TimeType>::remove_atomic(
         }
     }
     atomic_components.erase(model);
-    if (g != nullptr) {
+    for (int i = 0; g != nullptr && i < instances; i++) {
         g->remove_atomic(model);
     }
 }
@@ -620,7 +628,7 @@ void Coupled<ValueType, TimeType>::add_coupled_model(
     std::shared_ptr<Coupled<ValueType, TimeType>> model) {
     coupled_components.insert(model);
     auto g = graph.lock();
-    if (g != nullptr) {
+    for (int i = 0; g != nullptr && i < instances; i++) {
         model->assign_to_graph(g);
     }
 }
@@ -630,7 +638,7 @@ void Coupled<ValueType, TimeType>::remove_coupled_model(
     std::shared_ptr<Coupled<ValueType, TimeType>> model) {
     coupled_components.erase(model);
     auto g = graph.lock();
-    if (g != nullptr) {
+    for (int i = 0; g != nullptr && i < instances; i++) {
         model->remove_from_graph();
     }
 }
-- 
2.43.0


From 11c94e89e4c0936f61317fd4dea903d3bf0fe022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:32 +0000
Subject: [PATCH 09/30] fix: schedule2 must keep heap and index consistent when
 a model is removed

The last model of the heap, which takes the place of the removed one, kept its
old index and was never moved up, and removing the last model accessed an
element past the end.
---
 include/adevs/schedule2.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/adevs/schedule2.h b/include/adevs/schedule2.h
index 68d0947..de3b988 100644
--- a/include/adevs/schedule2.h
+++ b/include/adevs/schedule2.h
@@ -228,7 +228,10 @@ class Schedule {
         // initial element because it is being removed.
         model_heap[index] = model_heap.back();
         model_heap.pop_back();
-        percolate_down(index);
+        if (index < model_heap.size()) {
+            model_index[model_heap[index].model] = index;
+            percolate_down(percolate_up(index));
+        }
     }
 
     // Restore the heap property by moving a model up the tree
-- 
2.43.0


From adae85b6bed207f269c9d253dc4aba0d98141f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:32 +0000
Subject: [PATCH 10/30] fix: schedule2's update_all() must use the current time
 advances

It rebuilt the heap from the cached time advances, which are unchanged when
update() was not called, so it could not restore the schedule as documented.
---
 include/adevs/schedule2.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/adevs/schedule2.h b/include/adevs/schedule2.h
index de3b988..c99e18e 100644
--- a/include/adevs/schedule2.h
+++ b/include/adevs/schedule2.h
@@ -115,6 +115,12 @@ class Schedule {
         // functions (add, remove, remove_next, and update) should keep the heap
         // property valid during their operations.
 
+        // Get the new time advances, because this is used when update() was not
+        // called for the models that changed
+        for (auto &entry : model_heap) {
+            entry.time_advance = entry.model->ta();
+        }
+
         // Rebuild the entire heap then loop and update each model's index
         make_heap(model_heap.begin(), model_heap.end(), compare_time_advance);
         for (size_t ii = 0; ii < model_heap.size(); ii++) {
-- 
2.43.0


From 0b12f3ae2ed1e851eacac27a60e86930670759f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:24 +0000
Subject: [PATCH 11/30] fix: repeated additions to and absent removals from a
 coupled model must not change the graph

The components and couplings of a Coupled model are sets, but once it was
assigned to a simulator, adding what it already has and removing what it
does not have still changed the counts in the simulator's graph. The same
calls had no effect when made before the simulation started.
---
 include/adevs/models.h | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/include/adevs/models.h b/include/adevs/models.h
index 99b7250..797d9b5 100644
--- a/include/adevs/models.h
+++ b/include/adevs/models.h
@@ -514,7 +514,9 @@ class Coupled {
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::create_coupling(
     pin_t pin, std::shared_ptr<Atomic<ValueType, TimeType>> model) {
-    pin_to_atomic.insert(std::make_pair(pin, model));
+    if (!pin_to_atomic.insert(std::make_pair(pin, model)).second) {
+        return;
+    }
     auto g = graph.lock();
     for (int i = 0; g != nullptr && i < instances; i++) {
         g->connect(pin, model);
@@ -524,7 +526,9 @@ void Coupled<ValueType, TimeType>::create_coupling(
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_coupling(
     pin_t pin, std::shared_ptr<Atomic<ValueType, TimeType>> model) {
-    pin_to_atomic.erase(std::make_pair(pin, model));
+    if (pin_to_atomic.erase(std::make_pair(pin, model)) == 0) {
+        return;
+    }
     auto g = graph.lock();
     for (int i = 0; g != nullptr && i < instances; i++) {
         g->disconnect(pin, model);
@@ -533,7 +537,9 @@ void Coupled<ValueType, TimeType>::remove_coupling(
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::create_coupling(pin_t src, pin_t dst) {
-    pin_to_pin.insert(std::make_pair(src, dst));
+    if (!pin_to_pin.insert(std::make_pair(src, dst)).second) {
+        return;
+    }
     auto g = graph.lock();
     for (int i = 0; g != nullptr && i < instances; i++) {
         g->connect(src, dst);
@@ -542,7 +548,9 @@ void Coupled<ValueType, TimeType>::create_coupling(pin_t src, pin_t dst) {
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_coupling(pin_t src, pin_t dst) {
-    pin_to_pin.erase(std::make_pair(src, dst));
+    if (pin_to_pin.erase(std::make_pair(src, dst)) == 0) {
+        return;
+    }
     auto g = graph.lock();
     for (int i = 0; g != nullptr && i < instances; i++) {
         g->disconnect(src, dst);
@@ -594,7 +602,9 @@ void Coupled<ValueType, TimeType>::remove_from_graph() {
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::add_atomic(std::shared_ptr<Atomic<ValueType, TimeType>> model) {
-    atomic_components.insert(model);
+    if (!atomic_components.insert(model).second) {
+        return;
+    }
     auto g = graph.lock();
     for (int i = 0; g != nullptr && i < instances; i++) {
         g->add_atomic(model);
@@ -617,7 +627,9 @@ void Coupled<ValueType, TimeType>::remove_atomic(
             coupling++;
         }
     }
-    atomic_components.erase(model);
+    if (atomic_components.erase(model) == 0) {
+        return;
+    }
     for (int i = 0; g != nullptr && i < instances; i++) {
         g->remove_atomic(model);
     }
@@ -626,7 +638,9 @@ void Coupled<ValueType, TimeType>::remove_atomic(
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::add_coupled_model(
     std::shared_ptr<Coupled<ValueType, TimeType>> model) {
-    coupled_components.insert(model);
+    if (!coupled_components.insert(model).second) {
+        return;
+    }
     auto g = graph.lock();
     for (int i = 0; g != nullptr && i < instances; i++) {
         model->assign_to_graph(g);
@@ -636,7 +650,9 @@ void Coupled<ValueType, TimeType>::add_coupled_model(
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_coupled_model(
     std::shared_ptr<Coupled<ValueType, TimeType>> model) {
-    coupled_components.erase(model);
+    if (coupled_components.erase(model) == 0) {
+        return;
+    }
     auto g = graph.lock();
     for (int i = 0; g != nullptr && i < instances; i++) {
         model->remove_from_graph();
-- 
2.43.0


From 50b9e69e6fedb89fda0d27d6a051ec002298fe92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:33 +0000
Subject: [PATCH 12/30] fix: rk_45 must release its trial solution

---
 include/adevs/solvers/rk_45.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/adevs/solvers/rk_45.h b/include/adevs/solvers/rk_45.h
index 5a362a6..c5f4a98 100644
--- a/include/adevs/solvers/rk_45.h
+++ b/include/adevs/solvers/rk_45.h
@@ -120,6 +120,7 @@ rk_45<ValueType>::rk_45(ode_system<ValueType>* sys, double err_tol, double h_max
 template <typename ValueType>
 rk_45<ValueType>::~rk_45() {
     delete[] dq;
+    delete[] qq;
     delete[] t;
     for (int i = 0; i < 6; i++) {
         delete[] k[i];
-- 
2.43.0


From 10505c4e5a80e2f4483e4fda3d69af38fe3d6ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:33 +0000
Subject: [PATCH 13/30] fix: a Hybrid model must delete the objects it adopted

---
 include/adevs/solvers/hybrid.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/adevs/solvers/hybrid.h b/include/adevs/solvers/hybrid.h
index 1534813..c9dc788 100644
--- a/include/adevs/solvers/hybrid.h
+++ b/include/adevs/solvers/hybrid.h
@@ -426,6 +426,20 @@ class Hybrid : public Atomic<ValueType, TimeType> {
         tentative_step();  // Take the first tentative step
     }
 
+    /// @brief The adopted objects are owned by exactly one Hybrid object
+    Hybrid(Hybrid const &) = delete;
+    Hybrid &operator=(Hybrid const &) = delete;
+
+    /// @brief Delete the adopted system, solver, and event finder
+    ~Hybrid() {
+        delete event_finder;
+        delete solver;
+        delete sys;
+        delete[] q;
+        delete[] q_trial;
+        delete[] event;
+    }
+
     /**
      * @brief Get the value of the kth continuous state variable
      *
-- 
2.43.0


From 943325810ece02a002b1847ebd69d0ec49ef0e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:17 +0000
Subject: [PATCH 14/30] fix: an event due together with a missed output must be
 output only once

---
 include/adevs/solvers/hybrid.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/adevs/solvers/hybrid.h b/include/adevs/solvers/hybrid.h
index c9dc788..e837645 100644
--- a/include/adevs/solvers/hybrid.h
+++ b/include/adevs/solvers/hybrid.h
@@ -490,7 +490,10 @@ class Hybrid : public Atomic<ValueType, TimeType> {
     void delta_int() {
         if (!missedOutput.empty()) {
             missedOutput.clear();
-            return;
+            // An event that is due at this same instant was output too
+            if (sigma > 0.0) {
+                return;
+            }
         }
         e_accum += ta();
         // Execute any discrete events
@@ -595,10 +598,9 @@ class Hybrid : public Atomic<ValueType, TimeType> {
             for (auto iter : missedOutput) {
                 yb.push_back(iter);
             }
-            if (sigma == 0.0) {  // Confluent event
-                sys->output_func(q_trial, event, yb);
-            }
-        } else {
+        }
+        // Nothing else is due with a missed output unless its time is now
+        if (missedOutput.empty() || sigma == 0.0) {
             // Let the model adjust algebraic variables, etc. for the new state
             sys->postStep(q_trial);
             if (event_exists) {
-- 
2.43.0


From 4cf398fff25b0ee1750108b95891a58729be12df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:17 +0000
Subject: [PATCH 15/30] fix: input that coincides with a missed output must not
 take the tentative step

---
 include/adevs/solvers/hybrid.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/adevs/solvers/hybrid.h b/include/adevs/solvers/hybrid.h
index e837645..a5e0f6a 100644
--- a/include/adevs/solvers/hybrid.h
+++ b/include/adevs/solvers/hybrid.h
@@ -560,8 +560,16 @@ class Hybrid : public Atomic<ValueType, TimeType> {
     void delta_conf(std::list<adevs::PinValue<ValueType>> const &xb) {
         if (!missedOutput.empty()) {
             missedOutput.clear();
+            // Only the missed output was due, so the tentative step is not taken
             if (sigma > 0.0) {
-                event_exists = false;
+                event_happened = true;
+                sys->external_event(q, e_accum, xb);
+                e_accum = 0.0;
+                for (int i = 0; i < sys->numVars(); i++) {
+                    q_trial[i] = q[i];
+                }
+                tentative_step();
+                return;
             }
         }
         // Execute any discrete events
-- 
2.43.0


From 27ebe0f2fad5aa8818919ecc6b67f870ad82fda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:31 +0000
Subject: [PATCH 16/30] fix: a Hybrid model must see input at its time also
 when the event search stops early

---
 include/adevs/solvers/hybrid.h | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/adevs/solvers/hybrid.h b/include/adevs/solvers/hybrid.h
index a5e0f6a..f9a039e 100644
--- a/include/adevs/solvers/hybrid.h
+++ b/include/adevs/solvers/hybrid.h
@@ -520,20 +520,32 @@ class Hybrid : public Atomic<ValueType, TimeType> {
         bool state_event_exists = false;
         event_happened = true;
         // Check that we have not missed a state event
-        if (event_exists) {
+        while (event_exists) {
+            double h = e;
             for (int i = 0; i < sys->numVars(); i++) {
                 q_trial[i] = q[i];
             }
-            solver->advance(q_trial, e);
-            state_event_exists = event_finder->find_events(event, q, q_trial, solver, e);
+            solver->advance(q_trial, h);
+            state_event_exists = event_finder->find_events(event, q, q_trial, solver, h);
+            // The search can stop short of an event, so look in what remains
+            if (!state_event_exists && h < e) {
+                for (int i = 0; i < sys->numVars(); i++) {
+                    q[i] = q_trial[i];
+                }
+                e -= h;
+                e_accum += h;
+                continue;
+            }
             // We missed an event
             if (state_event_exists) {
+                event[sys->numEvents()] = false;
                 output_func(missedOutput);
                 sys->confluent_event(q_trial, event, xb);
                 for (int i = 0; i < sys->numVars(); i++) {
                     q[i] = q_trial[i];
                 }
             }
+            break;
         }
         if (!state_event_exists)  // We didn't miss an event
         {
-- 
2.43.0


From 4377bed5792c64384f3fb0a607980c7931c87d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:52 +0000
Subject: [PATCH 17/30] fix: linear event locator must not stall when
 interpolation makes no progress

---
 include/adevs/solvers/event_locators.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/adevs/solvers/event_locators.h b/include/adevs/solvers/event_locators.h
index cd8986b..e27cd54 100644
--- a/include/adevs/solvers/event_locators.h
+++ b/include/adevs/solvers/event_locators.h
@@ -165,9 +165,10 @@ bool event_locator_impl<ValueType>::find_events(bool* events, double const* qsta
                 }
             }
         }
-        // Guess at a new h and calculate qend for that time
+        // Guess at a new h and calculate qend for that time. Bisect
+        // if rounding keeps the interpolation from making progress.
         if (event_in_interval) {
-            if (mode == BISECTION || mode == DISCONTINUOUS) {
+            if (mode == BISECTION || mode == DISCONTINUOUS || tguess >= h) {
                 h /= 2.0;
             } else {
                 h = tguess;
-- 
2.43.0


From 0560d1a856d7d431600c2f91f7007131dfd46f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:52 +0000
Subject: [PATCH 18/30] fix: fast event locator must terminate when the event
 is at the end of the bracket

---
 include/adevs/solvers/event_locators.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/adevs/solvers/event_locators.h b/include/adevs/solvers/event_locators.h
index e27cd54..dc24480 100644
--- a/include/adevs/solvers/event_locators.h
+++ b/include/adevs/solvers/event_locators.h
@@ -308,7 +308,7 @@ class fast_event_locator : public event_locator<ValueType> {
 
   private:
     double const err_tol;
-    double *z0, *zf, *dq0, *dqh;
+    double *z0, *zf, *dq0, *dqh, *qh;
     spline* p;
 
     bool is_sign_change() const;
@@ -324,6 +324,7 @@ fast_event_locator<ValueType>::fast_event_locator(ode_system<ValueType>* sys, do
       zf(new double[sys->numEvents()]),
       dq0(NULL),
       dqh(NULL),
+      qh(new double[sys->numVars()]),
       p(NULL) {
     if (interpolate) {
         p = new spline(sys->numVars());
@@ -336,6 +337,7 @@ template <typename ValueType>
 fast_event_locator<ValueType>::~fast_event_locator() {
     delete[] z0;
     delete[] zf;
+    delete[] qh;
     if (p != NULL) {
         delete[] dq0;
         delete[] dqh;
@@ -396,8 +398,20 @@ repeat:
     else {
         hl = hg;
     }
+    // Keep the solution at the high end of the bracket
+    if (sign_change) {
+        memcpy(qh, qend, sizeof(double) * this->sys->numVars());
+    }
     // New guess is midpoint of low and high guesses
     hg = (hh + hl) / 2.0;
+    // If the event is at the high end of a bracket that is close enough
+    // or cannot be split, then the high end is on its right side
+    if ((!sign_change && hh - hl < err_tol) || hg <= hl || hg >= hh) {
+        hg = hh;
+        memcpy(qend, qh, sizeof(double) * this->sys->numVars());
+        this->sys->state_event_func(qend, zf);
+        goto success;
+    }
     // Calculate solution at new guess
     if (p != NULL) {
         p->interpolate(qend, hg);
-- 
2.43.0


From 898cc900e9214ee193f4e07892762e8d1a0d15b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:09 +0000
Subject: [PATCH 19/30] fix: columns of the FMU's Jacobian must include the row
 for time

---
 include/adevs/solvers/fmi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/adevs/solvers/fmi.h b/include/adevs/solvers/fmi.h
index 23976ab..e790bc6 100644
--- a/include/adevs/solvers/fmi.h
+++ b/include/adevs/solvers/fmi.h
@@ -359,7 +359,7 @@ bool ModelExchange<ValueType>::get_jacobian(double const* q, double* J) {
     // API state_var and jac_col would be in reversed positions.
     for (fmi2_value_reference_t state_var = 0; state_var < N; state_var++) {
         status = fmi2_import_get_directional_derivative(fmu, &state_var, 1, jac_col, N, jac_v,
-                                                        J + state_var * N);
+                                                        J + state_var * (N + 1));
         assert(status == fmi2_status_ok);
     }
     // Partial of time is 1 and nobody else depends on it. This, of course, may
-- 
2.43.0


From 1947c696dd1757f51566cdf60bfcdcba370a8c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:09 +0000
Subject: [PATCH 20/30] fix: FMU must be in continuous time mode after a trial
 step of size zero

---
 include/adevs/solvers/fmi.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/adevs/solvers/fmi.h b/include/adevs/solvers/fmi.h
index e790bc6..dcb0383 100644
--- a/include/adevs/solvers/fmi.h
+++ b/include/adevs/solvers/fmi.h
@@ -489,9 +489,14 @@ void ModelExchange<ValueType>::postStep(double* q) {
 
 template <typename ValueType>
 void ModelExchange<ValueType>::postTrialStep(double* q) {
-    assert(cont_time_mode);
     // Restore values changed by der_func and state_event_func
     fmi2_status_t status;
+    // A trial step of size zero may not have called these
+    if (!cont_time_mode) {
+        status = fmi2_import_enter_continuous_time_mode(fmu);
+        assert(status == fmi2_status_ok);
+        cont_time_mode = true;
+    }
     status = fmi2_import_set_time(fmu, q[this->numVars() - 1]);
     assert(status == fmi2_status_ok);
     status = fmi2_import_set_continuous_states(fmu, q, this->numVars() - 1);
-- 
2.43.0


From db0d7a232583129b8b7feb0a3e3fb109145c2b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:15 +0000
Subject: [PATCH 21/30] fix: pin identities must not repeat after 2^32 pins

---
 include/adevs/models.h | 4 ++--
 src/adevs.cpp          | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/adevs/models.h b/include/adevs/models.h
index 797d9b5..2153fa7 100644
--- a/include/adevs/models.h
+++ b/include/adevs/models.h
@@ -130,8 +130,8 @@ class pin_t {
     bool operator>(pin_t const &src) const { return (id > src.id); }
 
   private:
-    static std::atomic<int> atom;
-    int id;
+    static std::atomic<unsigned long long> atom;
+    unsigned long long id;
 };
 
 /**
diff --git a/src/adevs.cpp b/src/adevs.cpp
index a15ee4d..4d88508 100644
--- a/src/adevs.cpp
+++ b/src/adevs.cpp
@@ -4,7 +4,7 @@
 using pin_t = adevs::pin_t;
 using double_fcmp = adevs::double_fcmp;
 
-std::atomic<int> pin_t::atom(0);
+std::atomic<unsigned long long> pin_t::atom(0);
 
 int double_fcmp::fcmp(double x1, double x2, double epsilon) {
     int exponent;
-- 
2.43.0


From a41821cab2190d63717b680eff03b8aa2d8c1f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 22/30] fix: a step whose error estimate is not finite must be
 rejected

rk_45 and corrected_euler accepted steps with NaN as error estimate (the
maximum ignored NaN) and with an infinite one tried a step of size zero,
which became the step size forever.
---
 include/adevs/solvers/corrected_euler.h | 12 +++++++++---
 include/adevs/solvers/rk_45.h           | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/adevs/solvers/corrected_euler.h b/include/adevs/solvers/corrected_euler.h
index 9ce6be3..287dc73 100644
--- a/include/adevs/solvers/corrected_euler.h
+++ b/include/adevs/solvers/corrected_euler.h
@@ -155,11 +155,15 @@ double corrected_euler<ValueType>::integrate(double* q, double h_lim) {
         // Otherwise shrink the step size and try again
         else {
             double h_guess = 0.8 * err_tol * h / fabs(err);
-            if (h < h_guess) {
+            // The guess is useless if the error is too large to be represented
+            if (h < h_guess || !(h_guess > DBL_MIN)) {
                 h *= 0.8;
             } else {
                 h = h_guess;
             }
+            if (h < DBL_MIN) {
+                throw adevs::exception("corrected_euler cannot satisfy its error tolerance");
+            }
         }
     }
     // Put the trial solution in q and return the selected step size
@@ -188,8 +192,10 @@ double corrected_euler<ValueType>::trial_step(double step) {
     // Compute next state and approximate error
     double err = 0.0;
     for (j = 0; j < this->sys->numVars(); j++) {
-        qq[j] += k[1][j];                                      // Next state
-        err = std::max<double>(err, fabs(k[0][j] - k[1][j]));  // Maximum error
+        qq[j] += k[1][j];  // Next state
+        double const e = fabs(k[0][j] - k[1][j]);
+        // A step without a valid error estimate is not acceptable
+        err = std::max<double>(err, std::isnan(e) ? HUGE_VAL : e);  // Maximum error
     }
     return err;  // Return the error
 }
diff --git a/include/adevs/solvers/rk_45.h b/include/adevs/solvers/rk_45.h
index c5f4a98..6bebd53 100644
--- a/include/adevs/solvers/rk_45.h
+++ b/include/adevs/solvers/rk_45.h
@@ -156,11 +156,15 @@ double rk_45<ValueType>::integrate(double* q, double h_lim) {
         // Otherwise shrink the step size and try again
         else {
             double h_guess = 0.8 * pow(err_tol * pow(h, 4.0) / fabs(err), 0.25);
-            if (h < h_guess) {
+            // The guess is useless if the error is too large to be represented
+            if (h < h_guess || !(h_guess > DBL_MIN)) {
                 h *= 0.8;
             } else {
                 h = h_guess;
             }
+            if (h < DBL_MIN) {
+                throw adevs::exception("rk_45 cannot satisfy its error tolerance");
+            }
         }
     }
     // Copy the trial solution to q and return the step size that was selected
@@ -225,8 +229,10 @@ double rk_45<ValueType>::trial_step(double step) {
         qq[j] += (1.0 / 24.0) * k[0][j] + (5.0 / 48.0) * k[3][j] + (27.0 / 56.0) * k[4][j] +
                  (125.0 / 336.0) * k[5][j];
         // Component wise maximum of the approximate error
-        err = std::max(err, fabs(k[0][j] / 8.0 + 2.0 * k[2][j] / 3.0 + k[3][j] / 16.0 -
-                                 27.0 * k[4][j] / 56.0 - 125.0 * k[5][j] / 336.0));
+        double const e = fabs(k[0][j] / 8.0 + 2.0 * k[2][j] / 3.0 + k[3][j] / 16.0 -
+                              27.0 * k[4][j] / 56.0 - 125.0 * k[5][j] / 336.0);
+        // A step without a valid error estimate is not acceptable
+        err = std::max(err, std::isnan(e) ? HUGE_VAL : e);
     }
     // Return the error
     return err;
-- 
2.43.0


From 98c3556f8389b36427e2a567fa16791d82e8326d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:20 +0000
Subject: [PATCH 23/30] fix: a step shrunk by error control below the caller's
 limit must be remembered

With a limit below the current step size rk_45 and corrected_euler forgot
the step that satisfied the tolerance, so after one bad start every further
step was as tiny as the first and the integration did not progress.
---
 include/adevs/solvers/corrected_euler.h | 2 +-
 include/adevs/solvers/rk_45.h           | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/adevs/solvers/corrected_euler.h b/include/adevs/solvers/corrected_euler.h
index 287dc73..a62ca1e 100644
--- a/include/adevs/solvers/corrected_euler.h
+++ b/include/adevs/solvers/corrected_euler.h
@@ -147,7 +147,7 @@ double corrected_euler<ValueType>::integrate(double* q, double h_lim) {
         err = trial_step(h);
         // If the error is ok, then we have found the proper step size
         if (err <= err_tol) {  // Keep h if shrunk to control the error
-            if (h_lim >= h_cur) {
+            if (h_lim >= h_cur || h < h_lim) {
                 h_cur = h;
             }
             break;
diff --git a/include/adevs/solvers/rk_45.h b/include/adevs/solvers/rk_45.h
index 6bebd53..78a4521 100644
--- a/include/adevs/solvers/rk_45.h
+++ b/include/adevs/solvers/rk_45.h
@@ -148,7 +148,8 @@ double rk_45<ValueType>::integrate(double* q, double h_lim) {
         err = trial_step(h);
         // If the error is ok, then we have found the proper step size
         if (err <= err_tol) {
-            if (h_cur <= h_lim) {
+            // Keep h unless it was only cut by the caller's limit
+            if (h_cur <= h_lim || h < h_lim) {
                 h_cur = h;
             }
             break;
-- 
2.43.0


From fb645ef8ed45e569bb706005b30a4be740072394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:00 +0000
Subject: [PATCH 24/30] fix: trap must resolve its nonlinear system to the
 given tolerance

The documentation says that the tolerance also terminates the Newton
iteration, but it was never passed to KINSOL, whose default is too coarse
for tight tolerances.
---
 include/adevs/solvers/trap.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/adevs/solvers/trap.h b/include/adevs/solvers/trap.h
index c26a2d4..0f0d9a0 100644
--- a/include/adevs/solvers/trap.h
+++ b/include/adevs/solvers/trap.h
@@ -257,6 +257,12 @@ void trap<ValueType>::prep_kinsol(bool silent) {
     if (check_retval(&retval, "KINSetUserData", 1)) {
         throw adevs::exception("KINSetUserData failed");
     }
+    // The Newton iteration must resolve the truncation error limit. The default
+    // of KINSOL is the third root of the unit roundoff.
+    retval = KINSetFuncNormTol(kmem, std::min(err_tol, cbrt(DBL_EPSILON)));
+    if (check_retval(&retval, "KINSetFuncNormTol", 1)) {
+        throw adevs::exception("KINSetFuncNormTol failed");
+    }
     retval = KINSetLinearSolver(kmem, LS, J);
     if (check_retval(&retval, "KINSetScaledStepTol", 1)) {
         throw adevs::exception("KINSetScaledStepTol failed");
-- 
2.43.0


From bbd1a1ba96710bb1aeaff1d7ac6019e8d832e5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:40 +0000
Subject: [PATCH 25/30] fix: a CVODE model that only sets the event flag when
 there is an event must not see the last event again

The flag kept its value from the previous step, so that an event was repeated
at every step and input that followed it.
---
 include/adevs/solvers/cvode.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/adevs/solvers/cvode.h b/include/adevs/solvers/cvode.h
index 3bddfa7..e9a3a4b 100644
--- a/include/adevs/solvers/cvode.h
+++ b/include/adevs/solvers/cvode.h
@@ -216,6 +216,7 @@ double CVODE<ValueType>::ta() {
         y_checkpoint = N_VClone(this->cvode_get_state());
         N_VAddConst(this->cvode_get_state(), 0.0, y_checkpoint);
     }
+    has_event = false;
     this->cvode_integrate(t_projected, has_event);
     return t_projected - t;
 }
@@ -245,6 +246,7 @@ template <typename ValueType>
 void CVODE<ValueType>::delta_ext(double e, std::list<PinValue<ValueType>> const &xb) {
     this->cvode_reinit(y_checkpoint, t);
     t += e;
+    has_event = false;
     this->cvode_integrate_until(t, has_event);
     if (has_event) {
         this->cvode_delta_conf(xb);
-- 
2.43.0


From 88034a1cdc008cd5f88ccc7a2e98b99c135dba59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:40 +0000
Subject: [PATCH 26/30] fix: an FMU variable that does not exist must not be
 read or written as variable 0

---
 include/adevs/solvers/fmi.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/adevs/solvers/fmi.h b/include/adevs/solvers/fmi.h
index dcb0383..bf5ad59 100644
--- a/include/adevs/solvers/fmi.h
+++ b/include/adevs/solvers/fmi.h
@@ -193,12 +193,20 @@ class ModelExchange : public ode_system<ValueType> {
         fmi2_base_type_enu_t var_type;
     };
     std::map<std::string, variable_info_t> name_to_variable_map;
+
+    variable_info_t find_variable(std::string const &name) const {
+        auto var = name_to_variable_map.find(name);
+        if (var == name_to_variable_map.end()) {
+            throw adevs::exception(("No variable is named " + name).c_str());
+        }
+        return var->second;
+    }
 };
 
 template <typename ValueType>
 std::any ModelExchange<ValueType>::get_variable(std::string name) {
     fmi2_status_t status;
-    variable_info_t var_info = name_to_variable_map[name];
+    variable_info_t var_info = find_variable(name);
     if (var_info.var_type == fmi2_base_type_real) {
         fmi2_real_t val;
         status = fmi2_import_get_real(fmu, &var_info.ref, 1, &val);
@@ -223,7 +231,7 @@ std::any ModelExchange<ValueType>::get_variable(std::string name) {
 template <typename ValueType>
 void ModelExchange<ValueType>::set_variable(std::string name, std::any value) {
     fmi2_status_t status;
-    variable_info_t var_info = name_to_variable_map[name];
+    variable_info_t var_info = find_variable(name);
     if (var_info.var_type == fmi2_base_type_real) {
         fmi2_real_t val = std::any_cast<fmi2_real_t>(value);
         status = fmi2_import_set_real(fmu, &var_info.ref, 1, &val);
-- 
2.43.0


From e4d76d529643fc00cd8999f303381894b97c6190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:40 +0000
Subject: [PATCH 27/30] fix: enumeration and string variables of an FMU must be
 read and written with their type

Reading them gave 0 and writing them did nothing.
---
 include/adevs/solvers/fmi.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/adevs/solvers/fmi.h b/include/adevs/solvers/fmi.h
index bf5ad59..87934d6 100644
--- a/include/adevs/solvers/fmi.h
+++ b/include/adevs/solvers/fmi.h
@@ -213,7 +213,8 @@ std::any ModelExchange<ValueType>::get_variable(std::string name) {
         assert(status == fmi2_status_ok);
         return val;
     }
-    if (var_info.var_type == fmi2_base_type_int) {
+    if (var_info.var_type == fmi2_base_type_int ||
+        var_info.var_type == fmi2_base_type_enum) {
         fmi2_integer_t val;
         status = fmi2_import_get_integer(fmu, &var_info.ref, 1, &val);
         assert(status == fmi2_status_ok);
@@ -225,7 +226,10 @@ std::any ModelExchange<ValueType>::get_variable(std::string name) {
         assert(status == fmi2_status_ok);
         return val;
     }
-    return 0;
+    fmi2_string_t val;
+    status = fmi2_import_get_string(fmu, &var_info.ref, 1, &val);
+    assert(status == fmi2_status_ok);
+    return std::string(val);
 }
 
 template <typename ValueType>
@@ -238,7 +242,8 @@ void ModelExchange<ValueType>::set_variable(std::string name, std::any value) {
         assert(status == fmi2_status_ok);
         return;
     }
-    if (var_info.var_type == fmi2_base_type_int) {
+    if (var_info.var_type == fmi2_base_type_int ||
+        var_info.var_type == fmi2_base_type_enum) {
         fmi2_integer_t val = std::any_cast<fmi2_integer_t>(value);
         status = fmi2_import_set_integer(fmu, &var_info.ref, 1, &val);
         assert(status == fmi2_status_ok);
@@ -248,7 +253,12 @@ void ModelExchange<ValueType>::set_variable(std::string name, std::any value) {
         fmi2_boolean_t val = std::any_cast<fmi2_boolean_t>(value);
         status = fmi2_import_set_boolean(fmu, &var_info.ref, 1, &val);
         assert(status == fmi2_status_ok);
+        return;
     }
+    std::string str = std::any_cast<std::string>(value);
+    fmi2_string_t val = str.c_str();
+    status = fmi2_import_set_string(fmu, &var_info.ref, 1, &val);
+    assert(status == fmi2_status_ok);
 }
 
 template <typename ValueType>
-- 
2.43.0


From bea9de0316491fbd04457e1816c42971de766731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:40 +0000
Subject: [PATCH 28/30] fix: an FMU that was never initialized must not be
 terminated

---
 include/adevs/solvers/fmi.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/adevs/solvers/fmi.h b/include/adevs/solvers/fmi.h
index 87934d6..ffa802a 100644
--- a/include/adevs/solvers/fmi.h
+++ b/include/adevs/solvers/fmi.h
@@ -177,6 +177,8 @@ class ModelExchange : public ode_system<ValueType> {
     double t_now;
     // Are we in continuous time mode?
     bool cont_time_mode;
+    // Has the FMU left its initialization mode?
+    bool initialized;
 
     void iterate_events();
     /// Identifiers for variables used to calculate the
@@ -268,6 +270,7 @@ ModelExchange<ValueType>::ModelExchange(char const* const fmu_file, double toler
       next_time_event(adevs_inf<double>()),
       t_now(0.0),
       cont_time_mode(false),
+      initialized(false),
       jac_col(nullptr),
       jac_v(nullptr) {
 
@@ -419,6 +422,7 @@ void ModelExchange<ValueType>::init(double* q) {
     // Done with initialization
     status = fmi2_import_exit_initialization_mode(fmu);
     assert(status == fmi2_status_ok);
+    initialized = true;
     // Put into consistent initial state
     iterate_events();
     // Enter continuous time mode to start integration
@@ -576,7 +580,10 @@ void ModelExchange<ValueType>::output_func(double const* q, bool const* state_ev
 
 template <typename ValueType>
 ModelExchange<ValueType>::~ModelExchange() {
-    fmi2_import_terminate(fmu);
+    // An FMU that was never initialized cannot be terminated
+    if (initialized) {
+        fmi2_import_terminate(fmu);
+    }
     fmi2_import_free_instance(fmu);
     fmi2_import_destroy_dllfmu(fmu);
     fmi2_import_free(fmu);
-- 
2.43.0


From 94791d6e91f2db6f36637b3722e7cb3ff489c8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:40 +0000
Subject: [PATCH 29/30] fix: a rejected FMU must leave no temporary directory,
 context or import object behind

---
 include/adevs/solvers/fmi.h | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/adevs/solvers/fmi.h b/include/adevs/solvers/fmi.h
index ffa802a..4a3c782 100644
--- a/include/adevs/solvers/fmi.h
+++ b/include/adevs/solvers/fmi.h
@@ -291,18 +291,31 @@ ModelExchange<ValueType>::ModelExchange(char const* const fmu_file, double toler
     fmi_import_context_t* context = fmi_import_allocate_context(&callbacks);
     fmi_version_enu_t version = fmi_import_get_fmi_version(context, fmu_file, tmpPath);
 
+    // Release what was allocated so far when the FMU can't be used
+    auto reject = [&](char const* msg) {
+        if (fmu) {
+            fmi2_import_free(fmu);
+        }
+        fmi_import_free_context(context);
+        fmi_import_rmdir(nullptr, tmpPath);
+        free(tmpPath);
+        throw adevs::exception(msg);
+    };
+
+    fmu = nullptr;
+
     if (version != fmi_version_2_0_enu) {
-        throw adevs::exception("Only version FMI 2.0 is supported");
+        reject("Only version FMI 2.0 is supported");
     }
 
     fmu = fmi2_import_parse_xml(context, tmpPath, 0);
 
     if (!fmu) {
-        throw adevs::exception("Error parsing FMI XML");
+        reject("Error parsing FMI XML");
     }
 
     if (fmi2_import_get_fmu_kind(fmu) == fmi2_fmu_kind_cs) {
-        throw adevs::exception("Only ME 2.0 is supported\n");
+        reject("Only ME 2.0 is supported\n");
     }
 
     // Load the dll
-- 
2.43.0


From f45d4fda417e28376e78834b763522f76ef75901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:49 +0000
Subject: [PATCH 30/30] fix: leave nothing of an output calculation that ends
 in an exception behind

When calculate_mealy_output() throws because of a cycle of Mealy models, the
inputs and outputs collected so far stayed with the models and were delivered
by the next output calculation of the simulator.
---
 include/adevs/simulator.h | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/include/adevs/simulator.h b/include/adevs/simulator.h
index a575f7f..e76d7be 100644
--- a/include/adevs/simulator.h
+++ b/include/adevs/simulator.h
@@ -500,9 +500,30 @@ void Simulator<ValueType, TimeType>::computeNextOutput() {
         }
     }
     // Calculate output from Mealy type models
-    while (!orphaned.empty()) {
-        auto model = *(orphaned.begin());
-        calculate_mealy_output(path,model);
+    try {
+        while (!orphaned.empty()) {
+            auto model = *(orphaned.begin());
+            calculate_mealy_output(path,model);
+        }
+    } catch (...) {
+        // Leave nothing of the incomplete calculation behind
+        for (auto model : active) {
+            model->outputs.clear();
+            model->inputs.clear();
+            model->revisable_inputs.clear();
+            if (model->isMealyAtomic() != nullptr) {
+                for (auto receiver : model->isMealyAtomic()->receivers) {
+                    receiver->revisable_inputs.clear();
+                }
+                model->isMealyAtomic()->receivers.clear();
+            }
+        }
+        for (auto model : orphaned) {
+            model->revisable_inputs.clear();
+        }
+        active.clear();
+        orphaned.clear();
+        throw;
     }
     // Gather input produced by Mealy models
     auto active_iter = active.begin();
-- 
2.43.0

