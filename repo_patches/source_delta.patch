From 73f6ab252a80ebf602feef32732517e3b97d9080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 01/32] fix: removing a Coupled model disconnects its pin to
 pin couplings

remove_from_graph() called connect() where disconnect() was meant, so the
couplings of a removed model stayed in the Graph with a larger count.
---
 include/adevs/models.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/adevs/models.h b/include/adevs/models.h
index af25b54..14848b0 100644
--- a/include/adevs/models.h
+++ b/include/adevs/models.h
@@ -567,7 +567,7 @@ void Coupled<ValueType, TimeType>::remove_from_graph() {
         g->disconnect(coupling.first, coupling.second);
     }
     for (auto coupling : pin_to_pin) {
-        g->connect(coupling.first, coupling.second);
+        g->disconnect(coupling.first, coupling.second);
     }
     for (auto coupled : coupled_components) {
         coupled->remove_from_graph();
-- 
2.43.0


From f1db09192fcb6341d62b93ed595a36cdab1d5f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 02/32] fix: Coupled::remove_atomic() removes this model's
 connections to the atomic

The documentation promises it. The connections stayed in the Coupled model
and, if the atomic had another instance, in the Graph.
---
 include/adevs/models.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/adevs/models.h b/include/adevs/models.h
index 14848b0..a4ac52d 100644
--- a/include/adevs/models.h
+++ b/include/adevs/models.h
@@ -585,6 +585,18 @@ void Coupled<ValueType, TimeType>::add_atomic(std::shared_ptr<Atomic<ValueType,
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_atomic(
     std::shared_ptr<Atomic<ValueType, TimeType>> model) {
+    // Remove this model's connections to the atomic
+    auto iter = pin_to_atomic.begin();
+    while (iter != pin_to_atomic.end()) {
+        if (iter->second == model) {
+            if (g != nullptr) {
+                g->disconnect(iter->first, model);
+            }
+            iter = pin_to_atomic.erase(iter);
+        } else {
+            iter++;
+        }
+    }
     atomic_components.erase(model);
     if (g != nullptr) {
         g->remove_atomic(model);
-- 
2.43.0


From 705b4e708308f0ff1111be5170a8ff3d03146cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 03/32] fix: Graph::remove_pin() also removes the edges into
 the pin

The documentation says that all edges connected to the pin are removed, but
the edges from other pins to the removed pin were left alone.
---
 include/adevs/graph.h | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/include/adevs/graph.h b/include/adevs/graph.h
index bb7c7f9..68d3876 100644
--- a/include/adevs/graph.h
+++ b/include/adevs/graph.h
@@ -289,6 +289,28 @@ void Graph<ValueType, TimeType>::remove_pin(pin_t pin) {
         // Remove the pin from the pin_to_atomic map.
         pin_to_pin.erase(pin);
     }
+    // Remove the pin as a destination in the pin to pin map
+    auto source_iter = pin_to_pin.begin();
+    while (source_iter != pin_to_pin.end()) {
+        auto &dst_list = (*source_iter).second;
+        // A self loop was handled above
+        if ((*source_iter).first != pin) {
+            for (auto dst_iter = dst_list.begin(); dst_iter != dst_list.end(); dst_iter++) {
+                if ((*dst_iter).first == pin) {
+                    (*dst_iter).second--;
+                    if ((*dst_iter).second == 0) {
+                        dst_list.erase(dst_iter);
+                    }
+                    break;
+                }
+            }
+        }
+        if (dst_list.empty()) {
+            source_iter = pin_to_pin.erase(source_iter);
+        } else {
+            source_iter++;
+        }
+    }
 }
 
 template <typename ValueType, typename TimeType>
-- 
2.43.0


From fe5ecd3bcc8fd07239b1d86585906f4a82d3085a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 04/32] fix: removing an atomic that is not in the Graph has no
 effect

remove_atomic() dereferenced the end iterator, e.g. if two models remove the
same model in one simulation cycle.
---
 include/adevs/graph.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/adevs/graph.h b/include/adevs/graph.h
index 68d3876..83c0675 100644
--- a/include/adevs/graph.h
+++ b/include/adevs/graph.h
@@ -338,6 +338,10 @@ void Graph<ValueType, TimeType>::remove_atomic(std::shared_ptr<Atomic<ValueType,
         return;
     }
     auto instance_iter = atomic_instance_count.find(model.get());
+    if (instance_iter == atomic_instance_count.end()) {
+        // The model is not in the graph
+        return;
+    }
     // Decrease the instance count and return.
     (*instance_iter).second--;
     if ((*instance_iter).second > 0) {
-- 
2.43.0


From f3b5ffa3e3b55017a29f9b475504946141524eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 05/32] fix: Graph::route() terminates when pins are connected
 in a loop

A loop of pin to pin connections caused endless recursion and a crash.
---
 include/adevs/graph.h | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/adevs/graph.h b/include/adevs/graph.h
index 83c0675..f4b7d75 100644
--- a/include/adevs/graph.h
+++ b/include/adevs/graph.h
@@ -251,6 +251,11 @@ class Graph {
     // When true, changes are queued but not applied to the graph.
     bool provisional;
     std::list<graph_op> pending;
+
+    // Implements route(). The path has the pins from the first pin up to this one.
+    void route(pin_t pin, std::set<pin_t> &path,
+               std::list<std::pair<pin_t, std::shared_ptr<Atomic<ValueType, TimeType>>>> &models)
+        const;
 };
 
 template <typename ValueType, typename TimeType>
@@ -464,6 +469,18 @@ template <typename ValueType, typename TimeType>
 void Graph<ValueType, TimeType>::route(
     pin_t pin,
     std::list<std::pair<pin_t, std::shared_ptr<Atomic<ValueType, TimeType>>>> &models) const {
+    std::set<pin_t> path;
+    route(pin, path, models);
+}
+
+template <typename ValueType, typename TimeType>
+void Graph<ValueType, TimeType>::route(
+    pin_t pin, std::set<pin_t> &path,
+    std::list<std::pair<pin_t, std::shared_ptr<Atomic<ValueType, TimeType>>>> &models) const {
+    // Do not go around loops of pins
+    if (!path.insert(pin).second) {
+        return;
+    }
     auto i = pin_to_atomic.find(pin);
     if (i != pin_to_atomic.end()) {
         for (auto j = i->second.begin(); j != i->second.end(); j++) {
@@ -474,9 +491,10 @@ void Graph<ValueType, TimeType>::route(
     auto r = pin_to_pin.find(pin);
     if (r != pin_to_pin.end()) {
         for (auto s = r->second.begin(); s != r->second.end(); s++) {
-            route((*s).first, models);
+            route((*s).first, path, models);
         }
     }
+    path.erase(pin);
 }
 
 template <typename ValueType, typename TimeType>
-- 
2.43.0


From 0eb8111a68534e678da7328c54bd59466ab3bc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 06/32] fix: adding another instance of a model leaves its
 schedule alone

When a model already in the Graph was added again during a simulation, its
elapsed time was reset and its next event was postponed.
---
 include/adevs/simulator.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/adevs/simulator.h b/include/adevs/simulator.h
index 1159619..b84b7d9 100644
--- a/include/adevs/simulator.h
+++ b/include/adevs/simulator.h
@@ -561,9 +561,15 @@ TimeType Simulator<ValueType, TimeType>::computeNextState() {
         pending.pop_front();
         switch (op.op) {
             case Graph<ValueType, TimeType>::ADD_ATOMIC:
+            {
+                // Do not disturb a model that is already being simulated
+                bool is_new = graph->get_atomics().count(op.model) == 0;
                 graph->add_atomic(op.model);
-                schedule(op.model.get(), t);
+                if (is_new) {
+                    schedule(op.model.get(), t);
+                }
                 break;
+            }
             case Graph<ValueType, TimeType>::REMOVE_ATOMIC:
                 sched.schedule(op.model.get(), adevs_inf<TimeType>());
                 graph->remove_atomic(op.model);
-- 
2.43.0


From 7138973cb10a146f3f7034dca76b783ebfef5510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 07/32] fix: removing one of several instances of a model
 leaves it scheduled

The model remained in the Graph but had no more internal events.
---
 include/adevs/simulator.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/adevs/simulator.h b/include/adevs/simulator.h
index b84b7d9..a87e7a3 100644
--- a/include/adevs/simulator.h
+++ b/include/adevs/simulator.h
@@ -571,8 +571,11 @@ TimeType Simulator<ValueType, TimeType>::computeNextState() {
                 break;
             }
             case Graph<ValueType, TimeType>::REMOVE_ATOMIC:
-                sched.schedule(op.model.get(), adevs_inf<TimeType>());
                 graph->remove_atomic(op.model);
+                // Unschedule the model if that was its last instance
+                if (graph->get_atomics().count(op.model) == 0) {
+                    sched.schedule(op.model.get(), adevs_inf<TimeType>());
+                }
                 break;
             case Graph<ValueType, TimeType>::REMOVE_PIN:
                 graph->remove_pin(op.pin[0]);
-- 
2.43.0


From 74880b85793e8eba8f268dc03437af276102ca48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:06 +0000
Subject: [PATCH 08/32] fix: a model whose Mealy input is retracted does not
 change state

If the output of a Mealy model was retracted, then the models that had
received it stayed in the active set and delta_int() was called for them even
though they had no input and were not imminent.
---
 include/adevs/simulator.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/adevs/simulator.h b/include/adevs/simulator.h
index a87e7a3..4982418 100644
--- a/include/adevs/simulator.h
+++ b/include/adevs/simulator.h
@@ -505,7 +505,9 @@ void Simulator<ValueType, TimeType>::computeNextOutput() {
         calculate_mealy_output(path,model);
     }
     // Gather input produced by Mealy models
-    for (auto model: active) {
+    auto active_iter = active.begin();
+    while (active_iter != active.end()) {
+        auto model = *active_iter;
         while (!model->revisable_inputs.empty()) {
             model->inputs.push_back(model->revisable_inputs.front().second);
             model->revisable_inputs.pop_front();
@@ -520,6 +522,12 @@ void Simulator<ValueType, TimeType>::computeNextOutput() {
         }
         // Done with the output
         model->outputs.clear();
+        // A model that is not imminent and whose input was retracted is not active
+        if (model->inputs.empty() && tNext < model->tN) {
+            active_iter = active.erase(active_iter);
+        } else {
+            active_iter++;
+        }
     }
 }
 
-- 
2.43.0


From a427897eeeb7d932bf3c848be69b51128ac7f5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 09/32] fix: a cycle of Mealy models that appears late is
 reported

If a cycle was closed by a model that was computed again after a retraction,
then retract_mealy_output() recursed without end and crashed. Now the exception
for illegal cycles is thrown.
---
 include/adevs/simulator.h | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/adevs/simulator.h b/include/adevs/simulator.h
index 4982418..f533d24 100644
--- a/include/adevs/simulator.h
+++ b/include/adevs/simulator.h
@@ -332,21 +332,22 @@ template <typename ValueType, typename TimeType>
 void Simulator<ValueType, TimeType>::retract_mealy_output(
     MealyAtomic<ValueType,TimeType>* root) {
 
-    auto iter = root->receivers.begin();
-    while (iter != root->receivers.end()) {
-        auto iter2 = (*iter)->revisable_inputs.begin();
-        while (iter2 != (*iter)->revisable_inputs.end()) {
+    while (!root->receivers.empty()) {
+        // Remove the receiver first because there may be a cycle back to the root
+        auto receiver = *(root->receivers.begin());
+        root->receivers.erase(root->receivers.begin());
+        auto iter2 = receiver->revisable_inputs.begin();
+        while (iter2 != receiver->revisable_inputs.end()) {
             if ((*iter2).first == root) {
-                iter2 = (*iter)->revisable_inputs.erase(iter2);
+                iter2 = receiver->revisable_inputs.erase(iter2);
             } else {
                 iter2++;
             }
         }
-        if ((*iter)->isMealyAtomic() != nullptr) {
-            orphaned.insert((*iter)->isMealyAtomic());
-            retract_mealy_output((*iter)->isMealyAtomic());
+        if (receiver->isMealyAtomic() != nullptr) {
+            orphaned.insert(receiver->isMealyAtomic());
+            retract_mealy_output(receiver->isMealyAtomic());
         }
-        iter = root->receivers.erase(iter);
     }
 }
 
-- 
2.43.0


From 196d01b2359e112b23692e2f2cd58990fee72e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:20 +0000
Subject: [PATCH 10/32] fix: Hybrid does not repeat an output that coincides
 with missed output

When an event follows a missed event in zero time, output_func() produces the
output of both but delta_int() did not execute the second event. Its output
was then produced again.
---
 include/adevs/solvers/hybrid.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/adevs/solvers/hybrid.h b/include/adevs/solvers/hybrid.h
index 1534813..637144f 100644
--- a/include/adevs/solvers/hybrid.h
+++ b/include/adevs/solvers/hybrid.h
@@ -476,7 +476,11 @@ class Hybrid : public Atomic<ValueType, TimeType> {
     void delta_int() {
         if (!missedOutput.empty()) {
             missedOutput.clear();
-            return;
+            // If there is an event now, then its output was produced
+            // with the missed output
+            if (sigma > 0.0) {
+                return;
+            }
         }
         e_accum += ta();
         // Execute any discrete events
-- 
2.43.0


From b1f4057281073c166095c69695d2e13b03d2b69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:20 +0000
Subject: [PATCH 11/32] fix: Hybrid applies input that arrives with missed
 output to the current state

delta_conf() applied the input to the tentative state at the end of the next
integration step and with an elapsed time that includes this step.
---
 include/adevs/solvers/hybrid.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/adevs/solvers/hybrid.h b/include/adevs/solvers/hybrid.h
index 637144f..6c2f402 100644
--- a/include/adevs/solvers/hybrid.h
+++ b/include/adevs/solvers/hybrid.h
@@ -548,7 +548,12 @@ class Hybrid : public Atomic<ValueType, TimeType> {
         if (!missedOutput.empty()) {
             missedOutput.clear();
             if (sigma > 0.0) {
+                // The tentative step is in the future
                 event_exists = false;
+                sigma = 0.0;
+                for (int i = 0; i < sys->numVars(); i++) {
+                    q_trial[i] = q[i];
+                }
             }
         }
         // Execute any discrete events
-- 
2.43.0


From 368456f49e60a63f651bb1005acf8162b3f808f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:20 +0000
Subject: [PATCH 12/32] fix: Hybrid does not report a future time event with a
 missed state event

The flag for the time event that ends the tentative step was still set when
a missed state event was processed at an external event.
---
 include/adevs/solvers/hybrid.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/adevs/solvers/hybrid.h b/include/adevs/solvers/hybrid.h
index 6c2f402..4b22012 100644
--- a/include/adevs/solvers/hybrid.h
+++ b/include/adevs/solvers/hybrid.h
@@ -515,6 +515,8 @@ class Hybrid : public Atomic<ValueType, TimeType> {
             state_event_exists = event_finder->find_events(event, q, q_trial, solver, e);
             // We missed an event
             if (state_event_exists) {
+                // The time event, if any, is still in the future
+                event[sys->numEvents()] = false;
                 output_func(missedOutput);
                 sys->confluent_event(q_trial, event, xb);
                 for (int i = 0; i < sys->numVars(); i++) {
-- 
2.43.0


From ebb2e70885b3e0aa430a65dd62ace92202d6709b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:20 +0000
Subject: [PATCH 13/32] fix: Hybrid advances to the time of an external event

The event finder overwrote the elapsed time, and so if it stopped short of an
event then the state was advanced by less than the elapsed time.
---
 include/adevs/solvers/hybrid.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/adevs/solvers/hybrid.h b/include/adevs/solvers/hybrid.h
index 4b22012..bbecbe3 100644
--- a/include/adevs/solvers/hybrid.h
+++ b/include/adevs/solvers/hybrid.h
@@ -512,7 +512,9 @@ class Hybrid : public Atomic<ValueType, TimeType> {
                 q_trial[i] = q[i];
             }
             solver->advance(q_trial, e);
-            state_event_exists = event_finder->find_events(event, q, q_trial, solver, e);
+            // The event finder may shrink the interval even if there is no event
+            double h = e;
+            state_event_exists = event_finder->find_events(event, q, q_trial, solver, h);
             // We missed an event
             if (state_event_exists) {
                 // The time event, if any, is still in the future
-- 
2.43.0


From 94e8769c2c4e79a072717d7b3386e3d2511f4dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:20 +0000
Subject: [PATCH 14/32] fix: Hybrid deletes the objects that it adopts

The documentation says that the system, solver, and event finder are adopted
and deleted, but there was no destructor.
---
 include/adevs/solvers/hybrid.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/adevs/solvers/hybrid.h b/include/adevs/solvers/hybrid.h
index bbecbe3..064319a 100644
--- a/include/adevs/solvers/hybrid.h
+++ b/include/adevs/solvers/hybrid.h
@@ -426,6 +426,16 @@ class Hybrid : public Atomic<ValueType, TimeType> {
         tentative_step();  // Take the first tentative step
     }
 
+    /// @brief Destructor deletes the system, solver, and event finder.
+    virtual ~Hybrid() {
+        delete[] q;
+        delete[] q_trial;
+        delete[] event;
+        delete event_finder;
+        delete solver;
+        delete sys;
+    }
+
     /**
      * @brief Get the value of the kth continuous state variable
      *
-- 
2.43.0


From 92784511dacae9a5a26823516a7b3275bbed0f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:20 +0000
Subject: [PATCH 15/32] fix: rk_45 deletes its trial solution

---
 include/adevs/solvers/rk_45.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/adevs/solvers/rk_45.h b/include/adevs/solvers/rk_45.h
index 5a362a6..c5f4a98 100644
--- a/include/adevs/solvers/rk_45.h
+++ b/include/adevs/solvers/rk_45.h
@@ -120,6 +120,7 @@ rk_45<ValueType>::rk_45(ode_system<ValueType>* sys, double err_tol, double h_max
 template <typename ValueType>
 rk_45<ValueType>::~rk_45() {
     delete[] dq;
+    delete[] qq;
     delete[] t;
     for (int i = 0; i < 6; i++) {
         delete[] k[i];
-- 
2.43.0


From 38070724023f8dd47e8019b505425ae3780fea4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:20 +0000
Subject: [PATCH 16/32] fix: ModelExchange puts the columns of the Jacobian in
 their places

The matrix has N+1 rows because of the extra variable for time.
---
 include/adevs/solvers/fmi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/adevs/solvers/fmi.h b/include/adevs/solvers/fmi.h
index 23976ab..e790bc6 100644
--- a/include/adevs/solvers/fmi.h
+++ b/include/adevs/solvers/fmi.h
@@ -359,7 +359,7 @@ bool ModelExchange<ValueType>::get_jacobian(double const* q, double* J) {
     // API state_var and jac_col would be in reversed positions.
     for (fmi2_value_reference_t state_var = 0; state_var < N; state_var++) {
         status = fmi2_import_get_directional_derivative(fmu, &state_var, 1, jac_col, N, jac_v,
-                                                        J + state_var * N);
+                                                        J + state_var * (N + 1));
         assert(status == fmi2_status_ok);
     }
     // Partial of time is 1 and nobody else depends on it. This, of course, may
-- 
2.43.0


From 33c852c40c40d3c02bcccda84b8048ac8cc5c328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:20 +0000
Subject: [PATCH 17/32] fix: the derivative of time has a zero entry in the
 ModelExchange Jacobian

---
 include/adevs/solvers/fmi.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/adevs/solvers/fmi.h b/include/adevs/solvers/fmi.h
index e790bc6..b8328d9 100644
--- a/include/adevs/solvers/fmi.h
+++ b/include/adevs/solvers/fmi.h
@@ -362,11 +362,10 @@ bool ModelExchange<ValueType>::get_jacobian(double const* q, double* J) {
                                                         J + state_var * (N + 1));
         assert(status == fmi2_status_ok);
     }
-    // Partial of time is 1 and nobody else depends on it. This, of course, may
-    // be wrong but FMU does not appear to support partials of f with respect to
-    // time. If you really need this, add dtau/dt = 1 to your equation set and use
-    // tau as your time variable.
-    J[(N + 1) * (N + 1) - 1] = 1.0;
+    // The derivative of time is constant and nobody else depends on it. This, of
+    // course, may be wrong but FMU does not appear to support partials of f with
+    // respect to time. If you really need this, add dtau/dt = 1 to your equation
+    // set and use tau as your time variable. Hence the last row and column are zero.
     return true;
 }
 
-- 
2.43.0


From 3eb1d09e001edf766548eb1002e9df71e663b9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:20 +0000
Subject: [PATCH 18/32] fix: ModelExchange permits a trial step of zero length
 after an event

If the solver does not call der_func() for a step of zero length and there are
no event indicators, then postTrialStep() was called in event mode.
---
 include/adevs/solvers/fmi.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/adevs/solvers/fmi.h b/include/adevs/solvers/fmi.h
index b8328d9..ab155fb 100644
--- a/include/adevs/solvers/fmi.h
+++ b/include/adevs/solvers/fmi.h
@@ -488,9 +488,14 @@ void ModelExchange<ValueType>::postStep(double* q) {
 
 template <typename ValueType>
 void ModelExchange<ValueType>::postTrialStep(double* q) {
-    assert(cont_time_mode);
     // Restore values changed by der_func and state_event_func
     fmi2_status_t status;
+    // The step could have had a length of zero
+    if (!cont_time_mode) {
+        status = fmi2_import_enter_continuous_time_mode(fmu);
+        assert(status == fmi2_status_ok);
+        cont_time_mode = true;
+    }
     status = fmi2_import_set_time(fmu, q[this->numVars() - 1]);
     assert(status == fmi2_status_ok);
     status = fmi2_import_set_continuous_states(fmu, q, this->numVars() - 1);
-- 
2.43.0


From 3acfb6684367b016f4bf934ee825abed40f7ef47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:26 +0000
Subject: [PATCH 19/32] fix: a Coupled model adds and removes only its own
 parts in the Graph

A part that was added twice to a Coupled model counted once if this was done
before the Graph was assigned, but twice if it was done after. Removing
something that is not part of the Coupled model took it away from the other
models that it is part of.
---
 include/adevs/models.h | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/include/adevs/models.h b/include/adevs/models.h
index a4ac52d..6507a32 100644
--- a/include/adevs/models.h
+++ b/include/adevs/models.h
@@ -510,8 +510,8 @@ class Coupled {
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::create_coupling(
     pin_t pin, std::shared_ptr<Atomic<ValueType, TimeType>> model) {
-    pin_to_atomic.insert(std::make_pair(pin, model));
-    if (g != nullptr) {
+    bool is_new = pin_to_atomic.insert(std::make_pair(pin, model)).second;
+    if (is_new && g != nullptr) {
         g->connect(pin, model);
     }
 }
@@ -519,24 +519,24 @@ void Coupled<ValueType, TimeType>::create_coupling(
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_coupling(
     pin_t pin, std::shared_ptr<Atomic<ValueType, TimeType>> model) {
-    pin_to_atomic.erase(std::make_pair(pin, model));
-    if (g != nullptr) {
+    bool is_member = pin_to_atomic.erase(std::make_pair(pin, model)) > 0;
+    if (is_member && g != nullptr) {
         g->disconnect(pin, model);
     }
 }
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::create_coupling(pin_t src, pin_t dst) {
-    pin_to_pin.insert(std::make_pair(src, dst));
-    if (g != nullptr) {
+    bool is_new = pin_to_pin.insert(std::make_pair(src, dst)).second;
+    if (is_new && g != nullptr) {
         g->connect(src, dst);
     }
 }
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_coupling(pin_t src, pin_t dst) {
-    pin_to_pin.erase(std::make_pair(src, dst));
-    if (g != nullptr) {
+    bool is_member = pin_to_pin.erase(std::make_pair(src, dst)) > 0;
+    if (is_member && g != nullptr) {
         g->disconnect(src, dst);
     }
 }
@@ -576,8 +576,8 @@ void Coupled<ValueType, TimeType>::remove_from_graph() {
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::add_atomic(std::shared_ptr<Atomic<ValueType, TimeType>> model) {
-    atomic_components.insert(model);
-    if (g != nullptr) {
+    bool is_new = atomic_components.insert(model).second;
+    if (is_new && g != nullptr) {
         g->add_atomic(model);
     }
 }
@@ -597,8 +597,8 @@ void Coupled<ValueType, TimeType>::remove_atomic(
             iter++;
         }
     }
-    atomic_components.erase(model);
-    if (g != nullptr) {
+    bool is_member = atomic_components.erase(model) > 0;
+    if (is_member && g != nullptr) {
         g->remove_atomic(model);
     }
 }
@@ -606,8 +606,8 @@ void Coupled<ValueType, TimeType>::remove_atomic(
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::add_coupled_model(
     std::shared_ptr<Coupled<ValueType, TimeType>> model) {
-    coupled_components.insert(model);
-    if (g != nullptr) {
+    bool is_new = coupled_components.insert(model).second;
+    if (is_new && g != nullptr) {
         model->assign_to_graph(g);
     }
 }
@@ -615,8 +615,8 @@ void Coupled<ValueType, TimeType>::add_coupled_model(
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_coupled_model(
     std::shared_ptr<Coupled<ValueType, TimeType>> model) {
-    coupled_components.erase(model);
-    if (g != nullptr) {
+    bool is_member = coupled_components.erase(model) > 0;
+    if (is_member && g != nullptr) {
         model->remove_from_graph();
     }
 }
-- 
2.43.0


From 43cc41a086ef0ae22b70c74d081a2ed53b63dd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:35 +0000
Subject: [PATCH 20/32] fix: a Coupled model can appear more than once in the
 Graph

A Coupled model may be a member of several Coupled models. Changes to it were
applied to just one of its appearances in the Graph, and changes to it after it
was removed from the last of its parents were still made to the Graph.
---
 include/adevs/models.h | 58 +++++++++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 18 deletions(-)

diff --git a/include/adevs/models.h b/include/adevs/models.h
index 6507a32..9a0f89c 100644
--- a/include/adevs/models.h
+++ b/include/adevs/models.h
@@ -405,7 +405,7 @@ class Coupled {
     /**
      * @brief Constructor creates a model without components or couplings.
      */
-    Coupled() : g(nullptr) {}
+    Coupled() : g(nullptr), instances(0) {}
     /**
      * @brief Destructor
      *
@@ -496,6 +496,8 @@ class Coupled {
     friend class Simulator<ValueType, TimeType>;
 
     Graph<ValueType, TimeType>* g;
+    /// Number of times that this model appears in the graph
+    int instances;
     std::set<std::shared_ptr<Atomic<ValueType, TimeType>>> atomic_components;
     std::set<std::shared_ptr<Coupled<ValueType, TimeType>>> coupled_components;
     /// Pins that provide input to the Atomic models
@@ -511,8 +513,10 @@ template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::create_coupling(
     pin_t pin, std::shared_ptr<Atomic<ValueType, TimeType>> model) {
     bool is_new = pin_to_atomic.insert(std::make_pair(pin, model)).second;
-    if (is_new && g != nullptr) {
-        g->connect(pin, model);
+    if (is_new) {
+        for (int i = 0; i < instances; i++) {
+            g->connect(pin, model);
+        }
     }
 }
 
@@ -520,30 +524,37 @@ template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_coupling(
     pin_t pin, std::shared_ptr<Atomic<ValueType, TimeType>> model) {
     bool is_member = pin_to_atomic.erase(std::make_pair(pin, model)) > 0;
-    if (is_member && g != nullptr) {
-        g->disconnect(pin, model);
+    if (is_member) {
+        for (int i = 0; i < instances; i++) {
+            g->disconnect(pin, model);
+        }
     }
 }
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::create_coupling(pin_t src, pin_t dst) {
     bool is_new = pin_to_pin.insert(std::make_pair(src, dst)).second;
-    if (is_new && g != nullptr) {
-        g->connect(src, dst);
+    if (is_new) {
+        for (int i = 0; i < instances; i++) {
+            g->connect(src, dst);
+        }
     }
 }
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_coupling(pin_t src, pin_t dst) {
     bool is_member = pin_to_pin.erase(std::make_pair(src, dst)) > 0;
-    if (is_member && g != nullptr) {
-        g->disconnect(src, dst);
+    if (is_member) {
+        for (int i = 0; i < instances; i++) {
+            g->disconnect(src, dst);
+        }
     }
 }
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::assign_to_graph(Graph<ValueType, TimeType>* graph) {
     g = graph;
+    instances++;
     for (auto atomic : atomic_components) {
         g->add_atomic(atomic);
     }
@@ -572,13 +583,18 @@ void Coupled<ValueType, TimeType>::remove_from_graph() {
     for (auto coupled : coupled_components) {
         coupled->remove_from_graph();
     }
+    if (--instances == 0) {
+        g = nullptr;
+    }
 }
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::add_atomic(std::shared_ptr<Atomic<ValueType, TimeType>> model) {
     bool is_new = atomic_components.insert(model).second;
-    if (is_new && g != nullptr) {
-        g->add_atomic(model);
+    if (is_new) {
+        for (int i = 0; i < instances; i++) {
+            g->add_atomic(model);
+        }
     }
 }
 
@@ -589,7 +605,7 @@ void Coupled<ValueType, TimeType>::remove_atomic(
     auto iter = pin_to_atomic.begin();
     while (iter != pin_to_atomic.end()) {
         if (iter->second == model) {
-            if (g != nullptr) {
+            for (int i = 0; i < instances; i++) {
                 g->disconnect(iter->first, model);
             }
             iter = pin_to_atomic.erase(iter);
@@ -598,8 +614,10 @@ void Coupled<ValueType, TimeType>::remove_atomic(
         }
     }
     bool is_member = atomic_components.erase(model) > 0;
-    if (is_member && g != nullptr) {
-        g->remove_atomic(model);
+    if (is_member) {
+        for (int i = 0; i < instances; i++) {
+            g->remove_atomic(model);
+        }
     }
 }
 
@@ -607,8 +625,10 @@ template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::add_coupled_model(
     std::shared_ptr<Coupled<ValueType, TimeType>> model) {
     bool is_new = coupled_components.insert(model).second;
-    if (is_new && g != nullptr) {
-        model->assign_to_graph(g);
+    if (is_new) {
+        for (int i = 0; i < instances; i++) {
+            model->assign_to_graph(g);
+        }
     }
 }
 
@@ -616,8 +636,10 @@ template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_coupled_model(
     std::shared_ptr<Coupled<ValueType, TimeType>> model) {
     bool is_member = coupled_components.erase(model) > 0;
-    if (is_member && g != nullptr) {
-        model->remove_from_graph();
+    if (is_member) {
+        for (int i = 0; i < instances; i++) {
+            model->remove_from_graph();
+        }
     }
 }
 
-- 
2.43.0


From 610639b38ad725a2e358d970d04587468691ce51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:54 +0000
Subject: [PATCH 21/32] fix: explicit integrators do not get stuck at a
 vanishing step

When the error estimate of a trial step is huge the guess for the next step is
zero, or so small that it does not change the time that remains, and
advance() never ends.  Shrink the step by a factor of ten at most at once.
---
 include/adevs/solvers/corrected_euler.h | 2 ++
 include/adevs/solvers/rk_45.h           | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/adevs/solvers/corrected_euler.h b/include/adevs/solvers/corrected_euler.h
index 9ce6be3..1b2597a 100644
--- a/include/adevs/solvers/corrected_euler.h
+++ b/include/adevs/solvers/corrected_euler.h
@@ -155,6 +155,8 @@ double corrected_euler<ValueType>::integrate(double* q, double h_lim) {
         // Otherwise shrink the step size and try again
         else {
             double h_guess = 0.8 * err_tol * h / fabs(err);
+            // Do not let a huge error estimate make the step vanish
+            h_guess = std::max<double>(h_guess, 0.1 * h);
             if (h < h_guess) {
                 h *= 0.8;
             } else {
diff --git a/include/adevs/solvers/rk_45.h b/include/adevs/solvers/rk_45.h
index c5f4a98..de24176 100644
--- a/include/adevs/solvers/rk_45.h
+++ b/include/adevs/solvers/rk_45.h
@@ -156,6 +156,8 @@ double rk_45<ValueType>::integrate(double* q, double h_lim) {
         // Otherwise shrink the step size and try again
         else {
             double h_guess = 0.8 * pow(err_tol * pow(h, 4.0) / fabs(err), 0.25);
+            // Do not let a huge error estimate make the step vanish
+            h_guess = std::max<double>(h_guess, 0.1 * h);
             if (h < h_guess) {
                 h *= 0.8;
             } else {
-- 
2.43.0


From 859b420f7872fc15442d1ca43ea4d77fe8452f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:55 +0000
Subject: [PATCH 22/32] fix: fast_event_locator terminates if a sign change is
 lost to rounding

A sign change that only the state at the end of the interval shows, and not the
state that is calculated for the same time again, made the search endless.
---
 include/adevs/solvers/event_locators.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/adevs/solvers/event_locators.h b/include/adevs/solvers/event_locators.h
index cd8986b..5fd50db 100644
--- a/include/adevs/solvers/event_locators.h
+++ b/include/adevs/solvers/event_locators.h
@@ -307,7 +307,7 @@ class fast_event_locator : public event_locator<ValueType> {
 
   private:
     double const err_tol;
-    double *z0, *zf, *dq0, *dqh;
+    double *z0, *zf, *qh, *dq0, *dqh;
     spline* p;
 
     bool is_sign_change() const;
@@ -321,6 +321,7 @@ fast_event_locator<ValueType>::fast_event_locator(ode_system<ValueType>* sys, do
       err_tol(err_tol),
       z0(new double[sys->numEvents()]),
       zf(new double[sys->numEvents()]),
+      qh(new double[sys->numVars()]),
       dq0(NULL),
       dqh(NULL),
       p(NULL) {
@@ -335,6 +336,7 @@ template <typename ValueType>
 fast_event_locator<ValueType>::~fast_event_locator() {
     delete[] z0;
     delete[] zf;
+    delete[] qh;
     if (p != NULL) {
         delete[] dq0;
         delete[] dqh;
@@ -390,6 +392,7 @@ repeat:
         }
         // Otherwise move the high end of the bracket
         hh = hg;
+        memcpy(qh, qend, sizeof(double) * this->sys->numVars());
     }
     // Event is between guess and high end of the bracket.
     else {
@@ -397,6 +400,14 @@ repeat:
     }
     // New guess is midpoint of low and high guesses
     hg = (hh + hl) / 2.0;
+    // If the bracket cannot shrink any more then the event is at its high end. This
+    // happens if the sign change there is lost to rounding when it is recalculated.
+    if (hg <= hl || hg >= hh) {
+        hg = hh;
+        memcpy(qend, qh, sizeof(double) * this->sys->numVars());
+        this->sys->state_event_func(qend, zf);
+        goto success;
+    }
     // Calculate solution at new guess
     if (p != NULL) {
         p->interpolate(qend, hg);
-- 
2.43.0


From e21f59b12556fc4c7079f52e9c49d471cd53bac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:40 +0000
Subject: [PATCH 23/32] fix: CVODE forgets the event flag of the previous
 integration

---
 include/adevs/solvers/cvode.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/adevs/solvers/cvode.h b/include/adevs/solvers/cvode.h
index 3bddfa7..0c19672 100644
--- a/include/adevs/solvers/cvode.h
+++ b/include/adevs/solvers/cvode.h
@@ -216,6 +216,8 @@ double CVODE<ValueType>::ta() {
         y_checkpoint = N_VClone(this->cvode_get_state());
         N_VAddConst(this->cvode_get_state(), 0.0, y_checkpoint);
     }
+    // The model sets this to true if there is an event
+    has_event = false;
     this->cvode_integrate(t_projected, has_event);
     return t_projected - t;
 }
@@ -245,6 +247,8 @@ template <typename ValueType>
 void CVODE<ValueType>::delta_ext(double e, std::list<PinValue<ValueType>> const &xb) {
     this->cvode_reinit(y_checkpoint, t);
     t += e;
+    // Forget the event at the end of the abandoned step
+    has_event = false;
     this->cvode_integrate_until(t, has_event);
     if (has_event) {
         this->cvode_delta_conf(xb);
-- 
2.43.0


From 9d16b52773f6085dd7dba1fb81c014177068aefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:28 +0000
Subject: [PATCH 24/32] fix: get_imminent() of the schedule in schedule2.h did
 not compile

It used an entry of the heap as if it were a model and flags that models do
not have any more. With an empty schedule it would have looked at the first entry.
---
 include/adevs/schedule2.h | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/include/adevs/schedule2.h b/include/adevs/schedule2.h
index 68d0947..ffb87b5 100644
--- a/include/adevs/schedule2.h
+++ b/include/adevs/schedule2.h
@@ -33,6 +33,7 @@
 #define _adevs_schedule_h_
 
 #include <algorithm>
+#include <cassert>
 #include <cfloat>
 #include <cstdlib>
 #include <list>
@@ -135,21 +136,13 @@ class Schedule {
             return;
         }
 
-        std::shared_ptr<Model> tmp = model_heap[index];
+        Entry const &tmp = model_heap[index];
         if (tmp.time_advance > minimum) {
             return;
         }
 
-        assert(tmp.model->outputs->empty());
-        tmp.model->imminent = true;
-
-        // Put it in the active list if it is not already there
-        if (!tmp.model->activated) {
-            activated.push_back(tmp.model);
-            if (tmp.model->typeIsMealyAtomic() == nullptr) {
-                tmp.model->activated = true;
-            }
-        }
+        assert(tmp.model->outputs.empty());
+        activated.push_back(tmp.model);
 
         check_imminent((index * 2) + 1, maximum, minimum, activated);
         check_imminent((index * 2) + 2, maximum, minimum, activated);
@@ -158,7 +151,9 @@ class Schedule {
     /// Gets a list of all imminent models
     std::list<std::shared_ptr<Model>> get_imminent() {
         std::list<std::shared_ptr<Model>> activated;
-        check_imminent(0, model_heap.size() - 1, get_minimum(), activated);
+        if (!model_heap.empty()) {
+            check_imminent(0, model_heap.size() - 1, get_minimum(), activated);
+        }
         return activated;
     }
 
-- 
2.43.0


From a74ae5e374d541dd0000adecf8b59c0a26c063f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:28 +0000
Subject: [PATCH 25/32] fix: removal of a model broke the heap and the index in
 schedule2.h

The index of the model that fills the hole was not changed unless that model
moved on, and the model was never moved up. Later calls then changed the wrong
entry or accessed entries beyond the end of the heap.
---
 include/adevs/schedule2.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/adevs/schedule2.h b/include/adevs/schedule2.h
index ffb87b5..54b6467 100644
--- a/include/adevs/schedule2.h
+++ b/include/adevs/schedule2.h
@@ -221,9 +221,15 @@ class Schedule {
         // Replace the index with the last element and then rebuild the heap.
         // Then remove the last element from the vector; don't need to keep the
         // initial element because it is being removed.
-        model_heap[index] = model_heap.back();
+        if (index != model_heap.size() - 1) {
+            model_heap[index] = model_heap.back();
+            model_index[model_heap[index].model] = index;
+        }
         model_heap.pop_back();
-        percolate_down(index);
+        if (index < model_heap.size()) {
+            // The model that took the place can belong above it or below it
+            percolate_down(percolate_up(index));
+        }
     }
 
     // Restore the heap property by moving a model up the tree
-- 
2.43.0


From faeaa5629a7e31bd1c565da2ab0f5f3fc4583f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:28 +0000
Subject: [PATCH 26/32] fix: update_all() of the schedule in schedule2.h did
 nothing

The time advances are kept in the heap and were not renewed.
---
 include/adevs/schedule2.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/adevs/schedule2.h b/include/adevs/schedule2.h
index 54b6467..b7cb34a 100644
--- a/include/adevs/schedule2.h
+++ b/include/adevs/schedule2.h
@@ -116,6 +116,11 @@ class Schedule {
         // functions (add, remove, remove_next, and update) should keep the heap
         // property valid during their operations.
 
+        // Get the time advance of every model
+        for (auto &entry : model_heap) {
+            entry.time_advance = entry.model->ta();
+        }
+
         // Rebuild the entire heap then loop and update each model's index
         make_heap(model_heap.begin(), model_heap.end(), compare_time_advance);
         for (size_t ii = 0; ii < model_heap.size(); ii++) {
-- 
2.43.0


From 082a2d9ddd48709710cc89dc5ff2de965b2c2199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:20 +0000
Subject: [PATCH 27/32] fix: a Coupled model forgets the graph of a Simulator
 that was deleted

---
 include/adevs/models.h    | 33 ++++++++++++++++++++++++++++-----
 include/adevs/simulator.h |  2 +-
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/include/adevs/models.h b/include/adevs/models.h
index 9a0f89c..774220c 100644
--- a/include/adevs/models.h
+++ b/include/adevs/models.h
@@ -496,6 +496,8 @@ class Coupled {
     friend class Simulator<ValueType, TimeType>;
 
     Graph<ValueType, TimeType>* g;
+    /// The graph may be deleted before this model
+    std::weak_ptr<Graph<ValueType, TimeType>> graph_exists;
     /// Number of times that this model appears in the graph
     int instances;
     std::set<std::shared_ptr<Atomic<ValueType, TimeType>>> atomic_components;
@@ -505,13 +507,21 @@ class Coupled {
     /// Pin to pin connections
     std::set<std::pair<pin_t, pin_t>> pin_to_pin;
 
-    void assign_to_graph(Graph<ValueType, TimeType>* graph);
+    void assign_to_graph(std::shared_ptr<Graph<ValueType, TimeType>> graph);
     void remove_from_graph();
+    /// Forget the graph if it was deleted
+    void check_graph() {
+        if (graph_exists.expired()) {
+            g = nullptr;
+            instances = 0;
+        }
+    }
 };
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::create_coupling(
     pin_t pin, std::shared_ptr<Atomic<ValueType, TimeType>> model) {
+    check_graph();
     bool is_new = pin_to_atomic.insert(std::make_pair(pin, model)).second;
     if (is_new) {
         for (int i = 0; i < instances; i++) {
@@ -523,6 +533,7 @@ void Coupled<ValueType, TimeType>::create_coupling(
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_coupling(
     pin_t pin, std::shared_ptr<Atomic<ValueType, TimeType>> model) {
+    check_graph();
     bool is_member = pin_to_atomic.erase(std::make_pair(pin, model)) > 0;
     if (is_member) {
         for (int i = 0; i < instances; i++) {
@@ -533,6 +544,7 @@ void Coupled<ValueType, TimeType>::remove_coupling(
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::create_coupling(pin_t src, pin_t dst) {
+    check_graph();
     bool is_new = pin_to_pin.insert(std::make_pair(src, dst)).second;
     if (is_new) {
         for (int i = 0; i < instances; i++) {
@@ -543,6 +555,7 @@ void Coupled<ValueType, TimeType>::create_coupling(pin_t src, pin_t dst) {
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_coupling(pin_t src, pin_t dst) {
+    check_graph();
     bool is_member = pin_to_pin.erase(std::make_pair(src, dst)) > 0;
     if (is_member) {
         for (int i = 0; i < instances; i++) {
@@ -552,8 +565,13 @@ void Coupled<ValueType, TimeType>::remove_coupling(pin_t src, pin_t dst) {
 }
 
 template <typename ValueType, typename TimeType>
-void Coupled<ValueType, TimeType>::assign_to_graph(Graph<ValueType, TimeType>* graph) {
-    g = graph;
+void Coupled<ValueType, TimeType>::assign_to_graph(
+    std::shared_ptr<Graph<ValueType, TimeType>> graph) {
+    if (graph_exists.lock() != graph) {
+        g = graph.get();
+        graph_exists = graph;
+        instances = 0;
+    }
     instances++;
     for (auto atomic : atomic_components) {
         g->add_atomic(atomic);
@@ -565,7 +583,7 @@ void Coupled<ValueType, TimeType>::assign_to_graph(Graph<ValueType, TimeType>* g
         g->connect(coupling.first, coupling.second);
     }
     for (auto coupled : coupled_components) {
-        coupled->assign_to_graph(g);
+        coupled->assign_to_graph(graph);
     }
 }
 
@@ -585,11 +603,13 @@ void Coupled<ValueType, TimeType>::remove_from_graph() {
     }
     if (--instances == 0) {
         g = nullptr;
+        graph_exists.reset();
     }
 }
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::add_atomic(std::shared_ptr<Atomic<ValueType, TimeType>> model) {
+    check_graph();
     bool is_new = atomic_components.insert(model).second;
     if (is_new) {
         for (int i = 0; i < instances; i++) {
@@ -601,6 +621,7 @@ void Coupled<ValueType, TimeType>::add_atomic(std::shared_ptr<Atomic<ValueType,
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_atomic(
     std::shared_ptr<Atomic<ValueType, TimeType>> model) {
+    check_graph();
     // Remove this model's connections to the atomic
     auto iter = pin_to_atomic.begin();
     while (iter != pin_to_atomic.end()) {
@@ -624,10 +645,11 @@ void Coupled<ValueType, TimeType>::remove_atomic(
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::add_coupled_model(
     std::shared_ptr<Coupled<ValueType, TimeType>> model) {
+    check_graph();
     bool is_new = coupled_components.insert(model).second;
     if (is_new) {
         for (int i = 0; i < instances; i++) {
-            model->assign_to_graph(g);
+            model->assign_to_graph(graph_exists.lock());
         }
     }
 }
@@ -635,6 +657,7 @@ void Coupled<ValueType, TimeType>::add_coupled_model(
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_coupled_model(
     std::shared_ptr<Coupled<ValueType, TimeType>> model) {
+    check_graph();
     bool is_member = coupled_components.erase(model) > 0;
     if (is_member) {
         for (int i = 0; i < instances; i++) {
diff --git a/include/adevs/simulator.h b/include/adevs/simulator.h
index f533d24..fc49e44 100644
--- a/include/adevs/simulator.h
+++ b/include/adevs/simulator.h
@@ -423,7 +423,7 @@ void Simulator<ValueType, TimeType>::calculate_mealy_output(
 template <typename ValueType, typename TimeType>
 Simulator<ValueType, TimeType>::Simulator(std::shared_ptr<Coupled<ValueType, TimeType>> model)
     : graph(new Graph<ValueType, TimeType>()) {
-    model->assign_to_graph(graph.get());
+    model->assign_to_graph(graph);
     graph->set_provisional(true);
     for (auto atomic : graph->get_atomics()) {
         schedule(atomic.get(), adevs_zero<TimeType>());
-- 
2.43.0


From e4325a9d654addee82aa1e9d676dbc5d65550e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:42 +0000
Subject: [PATCH 28/32] fix: models can be simulated again by a new Simulator

---
 include/adevs/simulator.h | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/adevs/simulator.h b/include/adevs/simulator.h
index fc49e44..ceed233 100644
--- a/include/adevs/simulator.h
+++ b/include/adevs/simulator.h
@@ -304,6 +304,8 @@ class Simulator {
     TimeType tNext;
 
     void schedule(Atomic<ValueType, TimeType>* model, TimeType t);
+    // Forget what another simulator, which is not used any more, left in the model
+    void reset(Atomic<ValueType, TimeType>* model);
     void calculate_mealy_output(
         std::set<MealyAtomic<ValueType,TimeType>*>& path, MealyAtomic<ValueType,TimeType>* root);
     void retract_mealy_output(MealyAtomic<ValueType,TimeType>* root);
@@ -314,6 +316,7 @@ Simulator<ValueType, TimeType>::Simulator(std::shared_ptr<Graph<ValueType, TimeT
     : graph(model) {
     graph->set_provisional(true);
     for (auto atomic : model->get_atomics()) {
+        reset(atomic.get());
         schedule(atomic.get(), adevs_zero<TimeType>());
     }
     tNext = sched.minPriority();
@@ -324,6 +327,7 @@ Simulator<ValueType, TimeType>::Simulator(std::shared_ptr<Atomic<ValueType, Time
     : graph(new Graph<ValueType, TimeType>()) {
     graph->add_atomic(model);
     graph->set_provisional(true);
+    reset(model.get());
     schedule(model.get(), adevs_zero<TimeType>());
     tNext = sched.minPriority();
 }
@@ -426,6 +430,7 @@ Simulator<ValueType, TimeType>::Simulator(std::shared_ptr<Coupled<ValueType, Tim
     model->assign_to_graph(graph);
     graph->set_provisional(true);
     for (auto atomic : graph->get_atomics()) {
+        reset(atomic.get());
         schedule(atomic.get(), adevs_zero<TimeType>());
     }
     tNext = sched.minPriority();
@@ -575,6 +580,7 @@ TimeType Simulator<ValueType, TimeType>::computeNextState() {
                 bool is_new = graph->get_atomics().count(op.model) == 0;
                 graph->add_atomic(op.model);
                 if (is_new) {
+                    reset(op.model.get());
                     schedule(op.model.get(), t);
                 }
                 break;
@@ -609,6 +615,17 @@ TimeType Simulator<ValueType, TimeType>::computeNextState() {
     return t;
 }
 
+template <class ValueType, class TimeType>
+void Simulator<ValueType, TimeType>::reset(Atomic<ValueType, TimeType>* model) {
+    model->q_index = 0;
+    model->inputs.clear();
+    model->outputs.clear();
+    model->revisable_inputs.clear();
+    if (model->isMealyAtomic() != nullptr) {
+        model->isMealyAtomic()->receivers.clear();
+    }
+}
+
 template <class ValueType, class TimeType>
 void Simulator<ValueType, TimeType>::schedule(Atomic<ValueType, TimeType>* model, TimeType t) {
     model->tL = t;
-- 
2.43.0


From fbab787ba53f48c6f2a0fd24f5f600ed18167817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:49 +0000
Subject: [PATCH 29/32] fix: CVODE::ta() integrated again when it was called
 again before an event

---
 include/adevs/solvers/cvode.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/adevs/solvers/cvode.h b/include/adevs/solvers/cvode.h
index 0c19672..ddc13bf 100644
--- a/include/adevs/solvers/cvode.h
+++ b/include/adevs/solvers/cvode.h
@@ -196,12 +196,14 @@ class CVODE : public Atomic<ValueType> {
   private:
     N_Vector y_checkpoint;
     bool has_event;
+    // Was the state advanced to t_projected?
+    bool projected;
     double t, t_projected;
 };
 
 template <typename ValueType>
 CVODE<ValueType>::CVODE()
-    : Atomic<ValueType, double>(), y_checkpoint(nullptr), has_event(false), t(0.0) {}
+    : Atomic<ValueType, double>(), y_checkpoint(nullptr), has_event(false), projected(false), t(0.0) {}
 
 template <typename ValueType>
 CVODE<ValueType>::~CVODE() {
@@ -216,9 +218,13 @@ double CVODE<ValueType>::ta() {
         y_checkpoint = N_VClone(this->cvode_get_state());
         N_VAddConst(this->cvode_get_state(), 0.0, y_checkpoint);
     }
-    // The model sets this to true if there is an event
-    has_event = false;
-    this->cvode_integrate(t_projected, has_event);
+    // The solver may be asked only once to advance the present state
+    if (!projected) {
+        // The model sets this to true if there is an event
+        has_event = false;
+        this->cvode_integrate(t_projected, has_event);
+        projected = true;
+    }
     return t_projected - t;
 }
 
@@ -229,6 +235,7 @@ void CVODE<ValueType>::delta_int() {
         this->cvode_delta_int();
     }
     t = t_projected;
+    projected = false;
     N_VAddConst(this->cvode_get_state(), 0.0, y_checkpoint);
 }
 
@@ -240,6 +247,7 @@ void CVODE<ValueType>::delta_conf(std::list<PinValue<ValueType>> const &xb) {
         this->cvode_delta_ext(t_projected, xb);
     }
     t = t_projected;
+    projected = false;
     N_VAddConst(this->cvode_get_state(), 0.0, y_checkpoint);
 }
 
@@ -247,6 +255,7 @@ template <typename ValueType>
 void CVODE<ValueType>::delta_ext(double e, std::list<PinValue<ValueType>> const &xb) {
     this->cvode_reinit(y_checkpoint, t);
     t += e;
+    projected = false;
     // Forget the event at the end of the abandoned step
     has_event = false;
     this->cvode_integrate_until(t, has_event);
-- 
2.43.0


From 6e73b5ccd715a60f768dbabfbfacf66cafb9b3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:25 +0000
Subject: [PATCH 30/32] fix: ModelExchange left its temporary directory and the
 parsed FMU behind when it refused an FMU

---
 include/adevs/solvers/fmi.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/adevs/solvers/fmi.h b/include/adevs/solvers/fmi.h
index ab155fb..5405b3b 100644
--- a/include/adevs/solvers/fmi.h
+++ b/include/adevs/solvers/fmi.h
@@ -247,6 +247,7 @@ template <typename ValueType>
 ModelExchange<ValueType>::ModelExchange(char const* const fmu_file, double tolerance)
     :  // One extra variable at the end for time
       ode_system<ValueType>(),
+      fmu(nullptr),
       next_time_event(adevs_inf<double>()),
       t_now(0.0),
       cont_time_mode(false),
@@ -268,20 +269,30 @@ ModelExchange<ValueType>::ModelExchange(char const* const fmu_file, double toler
     assert(tmpPath);
 
     fmi_import_context_t* context = fmi_import_allocate_context(&callbacks);
+    // Leave nothing behind if the FMU is refused
+    auto refuse = [&](char const* reason) {
+        if (fmu) {
+            fmi2_import_free(fmu);
+        }
+        fmi_import_free_context(context);
+        fmi_import_rmdir(nullptr, tmpPath);
+        free(tmpPath);
+        throw adevs::exception(reason);
+    };
     fmi_version_enu_t version = fmi_import_get_fmi_version(context, fmu_file, tmpPath);
 
     if (version != fmi_version_2_0_enu) {
-        throw adevs::exception("Only version FMI 2.0 is supported");
+        refuse("Only version FMI 2.0 is supported");
     }
 
     fmu = fmi2_import_parse_xml(context, tmpPath, 0);
 
     if (!fmu) {
-        throw adevs::exception("Error parsing FMI XML");
+        refuse("Error parsing FMI XML");
     }
 
     if (fmi2_import_get_fmu_kind(fmu) == fmi2_fmu_kind_cs) {
-        throw adevs::exception("Only ME 2.0 is supported\n");
+        refuse("Only ME 2.0 is supported\n");
     }
 
     // Load the dll
-- 
2.43.0


From 8b3f0bb91d24ce8602c3b116ba1adf92dd4ad6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:55 +0000
Subject: [PATCH 31/32] fix: explicit integrators take smaller steps where the
 derivatives have no value

A trial step that leads to where the derivatives are not numbers was accepted, because the
largest error does not see them, and the state was not a number from then on.
---
 include/adevs/solvers/corrected_euler.h | 7 +++++++
 include/adevs/solvers/rk_45.h           | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/include/adevs/solvers/corrected_euler.h b/include/adevs/solvers/corrected_euler.h
index 1b2597a..11c3595 100644
--- a/include/adevs/solvers/corrected_euler.h
+++ b/include/adevs/solvers/corrected_euler.h
@@ -189,9 +189,16 @@ double corrected_euler<ValueType>::trial_step(double step) {
     }
     // Compute next state and approximate error
     double err = 0.0;
+    bool defined = true, defined_at_start = true;
     for (j = 0; j < this->sys->numVars(); j++) {
         qq[j] += k[1][j];                                      // Next state
         err = std::max<double>(err, fabs(k[0][j] - k[1][j]));  // Maximum error
+        defined = defined && !std::isnan(k[0][j] - k[1][j]);
+        defined_at_start = defined_at_start && std::isfinite(k[0][j]);
+    }
+    // The step is too large if it led to where the derivatives have no value
+    if (!defined && defined_at_start) {
+        return DBL_MAX;
     }
     return err;  // Return the error
 }
diff --git a/include/adevs/solvers/rk_45.h b/include/adevs/solvers/rk_45.h
index de24176..f63d369 100644
--- a/include/adevs/solvers/rk_45.h
+++ b/include/adevs/solvers/rk_45.h
@@ -222,6 +222,7 @@ double rk_45<ValueType>::trial_step(double step) {
     }
     // Compute next state and the approximate error
     double err = 0.0;
+    bool defined = true, defined_at_start = true;
     for (int j = 0; j < this->sys->numVars(); j++) {
         // Next state
         qq[j] += (1.0 / 24.0) * k[0][j] + (5.0 / 48.0) * k[3][j] + (27.0 / 56.0) * k[4][j] +
@@ -229,6 +230,12 @@ double rk_45<ValueType>::trial_step(double step) {
         // Component wise maximum of the approximate error
         err = std::max(err, fabs(k[0][j] / 8.0 + 2.0 * k[2][j] / 3.0 + k[3][j] / 16.0 -
                                  27.0 * k[4][j] / 56.0 - 125.0 * k[5][j] / 336.0));
+        defined = defined && !std::isnan(qq[j] + k[2][j]);
+        defined_at_start = defined_at_start && std::isfinite(k[0][j]);
+    }
+    // The step is too large if it led to where the derivatives have no value
+    if (!defined && defined_at_start) {
+        return DBL_MAX;
     }
     // Return the error
     return err;
-- 
2.43.0


From 3fbcaf6ae654e15f7cd36922617796612e003210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:55 +0000
Subject: [PATCH 32/32] fix: the implicit integrator takes smaller steps where
 the derivatives have no value

KINSOL took the Euler step for the solution if the derivatives are not numbers there.
---
 include/adevs/solvers/trap.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/adevs/solvers/trap.h b/include/adevs/solvers/trap.h
index c26a2d4..8c24fce 100644
--- a/include/adevs/solvers/trap.h
+++ b/include/adevs/solvers/trap.h
@@ -180,10 +180,14 @@ int trap<ValueType>::func(N_Vector y, N_Vector f, void* user_data) {
     auto fd = N_VGetArrayPointer(f);
     kinsol_data_t* data = static_cast<kinsol_data_t*>(user_data);
     data->self->sys->der_func(yd, fd);
+    bool defined = true, defined_at_start = true;
     for (int i = 0; i < data->self->sys->numVars(); i++) {
         fd[i] = data->self->k[i] + fd[i] * (data->h / 2.0) - yd[i];
+        defined = defined && !std::isnan(fd[i]);
+        defined_at_start = defined_at_start && std::isfinite(data->self->k[i]);
     }
-    return 0;
+    // The step is too large if it led to where the derivatives have no value
+    return (!defined && defined_at_start) ? 1 : 0;
 }
 
 template <typename ValueType>
-- 
2.43.0

