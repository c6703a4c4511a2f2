From ffcd84d6c346911f1be0f4b64d58f61db71d7b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:24 +0000
Subject: [PATCH 01/28] fix: derivative block keeps its last output, not its
 last input

---
 src/block/extra/derivative.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block/extra/derivative.hpp b/src/block/extra/derivative.hpp
index 9f6c5cb..e2bf4ff 100644
--- a/src/block/extra/derivative.hpp
+++ b/src/block/extra/derivative.hpp
@@ -44,7 +44,7 @@ public:
         pooya_trace("block: " + Base::full_name().str());
         _t          = t;
         _x          = Base::_s_in;
-        _y          = _x;
+        _y          = Base::_s_out;
         _first_step = false;
     }
 
-- 
2.43.0


From ec8499d0d6925e4fd745bd180e8cb60b7b6bb82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:24 +0000
Subject: [PATCH 02/28] fix: make SubtractA, DivideA and DerivativeA compile

---
 src/block/extra/derivative.hpp | 2 +-
 src/block/extra/divide.hpp     | 2 +-
 src/block/extra/subtract.hpp   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/block/extra/derivative.hpp b/src/block/extra/derivative.hpp
index e2bf4ff..d9a62b6 100644
--- a/src/block/extra/derivative.hpp
+++ b/src/block/extra/derivative.hpp
@@ -63,7 +63,7 @@ public:
         }
         else
         {
-            Base::_s_out = (Base::_s_in - _x) / (t - _t);
+            Base::_s_out = (Base::_s_in->get_value() - _x) / (t - _t);
         }
     }
 
diff --git a/src/block/extra/divide.hpp b/src/block/extra/divide.hpp
index 6b9add3..9c582f3 100644
--- a/src/block/extra/divide.hpp
+++ b/src/block/extra/divide.hpp
@@ -54,7 +54,7 @@ public:
     void activation_function(double /*t*/) override
     {
         pooya_trace("block: " + Base::full_name().str());
-        Base::_s_out = _s_x1 / _s_x2;
+        Base::_s_out = _s_x1->get_value() / _s_x2->get_value();
     }
 
 protected:
diff --git a/src/block/extra/subtract.hpp b/src/block/extra/subtract.hpp
index f75f706..82a20f0 100644
--- a/src/block/extra/subtract.hpp
+++ b/src/block/extra/subtract.hpp
@@ -54,7 +54,7 @@ public:
     void activation_function(double /*t*/) override
     {
         pooya_trace("block: " + Base::full_name().str());
-        Base::_s_out = _s_x1 - _s_x2;
+        Base::_s_out = _s_x1->get_value() - _s_x2->get_value();
     }
 
 protected:
-- 
2.43.0


From 91d16f841215f4efbe24f679a338177879e1801a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:24 +0000
Subject: [PATCH 03/28] fix: SISOFunctionA and SOFunctionA accept functions
 returning an array by value

---
 src/block/extra/siso_function.hpp | 2 +-
 src/block/extra/so_function.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/block/extra/siso_function.hpp b/src/block/extra/siso_function.hpp
index 6087440..ea34560 100644
--- a/src/block/extra/siso_function.hpp
+++ b/src/block/extra/siso_function.hpp
@@ -33,7 +33,7 @@ class SISOFunctionT : public SingleInputOutputT<T>
 {
 public:
     using Base        = SingleInputOutputT<T>;
-    using ActFunction = std::function<typename Types<T>::SetValue(double, typename Types<T>::GetValue)>;
+    using ActFunction = std::function<T(double, typename Types<T>::GetValue)>;
 
     explicit SISOFunctionT(ActFunction act_func, Submodel* parent = nullptr, std::string_view name = "")
         : Base(parent, name, 1), _act_func(act_func)
diff --git a/src/block/extra/so_function.hpp b/src/block/extra/so_function.hpp
index 8179405..ae209ea 100644
--- a/src/block/extra/so_function.hpp
+++ b/src/block/extra/so_function.hpp
@@ -33,7 +33,7 @@ class SOFunctionT : public SingleOutputT<T>
 {
 public:
     using Base        = SingleOutputT<T>;
-    using ActFunction = std::function<typename Types<T>::SetValue(double, const pooya::Bus& ibus)>;
+    using ActFunction = std::function<T(double, const pooya::Bus& ibus)>;
 
     explicit SOFunctionT(ActFunction act_func, Submodel* parent = nullptr, std::string_view name = "",
                          uint16_t num_iports = Block::NoIOLimit)
-- 
2.43.0


From 3cd8d349deb0fb13ae08291ed6a3d18d417e4ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:24 +0000
Subject: [PATCH 04/28] fix: make InitialValue and InitialValueA compile

---
 src/block/extra/initial_value.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/block/extra/initial_value.hpp b/src/block/extra/initial_value.hpp
index e1c6212..af6d55f 100644
--- a/src/block/extra/initial_value.hpp
+++ b/src/block/extra/initial_value.hpp
@@ -41,11 +41,16 @@ public:
         pooya_trace("block: " + Base::full_name().str());
         if (_init)
         {
-            _value      = Base::_s_in->get();
-            Base::_ibus = nullptr;
-            _init       = false;
+            _value = Base::_s_in;
+            _init  = false;
+
+            // the input is not needed any longer
+            if (auto* ptr = Base::find_linked_signal(Base::_s_in.impl()))
+            {
+                ptr->second = ptr->second & (~Base::SignalLinkType::Required);
+            }
         }
-        Base::_s_out->set(_value);
+        Base::_s_out = _value;
     }
 
 protected:
-- 
2.43.0


From 15dd4d230d5c65b377f97b3a1a325ff2af63d530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:24 +0000
Subject: [PATCH 05/28] fix: triggered integrator samples its trigger once, at
 the end of a step

---
 src/block/extra/triggered_integrator.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/block/extra/triggered_integrator.hpp b/src/block/extra/triggered_integrator.hpp
index 2d56709..ae6a2a1 100644
--- a/src/block/extra/triggered_integrator.hpp
+++ b/src/block/extra/triggered_integrator.hpp
@@ -72,13 +72,11 @@ public:
         Base::pre_step(t);
     }
 
-    void activation_function(double /*t*/) override
+    void post_step(double t) override
     {
         pooya_trace("block: " + Base::full_name().str());
-        if (!_triggered)
-        {
-            _triggered = _trigger;
-        }
+        Base::post_step(t);
+        _triggered = _trigger->assigned() && _trigger;
     }
 
 protected:
-- 
2.43.0


From 02c3077fbfe70a56ca44abae7ad4c194f7b1e0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:24 +0000
Subject: [PATCH 06/28] fix: delay block keeps the sample preceding its
 lifespan window

---
 src/block/extra/delay.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/block/extra/delay.hpp b/src/block/extra/delay.hpp
index 06f71b2..13e12f6 100644
--- a/src/block/extra/delay.hpp
+++ b/src/block/extra/delay.hpp
@@ -71,6 +71,7 @@ public:
                 }
                 k++;
             }
+            k = std::max(k - 1, 0); // the next interpolation may still start at the last sample before t1
             _t.erase(_t.begin(), _t.begin() + k);
             _x.erase(_x.begin(), _x.begin() + k);
         }
-- 
2.43.0


From 1943502d4dba9826c53af00131fe27ff03788b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:24 +0000
Subject: [PATCH 07/28] fix: order-reusing simulator crashes on a model without
 state variables

---
 src/solver/simulator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/simulator.cpp b/src/solver/simulator.cpp
index f385ba8..5e01b06 100644
--- a/src/solver/simulator.cpp
+++ b/src/solver/simulator.cpp
@@ -126,7 +126,7 @@ void Simulator::init(double t0)
 
     SimulatorBase::init(t0);
 
-    if (_state_variables.size() > 0 && _reuse_order)
+    if (_reuse_order)
     {
         pooya_debug_verify0(_processing_order1.empty());
         pooya_debug_verify0(_processing_order2.empty());
-- 
2.43.0


From bb8949c065cf0d1a2d1171e053d21e113c92da87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:24 +0000
Subject: [PATCH 08/28] fix: order-reusing simulator drops bus block builders
 from its order

---
 src/solver/simulator.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/solver/simulator.cpp b/src/solver/simulator.cpp
index 5e01b06..dab1fce 100644
--- a/src/solver/simulator.cpp
+++ b/src/solver/simulator.cpp
@@ -46,6 +46,15 @@ void Simulator::process_model(double t, bool call_pre_step, bool call_post_step)
     {
         _new_po->clear();
 
+        // some blocks, e.g. bus block builders, do not need to be processed
+        for (auto* base : *_current_po)
+        {
+            if (base->processed())
+            {
+                _new_po->emplace_back(base);
+            }
+        }
+
         bool any_processed;
         do
         {
-- 
2.43.0


From 9a802d6ae0e9ddb9e15f1cd2b85d289033fa8212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:24 +0000
Subject: [PATCH 09/28] fix: fast simulator refuses models that were evaluated
 before or have unused bus entries

---
 src/solver/fast_simulator.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/solver/fast_simulator.cpp b/src/solver/fast_simulator.cpp
index 2636a1c..4228b10 100644
--- a/src/solver/fast_simulator.cpp
+++ b/src/solver/fast_simulator.cpp
@@ -48,10 +48,12 @@ void FastSimulator::init(double t0)
 
     pooya_debug_verify0(_processing_order.empty());
 
+    _model._mark_unprocessed();
+
     uint num_blocks     = 0;
     auto enum_blocks_cb = [&](Block& c, uint32_t /*level*/) -> bool
     {
-        if (dynamic_cast<Leaf*>(&c)) num_blocks++;
+        if (dynamic_cast<Leaf*>(&c) && !c.processed()) num_blocks++;
         return true;
     };
     _model.visit(enum_blocks_cb, 0);
@@ -62,7 +64,7 @@ void FastSimulator::init(double t0)
 
     auto add_blocks_cb = [&po](Block& c, uint32_t /*level*/) -> bool
     {
-        if (auto* p = dynamic_cast<Leaf*>(&c)) po.push_back(p);
+        if (auto* p = dynamic_cast<Leaf*>(&c); p && !p->processed()) po.push_back(p);
         return true;
     };
     _model.visit(add_blocks_cb, 0);
-- 
2.43.0


From de4918577f49f5565a6bfbcd68744a6d9daa6805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:24 +0000
Subject: [PATCH 10/28] fix: untracking a signal that is not tracked is
 undefined behaviour

---
 src/solver/history.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver/history.cpp b/src/solver/history.cpp
index e431206..eabad84 100644
--- a/src/solver/history.cpp
+++ b/src/solver/history.cpp
@@ -41,7 +41,8 @@ void History::untrack(const Signal& sig)
     pooya_debug_verify(empty(), "untrack should be called before the history is updated!");
 
     auto vsig = std::dynamic_pointer_cast<ValueSignalImpl>(sig->shared_from_this());
-    if (vsig) _signals.erase(std::find(_signals.begin(), _signals.end(), vsig));
+    auto it   = std::find(_signals.begin(), _signals.end(), vsig);
+    if (it != _signals.end()) _signals.erase(it);
 }
 
 void History::update(uint k, double t)
-- 
2.43.0


From cd8488be767c9d7e593b2f63bd71c80b09785cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:24 +0000
Subject: [PATCH 11/28] fix: export_csv writes rows that were never recorded

---
 src/solver/history.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/solver/history.cpp b/src/solver/history.cpp
index eabad84..f74d928 100644
--- a/src/solver/history.cpp
+++ b/src/solver/history.cpp
@@ -177,8 +177,7 @@ void History::export_csv(const std::string& filename)
     ofs << "\n";
 
     // values
-    auto n = time().size();
-    for (int k = 0; k < n; k++)
+    for (uint k = 0; k < nrows(); k++)
     {
         ofs << time()(k);
         for (const auto& h : *this)
-- 
2.43.0


From 71cd21ba11e8d3abc59145d8ff9607223983fb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:24 +0000
Subject: [PATCH 12/28] fix: try_at throws on a nested miss and treats any
 signal as a bus

---
 src/signal/bus.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/signal/bus.hpp b/src/signal/bus.hpp
index 1f0d88f..41a8cd3 100644
--- a/src/signal/bus.hpp
+++ b/src/signal/bus.hpp
@@ -130,9 +130,9 @@ public:
             return it->second;
         }
 
-        BusImpl* bus = static_cast<BusImpl*>(&it->second.impl());
+        BusImpl* bus = dynamic_cast<BusImpl*>(&it->second.impl());
         if (!bus) return std::nullopt;
-        return bus->at(label.substr(pos + 1));
+        return bus->try_at(label.substr(pos + 1));
     }
 
     Signal operator[](std::string_view label) const { return at(label); }
-- 
2.43.0


From 46c1c31ceb60484657fd0e37afb60e2d1407971b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:24 +0000
Subject: [PATCH 13/28] fix: bus.hpp lacks standard headers it needs

---
 src/signal/bus.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/signal/bus.hpp b/src/signal/bus.hpp
index 41a8cd3..55ab859 100644
--- a/src/signal/bus.hpp
+++ b/src/signal/bus.hpp
@@ -18,7 +18,9 @@ OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR
 #ifndef __POOYA_SIGNAL_BUS_HPP__
 #define __POOYA_SIGNAL_BUS_HPP__
 
+#include <algorithm>
 #include <memory>
+#include <optional>
 #include <string>
 #include <vector>
 
-- 
2.43.0


From 8103229e1d926bd399b669bd9d8cfd11141a0ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:24 +0000
Subject: [PATCH 14/28] fix: a rejected reset leaves a typed signal handle
 without a signal

---
 src/signal/signal.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/signal/signal.hpp b/src/signal/signal.hpp
index 1ce7aad..19ab96d 100644
--- a/src/signal/signal.hpp
+++ b/src/signal/signal.hpp
@@ -84,8 +84,8 @@ public:
 
     virtual void reset(const Signal& sig)
     {
-        _ptr = std::dynamic_pointer_cast<Impl>(sig->shared_from_this());
-        fail_if_invalid_signal_type<T>(_ptr.get());
+        fail_if_invalid_signal_type<T>(&sig.impl());
+        _ptr = sig->shared_from_this();
         update_typed_ptr();
     }
 
-- 
2.43.0


From c110e7fd58c48625c24799d0a83e41346bba6f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:24 +0000
Subject: [PATCH 15/28] fix: the first sub-step of a run ignores the maximum
 time step

---
 src/solver/simulator_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/simulator_base.cpp b/src/solver/simulator_base.cpp
index 1c4a1e9..555e244 100644
--- a/src/solver/simulator_base.cpp
+++ b/src/solver/simulator_base.cpp
@@ -193,7 +193,7 @@ void SimulatorBase::run(double t, double min_time_step, double max_time_step)
 
             double new_h;
             double t1         = _t_prev;
-            double t2         = t;
+            double t2         = std::min(t1 + max_time_step, t);
             bool force_accept = false;
             while (t1 < t)
             {
-- 
2.43.0


From 928f20404ae36e7f6b446057dfbe249389a4637e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:02 +0000
Subject: [PATCH 16/28] fix: a rejected derivative signal stays attached to the
 state variable

---
 src/signal/float_signal.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/signal/float_signal.hpp b/src/signal/float_signal.hpp
index 33f9e62..fcd79d1 100644
--- a/src/signal/float_signal.hpp
+++ b/src/signal/float_signal.hpp
@@ -39,8 +39,9 @@ public:
     void set_deriv_signal(const Signal& deriv_sig)
     {
         Signal::fail_if_invalid_signal_type<T>(&deriv_sig.impl());
-        _deriv_sig = std::static_pointer_cast<typename Types<T>::SignalImpl>(deriv_sig->shared_from_this());
-        pooya_verify(_size == _deriv_sig->size(), name().str() + ", " + deriv_sig->name().str() + ": size mismatch!");
+        auto ptr = std::static_pointer_cast<typename Types<T>::SignalImpl>(deriv_sig->shared_from_this());
+        pooya_verify(_size == ptr->size(), name().str() + ", " + deriv_sig->name().str() + ": size mismatch!");
+        _deriv_sig = std::move(ptr);
     }
 
     typename Types<T>::SignalImpl* deriv_signal() const { return _deriv_sig.get(); }
-- 
2.43.0


From 8a5127be5411cdcbdb0c558c532a150e1d94027b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:24 +0000
Subject: [PATCH 17/28] fix: shrink_to_fit leaves rows that were never recorded
 when called before the first record

---
 src/solver/history.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/solver/history.cpp b/src/solver/history.cpp
index f74d928..6d6ef7d 100644
--- a/src/solver/history.cpp
+++ b/src/solver/history.cpp
@@ -129,12 +129,7 @@ void History::update(uint k, double t)
 void History::shrink_to_fit()
 {
     pooya_trace0;
-    const uint nrows = _bottom_row + 1;
-
-    if (nrows >= _time.rows())
-    {
-        return;
-    } // practically, nrows can't be the greater
+    const uint nrows = _bottom_row + 1; // practically, nrows can't be greater than the number of rows
 
     _time.conservativeResize(nrows, Eigen::NoChange);
     for (auto& p : *this)
-- 
2.43.0


From a32a70537b2a39fdb95ab4603b5e8379d4a5e734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:34 +0000
Subject: [PATCH 18/28] fix: a run that fails after some sub-steps resumes from
 the wrong time

The blocks have taken the sub-steps that were completed before the failure; the simulator must continue from the last of
them rather than integrate the same interval again.
---
 src/solver/simulator_base.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/solver/simulator_base.cpp b/src/solver/simulator_base.cpp
index 555e244..45cff5b 100644
--- a/src/solver/simulator_base.cpp
+++ b/src/solver/simulator_base.cpp
@@ -224,6 +224,9 @@ void SimulatorBase::run(double t, double min_time_step, double max_time_step)
                     {
                         reset_with_state_variables(_state_variables);
                         process_model(t1, false, true);
+
+                        // if anything fails from here on, the simulation can go on from this time
+                        _t_prev = t1;
                     }
                 }
                 else
-- 
2.43.0


From a4aa39145bba63539e9224878b60f50544fc933a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:59 +0000
Subject: [PATCH 19/28] fix: a failed initialisation leaves the simulator
 unusable

Initialising again appended the signals to those of the failed attempt, which overran the state vector, and a run was
carried out although no processing order had been found.
---
 src/solver/fast_simulator.cpp | 4 +++-
 src/solver/simulator.cpp      | 6 ++++--
 src/solver/simulator_base.cpp | 7 +++++++
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/solver/fast_simulator.cpp b/src/solver/fast_simulator.cpp
index 4228b10..42cf3d5 100644
--- a/src/solver/fast_simulator.cpp
+++ b/src/solver/fast_simulator.cpp
@@ -45,8 +45,9 @@ void FastSimulator::init(double t0)
     pooya_trace("t0: " + std::to_string(t0));
 
     SimulatorBase::init(t0);
+    _initialized = false; // until the model is evaluated
 
-    pooya_debug_verify0(_processing_order.empty());
+    _processing_order.clear();
 
     _model._mark_unprocessed();
 
@@ -119,6 +120,7 @@ void FastSimulator::init(double t0)
     for (auto& sig : value_signals_) sig->clear();
 
     process_model(t0, true, true);
+    _initialized = true;
 }
 
 } // namespace pooya
diff --git a/src/solver/simulator.cpp b/src/solver/simulator.cpp
index dab1fce..28ed8c3 100644
--- a/src/solver/simulator.cpp
+++ b/src/solver/simulator.cpp
@@ -134,11 +134,12 @@ void Simulator::init(double t0)
     pooya_trace("t0: " + std::to_string(t0));
 
     SimulatorBase::init(t0);
+    _initialized = false; // until the model is evaluated
 
     if (_reuse_order)
     {
-        pooya_debug_verify0(_processing_order1.empty());
-        pooya_debug_verify0(_processing_order2.empty());
+        _processing_order1.clear();
+        _processing_order2.clear();
 
         uint num_blocks     = 0;
         auto enum_blocks_cb = [&](Block& /*c*/, uint32_t /*level*/) -> bool
@@ -163,6 +164,7 @@ void Simulator::init(double t0)
     }
 
     process_model(t0, true, true);
+    _initialized = true;
 }
 
 } // namespace pooya
diff --git a/src/solver/simulator_base.cpp b/src/solver/simulator_base.cpp
index 45cff5b..e288b1d 100644
--- a/src/solver/simulator_base.cpp
+++ b/src/solver/simulator_base.cpp
@@ -34,6 +34,13 @@ void SimulatorBase::init(double t0)
 {
     pooya_trace("t0: " + std::to_string(t0));
 
+    // nothing must be left of an earlier initialization, e.g. one that has failed
+    value_signals_.clear();
+    scalar_state_signals_.clear();
+#ifdef POOYA_ARRAY_SIGNAL
+    array_state_signals_.clear();
+#endif // POOYA_ARRAY_SIGNAL
+
     std::size_t state_variables_size{0};
 
     std::unordered_set<ValueSignalImpl*> value_signals;
-- 
2.43.0


From 29331554e88a540f6309ba42fead663dfc8f0269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:14 +0000
Subject: [PATCH 20/28] fix: a state that is not a number makes the adaptive
 step depend on memory addresses

---
 src/solver/rkf45.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver/rkf45.cpp b/src/solver/rkf45.cpp
index 328cf79..530e94b 100644
--- a/src/solver/rkf45.cpp
+++ b/src/solver/rkf45.cpp
@@ -43,7 +43,8 @@ void Rkf45::step(StepperCallback callback, double t0, const Array& v0, double t1
     _ZT = v0 + (33440. / 282150) * _K1 + (146432. / 282150) * _K3 + (142805. / 282150) * _K4 - (50787. / 282150) * _K5 +
           (10260. / 282150) * _K6;
 
-    double max_abs = (v1 - _ZT).cwiseAbs().maxCoeff();
+    // components that are not a number have no error to control, and must not hide that of the others
+    double max_abs = (v1 - _ZT).cwiseAbs().maxCoeff<Eigen::PropagateNumbers>();
     double s4      = max_abs > 0 ? (eps_abs * h) / (2 * max_abs) : 1;
 
     if (s4 < 0.31640625) // 0.31640625 == 0.75 ^ 4
-- 
2.43.0


From e081a2ddd7b0c1b0527fcf7990f3cf35417e0c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:01 +0000
Subject: [PATCH 21/28] fix: integrators that feed each other directly are
 never released

A state variable shared the ownership of its derivative, so that state variables that are the derivatives of each other
(or of themselves) kept each other alive forever. The derivative is owned by whatever uses it.
---
 src/signal/float_signal.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/signal/float_signal.hpp b/src/signal/float_signal.hpp
index fcd79d1..ea72651 100644
--- a/src/signal/float_signal.hpp
+++ b/src/signal/float_signal.hpp
@@ -33,7 +33,7 @@ public:
     using Base = ValueSignalImpl;
     using Ptr  = std::shared_ptr<FloatSignalImplT<T>>;
 
-    typename Types<T>::SignalImpl* state_variable() const { return _deriv_sig.get(); }
+    typename Types<T>::SignalImpl* state_variable() const { return deriv_signal(); }
     std::size_t size() const { return _size; }
 
     void set_deriv_signal(const Signal& deriv_sig)
@@ -41,14 +41,15 @@ public:
         Signal::fail_if_invalid_signal_type<T>(&deriv_sig.impl());
         auto ptr = std::static_pointer_cast<typename Types<T>::SignalImpl>(deriv_sig->shared_from_this());
         pooya_verify(_size == ptr->size(), name().str() + ", " + deriv_sig->name().str() + ": size mismatch!");
-        _deriv_sig = std::move(ptr);
+        _deriv_sig = ptr;
     }
 
-    typename Types<T>::SignalImpl* deriv_signal() const { return _deriv_sig.get(); }
+    typename Types<T>::SignalImpl* deriv_signal() const { return _deriv_sig.lock().get(); }
 
 protected:
-    std::shared_ptr<typename Types<T>::SignalImpl> _deriv_sig{
-        nullptr}; // the derivative signal if this is a state variable, nullptr otherwise
+    // the derivative signal if this is a state variable, empty otherwise; it is not owned, as state variables may be
+    // the derivatives of each other (or of themselves)
+    std::weak_ptr<typename Types<T>::SignalImpl> _deriv_sig;
     const std::size_t _size;
 
     FloatSignalImplT(std::size_t size, std::string_view name) : Base(name), _size(size) {}
-- 
2.43.0


From 1f5957af4b68b52818a18d5ee048f0b71d2e4a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:03 +0000
Subject: [PATCH 22/28] fix: gp-ios.hpp can be included in more than one
 translation unit

---
 src/misc/gp-ios.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/misc/gp-ios.hpp b/src/misc/gp-ios.hpp
index 4a2d058..3cc7dbb 100644
--- a/src/misc/gp-ios.hpp
+++ b/src/misc/gp-ios.hpp
@@ -21,7 +21,7 @@ public:
 };
 
 template<>
-std::string Gnuplot::file1d(const Eigen::MatrixXd& arg, const std::string& filename)
+inline std::string Gnuplot::file1d(const Eigen::MatrixXd& arg, const std::string& filename)
 {
     return file1d(pooya::Array{arg.reshaped()}, filename);
 }
-- 
2.43.0


From 8764d349c91b5ee79e68bec261cba5e927c4d31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:03 +0000
Subject: [PATCH 23/28] fix: arrays can be columns of what is plotted (pairs,
 tuples)

---
 src/misc/gp-ios.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/misc/gp-ios.hpp b/src/misc/gp-ios.hpp
index 3cc7dbb..6d48ed8 100644
--- a/src/misc/gp-ios.hpp
+++ b/src/misc/gp-ios.hpp
@@ -13,7 +13,10 @@ template<>
 class ArrayTraits<pooya::Array>
 {
 public:
-    static constexpr int depth = 1;
+    typedef typename pooya::Array::value_type value_type;
+    static constexpr bool is_container      = true;
+    static constexpr bool allow_auto_unwrap = false;
+    static constexpr int depth              = 1;
 
     typedef IteratorRange<typename pooya::Array::const_iterator, typename pooya::Array::value_type> range_type;
 
-- 
2.43.0


From 2d87cba8110dd19b07ee4c01df86fb46a3821872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:12 +0000
Subject: [PATCH 24/28] fix: py_ss AddSub and MulDiv do not overwrite an
 initial array

---
 misc/py_ss/blocks.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/misc/py_ss/blocks.py b/misc/py_ss/blocks.py
index 593e668..dcbf144 100644
--- a/misc/py_ss/blocks.py
+++ b/misc/py_ss/blocks.py
@@ -207,9 +207,9 @@ class AddSub(Base):
         ret = self._initial
         for operation, v in zip(self._operations, x):
             if operation == '+':
-                ret += v
+                ret = ret + v
             elif operation == '-':
-                ret -= v
+                ret = ret - v
         return [ret]
 
 class MulDiv(Base):
@@ -223,9 +223,9 @@ class MulDiv(Base):
         ret = self._initial
         for operation, v in zip(self._operations, x):
             if operation == '*':
-                ret *= v
+                ret = ret * v
             elif operation == '/':
-                ret /= v
+                ret = ret / v
         return [ret]
 
 class Integrator(Base):
-- 
2.43.0


From e4fb86d06a9b7f8582af208d9c344b8ca61b67c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:02 +0000
Subject: [PATCH 25/28] fix: py_ss Delay keeps the sample its oldest values are
 interpolated from

---
 misc/py_ss/blocks.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/misc/py_ss/blocks.py b/misc/py_ss/blocks.py
index dcbf144..2d18d4c 100644
--- a/misc/py_ss/blocks.py
+++ b/misc/py_ss/blocks.py
@@ -285,6 +285,8 @@ class Delay(Base):
             for k, v in enumerate(self._t):
                 if v >= t1:
                     break
+            # keep the sample before t1 too, values at t1 are interpolated from it
+            k = max(k - 1, 0)
             self._t = self._t[k:]
             self._x = self._x[k:]
 
-- 
2.43.0


From 9f050830dfd4ac361f73086068d3643ebb9ca429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:20 +0000
Subject: [PATCH 26/28] fix: py_ss errors in the body of a with statement are
 not lost

---
 misc/py_ss/blocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/py_ss/blocks.py b/misc/py_ss/blocks.py
index 2d18d4c..eb29010 100644
--- a/misc/py_ss/blocks.py
+++ b/misc/py_ss/blocks.py
@@ -367,7 +367,7 @@ class Submodel(Base):
     def __exit__(self, type, value, traceback):
         assert Submodel._current_submodels[-1] == self
         del Submodel._current_submodels[-1]
-        return True
+        return False
 
     def add_component(self, component):
         self._components.append(component)
-- 
2.43.0


From beefbcdb54a69866856bcaba66b8cfa5b49dd290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:33 +0000
Subject: [PATCH 27/28] fix: py_ss a refused block is not part of the model

---
 misc/py_ss/blocks.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/misc/py_ss/blocks.py b/misc/py_ss/blocks.py
index eb29010..ece8b92 100644
--- a/misc/py_ss/blocks.py
+++ b/misc/py_ss/blocks.py
@@ -42,7 +42,6 @@ class Base:
         if parent:
             if parent._name:
                 self._name = parent._name + '.' + self._name
-            parent.add_component(self)
 
             iports = [parent.auto_signal_name(False) if p == '-'
                       else parent.make_signal_name(p) for p in iports]
@@ -53,10 +52,14 @@ class Base:
         self._oports = oports
 
         if kwargs.get('register_oports', True):
-            for port in oports:
-                assert port not in self._all_oports, 'Port ' + port \
-                    + ' already exists in oports: {}'.format(self._all_oports)
-                self._all_oports.append(port)
+            for k, port in enumerate(oports):
+                assert port not in self._all_oports and port not in oports[:k], \
+                    'Port ' + port + ' already exists in oports: {}'.format(self._all_oports)
+            self._all_oports.extend(oports)
+
+        # a refused block is not part of the model
+        if parent:
+            parent.add_component(self)
 
         for port in iports:
             if port not in self._all_iports:
-- 
2.43.0


From 419b542021c2bf33c51c7a4e1783913dda573986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:52 +0000
Subject: [PATCH 28/28] fix: py_ss signals that are numpy integers are recorded

---
 misc/py_ss/helper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/misc/py_ss/helper.py b/misc/py_ss/helper.py
index f77b328..5d843a4 100644
--- a/misc/py_ss/helper.py
+++ b/misc/py_ss/helper.py
@@ -106,13 +106,13 @@ def run(model, T, inputs_cb=lambda t, x: {}, parameters={}, stepper=solver.rk4):
             history['t'] = []
             for k, v in y.items():
                 if k not in parameters and k[0] != '-' \
-                    and isinstance(v, (int, float, np.ndarray)):
+                    and isinstance(v, (int, float, np.generic, np.ndarray)):
                     history[k] = []
 
         history['t'].append(t)
         for k, v in y.items():
             if k not in parameters and k[0] != '-' \
-                    and isinstance(v, (int, float, np.ndarray)):
+                    and isinstance(v, (int, float, np.generic, np.ndarray)):
                 history[k].append(v)
 
     if states:
-- 
2.43.0

