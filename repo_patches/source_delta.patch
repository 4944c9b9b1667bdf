From 414be11aec45e122d13ad286411984990e0a0655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:50 +0000
Subject: [PATCH 01/44] fix: closest-object lookup in the time-sorted buffer
 decremented begin()

GetIteratorClosest compared against --begin(), which is undefined and with
one or two stored objects made it return the wrong (not the closest) object.
---
 .../include/msf_core/msf_sortedContainer.h    | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/msf_core/include/msf_core/msf_sortedContainer.h b/msf_core/include/msf_core/msf_sortedContainer.h
index fc0bd83..ae4ca9f 100644
--- a/msf_core/include/msf_core/msf_sortedContainer.h
+++ b/msf_core/include/msf_core/msf_sortedContainer.h
@@ -166,7 +166,11 @@ class SortedContainer {
   inline typename ListT::iterator GetIteratorClosestBefore(
       const double& statetime) {
     typename ListT::iterator it = stateList.lower_bound(statetime);
-    --it;
+    // As for GetClosestBefore, the first element is returned if there is none
+    // before the requested time.
+    if (it != stateList.begin()) {
+      --it;
+    }
     return it;
   }
 
@@ -195,20 +199,17 @@ class SortedContainer {
     }
 
     // If not, find the closest one.
-    typename ListT::iterator tauMinus = GetIteratorClosestBefore(statetime);
     typename ListT::iterator tauPlus = GetIteratorClosestAfter(statetime);
 
     typename ListT::iterator it_end = GetIteratorEnd();
 
-    // If we were asking for some iterator before or at the time at begin()
-    // tauMinus will be one element before begin(), so the best we can do is
-    // to return begin(), which would be closest in that case.
-    if (tauMinus == GetIteratorBeforeBegin()) {
-      return GetIteratorBegin();
-    }
-    if (tauMinus == it_end) {
+    // If we were asking for some iterator before begin(), there is no element
+    // before the requested time (begin() must not be decremented), so begin()
+    // is the closest one.
+    if (tauPlus == GetIteratorBegin()) {
       return tauPlus;
     }
+    typename ListT::iterator tauMinus = GetIteratorClosestBefore(statetime);
     if (tauPlus == it_end) {
       return tauMinus;
     }
-- 
2.43.0


From 0eaac5cdb720dbaa67e2a59aa4523926f16fe656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:59 +0000
Subject: [PATCH 02/44] fix: make the core process noise matrix symmetric

CalcQCore set only one half of eight off-diagonal pairs, which made every
propagated covariance asymmetric.
---
 .../msf_core/implementation/calcQCore.h       | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/msf_core/include/msf_core/implementation/calcQCore.h b/msf_core/include/msf_core/implementation/calcQCore.h
index 0bc5b2d..78fa9db 100644
--- a/msf_core/include/msf_core/implementation/calcQCore.h
+++ b/msf_core/include/msf_core/implementation/calcQCore.h
@@ -718,5 +718,30 @@ void CalcQCore(const double dt, const Eigen::Quaternion<double> & q,
       * (-1.0 / 2.0);
   Qd(idxstartcorr_b_a + 2, idxstartcorr_b_a + 2) = dt * t400;
 
+  // The generated code above leaves out one half of these symmetric pairs, or
+  // some of its terms.
+  Qd(idxstartcorr_p + 0, idxstartcorr_v + 1) =
+      Qd(idxstartcorr_v + 1, idxstartcorr_p + 0);
+  Qd(idxstartcorr_v + 0, idxstartcorr_p + 1) =
+      Qd(idxstartcorr_p + 1, idxstartcorr_v + 0);
+  Qd(idxstartcorr_v + 0, idxstartcorr_v + 1) =
+      Qd(idxstartcorr_v + 1, idxstartcorr_v + 0);
+  Qd(idxstartcorr_p + 0, idxstartcorr_q + 1) =
+      Qd(idxstartcorr_q + 1, idxstartcorr_p + 0);
+  Qd(idxstartcorr_v + 0, idxstartcorr_q + 1) =
+      Qd(idxstartcorr_q + 1, idxstartcorr_v + 0);
+  Qd(idxstartcorr_v + 0, idxstartcorr_b_w + 1) =
+      Qd(idxstartcorr_b_w + 1, idxstartcorr_v + 0);
+  Qd(idxstartcorr_q + 0, idxstartcorr_p + 1) =
+      Qd(idxstartcorr_p + 1, idxstartcorr_q + 0);
+  Qd(idxstartcorr_q + 0, idxstartcorr_v + 1) =
+      Qd(idxstartcorr_v + 1, idxstartcorr_q + 0);
+  Qd(idxstartcorr_q + 0, idxstartcorr_q + 1) =
+      Qd(idxstartcorr_q + 1, idxstartcorr_q + 0);
+  Qd(idxstartcorr_b_w + 0, idxstartcorr_v + 1) =
+      Qd(idxstartcorr_v + 1, idxstartcorr_b_w + 0);
+  Qd(idxstartcorr_b_w + 0, idxstartcorr_q + 1) =
+      Qd(idxstartcorr_q + 1, idxstartcorr_b_w + 0);
+
 }
 #endif  // CALCQ_H_
-- 
2.43.0


From fa07ff1722d4a843a85e20a9cfa1dfaf5f863558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:12 +0000
Subject: [PATCH 03/44] fix: quaternion integration used powers 1,2,4,8 in the
 exponential series

The series for the matrix exponential squared its term in every iteration
instead of multiplying by the base, so the third and fourth order terms were
wrong.
---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 7742cdf..947af9a 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -362,10 +362,11 @@ void MSF_Core<EKFState_T>::PropagateState(shared_ptr<EKFState_T>& state_old,
   Matrix4 MatExp;
   MatExp.setIdentity();
   OmegaMean *= 0.5 * dt;
+  Matrix4 OmegaPower = OmegaMean;
   for (int i = 1; i < 5; i++) {  // Can be made fourth order or less to save cycles.
     div *= i;
-    MatExp = MatExp + OmegaMean / div;
-    OmegaMean *= OmegaMean;
+    MatExp = MatExp + OmegaPower / div;
+    OmegaPower = OmegaPower * OmegaMean;
   }
 
   // First oder quat integration matrix.
-- 
2.43.0


From a01c70518ebbb53223d62e68c3c979ab484e475b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:57 +0000
Subject: [PATCH 04/44] fix: symmetrising the covariance read entries it had
 already overwritten

P = 0.5 * (P + P.transpose()) aliases; without eval() the initial core
covariance and the updated covariances stayed asymmetric.
---
 msf_core/include/msf_core/implementation/msf_core_inl.h     | 2 +-
 .../include/msf_core/implementation/msf_measurement_inl.h   | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 947af9a..ba75faf 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -85,7 +85,7 @@ void MSF_Core<EKFState_T>::SetPCore(
             -0.0002, -0.0002, -0.0004, -0.0001, 0.0003, 0.0001, -0.0001, -0.0000, 0.0000, 0.0000, 0.0000, 0.0000, 0.0000, 0.0010, 0.0000,
             -0.0000, 0.0000, -0.0001, 0.0000, 0.0000, -0.0001, -0.0000, -0.0000, -0.0000, 0.0000, 0.0000, -0.0000, 0.0000, 0.0000, 0.0001;
 
-  P_core = 0.5 * (P_core + P_core.transpose());
+  P_core = 0.5 * (P_core + P_core.transpose()).eval();
   P.template block<coreErrorStates, coreErrorStates>(0, 0) = P_core;
 }
 
diff --git a/msf_core/include/msf_core/implementation/msf_measurement_inl.h b/msf_core/include/msf_core/implementation/msf_measurement_inl.h
index 70bf1b0..6ed64c0 100644
--- a/msf_core/include/msf_core/implementation/msf_measurement_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_measurement_inl.h
@@ -74,7 +74,7 @@ void MSF_MeasurementBase<EKFState_T>::CalculateAndApplyCorrection(
   P = KH * P * KH.transpose() + K * R_delayed * K.transpose();
 
   // Make sure P stays symmetric.
-  P = 0.5 * (P + P.transpose());
+  P = 0.5 * (P + P.transpose()).eval();
 
   core.ApplyCorrection(state, correction_);
 }
@@ -118,7 +118,7 @@ void MSF_MeasurementBase<EKFState_T>::CalculateAndApplyCorrection(
   P = KH * P * KH.transpose() + K * R_delayed * K.transpose();
 
   // Make sure P stays symmetric.
-  P = 0.5 * (P + P.transpose());
+  P = 0.5 * (P + P.transpose()).eval();
 
   core.ApplyCorrection(state, correction_);
 }
@@ -192,7 +192,7 @@ void MSF_MeasurementBase<EKFState_T>::CalculateAndApplyCorrectionRelative(
 
   // Make sure P stays symmetric.
   // TODO (slynen): EV, set Evalues<eps to zero, then reconstruct.
-  state_new->P = 0.5 * (state_new->P + state_new->P.transpose());
+  state_new->P = 0.5 * (state_new->P + state_new->P.transpose()).eval();
 
   core.ApplyCorrection(state_new, correction_);
 }
-- 
2.43.0


From 1b1cc81392e64aa7ee07058f137e921ca9b042a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:15 +0000
Subject: [PATCH 05/44] fix: iterator to the last IMU state dangled after the
 buffer was rebuilt

Re-timing the last state after a large time gap, and clearing the buffers
before the first externally propagated state, removed the state it_last_IMU
points to; the next IMU message dereferenced it.
---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index ba75faf..9f082e1 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -167,6 +167,7 @@ void MSF_Core<EKFState_T>::ProcessIMU(
           2, "large time-gap re-initializing to last state\n");
       typename StateBuffer_T::Ptr_T tmp = stateBuffer_.UpdateTime(
           lastState->time, currentState->time);
+      it_last_IMU = stateBuffer_.GetIteratorAtValue(tmp);
       time_P_propagated = currentState->time;
       return;  // // early abort // // (if timegap too big)
     }
@@ -254,6 +255,8 @@ void MSF_Core<EKFState_T>::ProcessExternallyPropagatedState(
     if (fabs(currentState->time - lastState->time) > 5) {
       typename StateBuffer_T::Ptr_T tmp = stateBuffer_.UpdateTime(
           lastState->time, currentState->time);
+      it_last_IMU = stateBuffer_.GetIteratorAtValue(tmp);
+      time_P_propagated = tmp->time;
       MSF_WARN_STREAM_THROTTLE(
           2, "large time-gap re-initializing to last state: "
           << msf_core::timehuman(tmp->time));
@@ -295,7 +298,7 @@ void MSF_Core<EKFState_T>::ProcessExternallyPropagatedState(
     }
   }
 
-  stateBuffer_.Insert(currentState);
+  it_last_IMU = stateBuffer_.Insert(currentState);
   PropagatePOneStep();
   predictionMade_ = true;
   usercalc_.PublishStateAfterPropagation(currentState);
-- 
2.43.0


From 85b442886a5d29143cda6f420696c3c90dc02406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:15 +0000
Subject: [PATCH 06/44] fix: IMU messages not newer than the last one corrupted
 the covariance

A repeated or slightly out of order IMU message was inserted as a state with
an all-zero covariance, on which later measurements were then processed.
---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 9f082e1..f39ad90 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -133,6 +133,15 @@ void MSF_Core<EKFState_T>::ProcessIMU(
     return;
   }
 
+  // Nothing to propagate if this message is not newer than the last one. Before
+  // the first prediction a large gap re-initializes to the new time below.
+  const double time_since_last = currentState->time - lastState->time;
+  if (time_since_last <= 0 && (predictionMade_ || time_since_last >= -0.1)) {
+    MSF_WARN_STREAM_THROTTLE(
+        2, __FUNCTION__<<" IMU message is not newer than the last one, ignoring");
+    return;
+  }
+
   static int seq = 0;
   // Get inputs.
   currentState->a_m = linear_acceleration;
-- 
2.43.0


From ad9e597d1982adeffef77365de39e7ebb93bbd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:15 +0000
Subject: [PATCH 07/44] fix: a measurement with an already known time stamp was
 lost

The measurement buffer is keyed by time, so a second measurement with the same
stamp was discarded and the first one was applied a second time instead.
---
 .../include/msf_core/implementation/msf_core_inl.h     | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index f39ad90..f74ca9c 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -21,7 +21,9 @@
 
 #include <chrono>
 #include <thread>
+#include <cmath>
 #include <deque>
+#include <limits>
 #include <numeric>
 #include <string>
 #include <vector>
@@ -638,6 +640,14 @@ void MSF_Core<EKFState_T>::AddMeasurement(
     return;  // Reject measurements too far in the past.
   }
 
+  // The buffer is keyed by time: keep a measurement with an already known time
+  // stamp directly behind the known one.
+  while (MeasurementBuffer_.GetValueAt(measurement->time)
+      != MeasurementBuffer_.GetInvalid()) {
+    measurement->time = std::nextafter(
+        measurement->time, std::numeric_limits<double>::max());
+  }
+
   // Add this measurement to the buffer and get an iterator to it.
   typename measurementBufferT::iterator_T it_meas =
       MeasurementBuffer_.Insert(measurement);
-- 
2.43.0


From a029e733045bd5b4f5c9eee5d354acbc4853b19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:15 +0000
Subject: [PATCH 08/44] fix: buffer cleanup could invalidate the measurement
 being processed

GetClosestState removed old states and measurements while AddMeasurement was
iterating over both buffers.
---
 .../include/msf_core/implementation/msf_core_inl.h  | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index f74ca9c..9703154 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -735,6 +735,13 @@ void MSF_Core<EKFState_T>::AddMeasurement(
   PropPToState(latestState);  // Get the latest covariance.
 
   usercalc_.PublishStateAfterUpdate(latestState);
+
+  static int janitorRun = 0;
+  if (janitorRun++ > 100) {
+    // Remove very old states and measurements from the buffers.
+    CleanUpBuffers();
+    janitorRun = 0;
+  }
 }
 
 template<typename EKFState_T>
@@ -841,12 +848,6 @@ shared_ptr<EKFState_T> MSF_Core<EKFState_T>::GetClosestState(double tstamp) {
     return stateBuffer_.GetInvalid();  // Early abort.
   }
 
-  static int janitorRun = 0;
-  if (janitorRun++ > 100) {
-    // Remove very old states and measurements from the buffers.
-    CleanUpBuffers();
-    janitorRun = 0;
-  }
   return closestState;
 }
 
-- 
2.43.0


From 56a4dd04d41d15fe8254ef216f9dcf1a9a209899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:15 +0000
Subject: [PATCH 09/44] fix: late measurement left stale states and covariances
 behind

When a late measurement is rejected as outlier the means are repropagated but
time_P_propagated was not moved back, so later measurements were applied twice
to the covariance. When a later measurement could not be reapplied, the states
following it were not repropagated.
---
 .../msf_core/implementation/msf_core_inl.h    | 28 ++++++++++++-------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 9703154..480e107 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -674,18 +674,26 @@ void MSF_Core<EKFState_T>::AddMeasurement(
     if (state->time <= 0) {
       MSF_ERROR_STREAM_THROTTLE(
           1, __FUNCTION__<< " GetClosestState returned an invalid state");
-      continue;
+      // If an earlier measurement was applied, we still have to propagate on
+      // from there.
+      if (!appliedOne)
+        continue;
+    } else {
+      // The states from here on are propagated anew, even if the measurement
+      // gets rejected.
+      if (time_P_propagated > state->time)
+        time_P_propagated = state->time;
+
+      msf_timing::DebugTimer timer_meas_apply("Apply measurement");
+      // Calls back core::ApplyCorrection(), which sets time_P_propagated to meas
+      // time.
+      it_meas->second->Apply(state, *this);
+      timer_meas_apply.Stop();
+      // Make sure to propagate to next measurement or up to now if no more
+      // measurements. Propagate from current state.
+      it_curr = stateBuffer_.GetIteratorAtValue(state);
     }
 
-    msf_timing::DebugTimer timer_meas_apply("Apply measurement");
-    // Calls back core::ApplyCorrection(), which sets time_P_propagated to meas
-    // time.
-    it_meas->second->Apply(state, *this);
-    timer_meas_apply.Stop();
-    // Make sure to propagate to next measurement or up to now if no more
-    // measurements. Propagate from current state.
-    it_curr = stateBuffer_.GetIteratorAtValue(state);
-
     typename StateBuffer_T::iterator_T it_end;
     typename measurementBufferT::iterator_T it_nextmeas = it_meas;
     ++it_nextmeas;  // The next measurement in the list.
-- 
2.43.0


From 43def5d5092d08d7aef9ed9095f382f6fba5f824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:15 +0000
Subject: [PATCH 10/44] fix: search for the previous measurement of a sensor
 ran off the buffer

GetPreviousMeasurement decremented begin(), dereferenced end() and stopped at
the first measurement of any sensor.
---
 .../msf_core/implementation/msf_core_inl.h     | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 480e107..1dcf182 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -758,22 +758,18 @@ MSF_Core<EKFState_T>::GetPreviousMeasurement(
     double time, int sensorID) {
   typename measurementBufferT::iterator_T it = MeasurementBuffer_
       .GetIteratorAtValue(time);
-  if (it->second->time != time) {
+  if (it == MeasurementBuffer_.GetIteratorEnd() || it->second->time != time) {
     MSF_WARN_STREAM("GetPreviousMeasurement: Error invalid iterator at value");
     return MeasurementBuffer_.GetInvalid();
   }
-  --it;
-  typename measurementBufferT::iterator_T itbeforebegin = MeasurementBuffer_
-      .GetIteratorBeforeBegin();
-  while (it != itbeforebegin
-      && (it->second->time != time && it->second->sensorID_ != sensorID)) {
+  while (it != MeasurementBuffer_.GetIteratorBegin()) {
     --it;
+    if (it->second->sensorID_ == sensorID) {
+      return it->second;
+    }
   }
-  if (it == itbeforebegin) {
-    MSF_WARN_STREAM("GetPreviousMeasurement: Error hit before begin");
-    return MeasurementBuffer_.GetInvalid();
-  }
-  return it->second;
+  MSF_WARN_STREAM("GetPreviousMeasurement: Error hit before begin");
+  return MeasurementBuffer_.GetInvalid();
 }
 
 template<typename EKFState_T>
-- 
2.43.0


From a1c204f4c529b479a003d3195690a5e4c78fca1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:48 +0000
Subject: [PATCH 11/44] fix: external state messages not newer than the last
 one corrupted the estimate

A state inserted behind the newest one never got a covariance; the next
measurement near it was applied with zero covariance. Treat such messages like
IMU messages: ignore small reversals, reset on large ones.
---
 .../msf_core/implementation/msf_core_inl.h     | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 1dcf182..52efe5c 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -248,6 +248,24 @@ void MSF_Core<EKFState_T>::ProcessExternallyPropagatedState(
   shared_ptr<EKFState_T> currentState(new EKFState_T);
   currentState->time = msg_stamp;
 
+  // Check if this message is really after the last one. A state inserted behind
+  // the newest one would never get a covariance.
+  if (predictionMade_ && currentState->time - lastState->time < -0.01) {
+    initialized_ = false;
+    predictionMade_ = false;
+    MSF_ERROR_STREAM(
+        __FUNCTION__<<"latest state message was out of order by a too large "
+        "amount, resetting EKF: last-state-time: "
+        << msf_core::timehuman(lastState->time) << " current-state-time: "
+        << msf_core::timehuman(currentState->time));
+    return;
+  }
+  if (predictionMade_ && currentState->time <= lastState->time) {
+    MSF_WARN_STREAM_THROTTLE(
+        2, __FUNCTION__<<" state message is not newer than the last one, ignoring");
+    return;
+  }
+
   // Get inputs.
   currentState->a_m = linear_acceleration;
   currentState->w_m = angular_velocity;
-- 
2.43.0


From 22e8fba0b95861c4545d90fa7e6b108bc29f3d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:48 +0000
Subject: [PATCH 12/44] fix: non-numeric externally propagated states were
 taken over unchecked

The check looked at the new, still zero state instead of the received one.
---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 52efe5c..6ceac29 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -293,9 +293,9 @@ void MSF_Core<EKFState_T>::ProcessExternallyPropagatedState(
     }
   }
 
-  bool isnumeric = CheckForNumeric(
-      currentState->template Get<StateDefinition_T::p>(),
-      "before prediction p");
+  bool isnumeric = CheckForNumeric(p, "before prediction p")
+      && CheckForNumeric(v, "before prediction v")
+      && CheckForNumeric(q.coeffs(), "before prediction q");
 
   // State propagation is made externally, so we read the actual state.
   if (is_already_propagated && isnumeric) {
-- 
2.43.0


From 5cbb15641185c5b531ae1034d97891079c190a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:48 +0000
Subject: [PATCH 13/44] fix: short external state messages were read out of
 bounds

---
 msf_core/include/msf_core/msf_IMUHandler_ROS.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/msf_core/include/msf_core/msf_IMUHandler_ROS.h b/msf_core/include/msf_core/msf_IMUHandler_ROS.h
index eb27c89..bd1a3e8 100644
--- a/msf_core/include/msf_core/msf_IMUHandler_ROS.h
+++ b/msf_core/include/msf_core/msf_IMUHandler_ROS.h
@@ -61,6 +61,13 @@ class IMUHandler_ROS : public IMUHandler<EKFState_T> {
   virtual ~IMUHandler_ROS() { }
 
   void StateCallback(const sensor_fusion_comm::ExtEkfConstPtr & msg) {
+    if (msg->state.size() < HLI_EKF_STATE_SIZE) {
+      MSF_WARN_STREAM_THROTTLE(
+          2, "External state message has " << msg->state.size() << " instead of "
+          << HLI_EKF_STATE_SIZE << " entries, ignoring it.");
+      return;
+    }
+
     static_cast<MSF_SensorManagerROS<EKFState_T>&>(this->manager_)
         .SetHLControllerStateBuffer(*msg);
 
-- 
2.43.0


From 79107000b7b389f8aa670239dc3b5f67759e1996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:28 +0000
Subject: [PATCH 14/44] fix: a non-numeric state was published after it had
 reset the filter

---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 6ceac29..e4685db 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -204,6 +204,8 @@ void MSF_Core<EKFState_T>::ProcessIMU(
   msf_timing::DebugTimer timer_PropCov("PropCov");
   PropagatePOneStep();
   timer_PropCov.Stop();
+  if (!initialized_)
+    return;  // The filter got reset, the state is not valid.
   usercalc_.PublishStateAfterPropagation(currentState);
 
   // Making sure we have sufficient states to apply measurements to.
@@ -329,6 +331,8 @@ void MSF_Core<EKFState_T>::ProcessExternallyPropagatedState(
 
   it_last_IMU = stateBuffer_.Insert(currentState);
   PropagatePOneStep();
+  if (!initialized_)
+    return;  // The filter got reset, the state is not valid.
   predictionMade_ = true;
   usercalc_.PublishStateAfterPropagation(currentState);
 
-- 
2.43.0


From ff3bb1b09ec7a099ebbefc389338278ef1d494a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:05 +0000
Subject: [PATCH 15/44] fix: late measurement let a later one at the same state
 count twice

Measurements are applied to the closest state within 1 ms. If a later
measurement had already corrected that state, the state was not propagated anew
before both were applied to it again.
---
 .../msf_core/implementation/msf_core_inl.h    | 27 +++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index e4685db..05a972e 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -23,6 +23,7 @@
 #include <thread>
 #include <cmath>
 #include <deque>
+#include <iterator>
 #include <limits>
 #include <numeric>
 #include <string>
@@ -673,6 +674,32 @@ void MSF_Core<EKFState_T>::AddMeasurement(
   // Add this measurement to the buffer and get an iterator to it.
   typename measurementBufferT::iterator_T it_meas =
       MeasurementBuffer_.Insert(measurement);
+
+  // Later measurements may already have been applied to the state closest to
+  // this one. Propagate that state anew then, and apply all its measurements
+  // again, they would be accounted for twice otherwise.
+  typename StateBuffer_T::iterator_T it_state = stateBuffer_.GetIteratorClosest(
+      measurement->time);
+  auto applies_to_state = [&](
+      const typename measurementBufferT::iterator_T& it) {
+    return stateBuffer_.GetIteratorClosest(it->second->time) == it_state
+        && fabs(it_state->second->time - it->second->time) <= 0.001;
+  };
+  typename measurementBufferT::iterator_T it_later = it_meas;
+  ++it_later;
+  if (it_state != stateBuffer_.GetIteratorBegin()
+      && it_later != MeasurementBuffer_.GetIteratorEnd()
+      && applies_to_state(it_meas) && applies_to_state(it_later)) {
+    while (it_meas != MeasurementBuffer_.GetIteratorBegin()
+        && applies_to_state(std::prev(it_meas))) {
+      --it_meas;
+    }
+    typename StateBuffer_T::iterator_T it_before = std::prev(it_state);
+    PropagateState(it_before->second, it_state->second);
+    if (time_P_propagated > it_before->second->time)
+      time_P_propagated = it_before->second->time;
+  }
+
   // Get an iterator the the end of the measurement buffer.
   typename measurementBufferT::iterator_T it_meas_end = MeasurementBuffer_
       .GetIteratorEnd();
-- 
2.43.0


From 5cc6ad125d195a480c9d4d5bf1b68e1420377585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:24 +0000
Subject: [PATCH 16/44] fix: state transitions over several steps were
 multiplied in the wrong order

---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 05a972e..ca60ed5 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -473,7 +473,7 @@ void MSF_Core<EKFState_T>::GetAccumulatedStateTransitionStochasticCloning(
       MSF_Core<EKFState_T>::nErrorStatesAtCompileTime> F_type;
   F = F_type::Identity();
   for (; it != itend; ++it) {
-    F = F * it->second->Fd;
+    F = it->second->Fd * F;
   }
 }
 
-- 
2.43.0


From b496b37a1503ffd36243050bf6b41a0667519bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:55 +0000
Subject: [PATCH 17/44] fix: backward time jump before the first prediction
 left states in the future

---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index ca60ed5..d648038 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -177,9 +177,11 @@ void MSF_Core<EKFState_T>::ProcessIMU(
     if (fabs(currentState->time - lastState->time) > 0.1) {
       MSF_WARN_STREAM_THROTTLE(
           2, "large time-gap re-initializing to last state\n");
-      typename StateBuffer_T::Ptr_T tmp = stateBuffer_.UpdateTime(
-          lastState->time, currentState->time);
-      it_last_IMU = stateBuffer_.GetIteratorAtValue(tmp);
+      // Other states must not be left behind, they would be in the future if the
+      // time jumped backwards.
+      stateBuffer_.Clear();
+      lastState->time = currentState->time;
+      it_last_IMU = stateBuffer_.Insert(lastState);
       time_P_propagated = currentState->time;
       return;  // // early abort // // (if timegap too big)
     }
-- 
2.43.0


From 7d7492c3e86d4297d2a285fc6d18cb197443fa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:43 +0000
Subject: [PATCH 18/44] fix: measurement inside an IMU gap made later
 measurements count twice

---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index d648038..8c17812 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -725,10 +725,12 @@ void MSF_Core<EKFState_T>::AddMeasurement(
     if (state->time <= 0) {
       MSF_ERROR_STREAM_THROTTLE(
           1, __FUNCTION__<< " GetClosestState returned an invalid state");
-      // If an earlier measurement was applied, we still have to propagate on
-      // from there.
+      // The new measurement can't be applied: nothing to be redone, the later
+      // measurements would be accounted for twice.
       if (!appliedOne)
-        continue;
+        return;
+      // An earlier measurement was applied, we still have to propagate on from
+      // there.
     } else {
       // The states from here on are propagated anew, even if the measurement
       // gets rejected.
-- 
2.43.0


From 29e979bad3b0d76319ed71bd295651936219044d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:36 +0000
Subject: [PATCH 19/44] fix: derivative of the pose measurement with respect to
 p_wv

z_p = C_wv (p - p_wv + C_q p_ic) L, so the block is -C_wv L, as for p with
the opposite sign, and not -I.
---
 .../msf_updates/pose_sensor_handler/pose_measurement.h        | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
index a64e726..e251d9e 100644
--- a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
+++ b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
@@ -247,12 +247,10 @@ struct PoseMeasurement : public PoseMeasurementBase {
             (C_wv * C_q * state.Get<StateLIdx>()(0)).eval();  //p_ic
 
 
-    // TODO (slynen): Check scale commenting
     H.block<3, 3>(0, kIdxstartcorr_pwv) =
         driftwvposfix ?
             Eigen::Matrix<double, 3, 3>::Zero() :
-            (-Eigen::Matrix<double, 3, 3>::Identity()
-            /* * state.Get<StateLIdx>()(0)*/).eval();  //p_wv
+            (-C_wv * state.Get<StateLIdx>()(0)).eval();  //p_wv
 
     // Attitude.
     H.block<3, 3>(3, kIdxstartcorr_q) = C_ci;  // q
-- 
2.43.0


From 2d528718cd3184404670d5d98f5fd8e08f91d15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:36 +0000
Subject: [PATCH 20/44] fix: unused yaw pseudo-measurement must not enter the
 outlier test

Its row in H is zero, but its residual, the yaw of q_wv, was weighted with a
variance of 1e-6 in the Mahalanobis distance: with any yaw in q_wv every
measurement was rejected however consistent it was.
---
 .../pose_sensor_handler/pose_measurement.h        | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
index e251d9e..28c2cf3 100644
--- a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
+++ b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
@@ -312,11 +312,9 @@ struct PoseMeasurement : public PoseMeasurementBase {
           * state.Get<StateDefinition_T::q>()
           * state.Get<StateQicIdx>()).conjugate() * z_q_;
       r_old.block<3, 1>(3, 0) = q_err.vec() / q_err.w() * 2;
-      // Vision world yaw drift.
-      q_err = state.Get<StateQwvIdx>();
-
-      r_old(6, 0) = -2 * (q_err.w() * q_err.z() + q_err.x() * q_err.y())
-          / (1 - 2 * (q_err.y() * q_err.y() + q_err.z() * q_err.z()));
+      // Vision world yaw drift: its row in H is not used (see CalculateH), so it
+      // must not contribute to the residual which enters the outlier test.
+      r_old(6, 0) = 0;
 
       if (!CheckForNumeric(r_old, "r_old")) {
         MSF_ERROR_STREAM("r_old: "<<r_old);
@@ -425,11 +423,8 @@ struct PoseMeasurement : public PoseMeasurementBase {
       q_err = diffprobatt.conjugate() * diffmeasatt;
 
       r_new.block<3, 1>(3, 0) = q_err.vec() / q_err.w() * 2;
-      // Vision world yaw drift.
-      q_err = state_new.Get<StateQwvIdx>();
-
-      r_new(6, 0) = -2 * (q_err.w() * q_err.z() + q_err.x() * q_err.y())
-          / (1 - 2 * (q_err.y() * q_err.y() + q_err.z() * q_err.z()));
+      // Vision world yaw drift: its row in H is not used (see CalculateH).
+      r_new(6, 0) = 0;
 
       if (!CheckForNumeric(r_old, "r_old")) {
         MSF_ERROR_STREAM("r_old: "<<r_old);
-- 
2.43.0


From 9a5f0e8948f5c0e216fd345c44a155d1daa1b264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:36 +0000
Subject: [PATCH 21/44] fix: sign and frame of the relative attitude residual

The residual had the opposite sign of what H_old and H_new describe, so a
relative pose measurement pushed the attitude away from the measured one, and
the two attitude errors were subtracted in different frames. The check for
numeric values also looked at an uninitialised vector.
---
 .../pose_sensor_handler/pose_measurement.h           | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
index 28c2cf3..31ce4a9 100644
--- a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
+++ b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
@@ -374,7 +374,7 @@ struct PoseMeasurement : public PoseMeasurementBase {
       Eigen::Matrix<double, nMeasurements,
           msf_core::MSF_Core<EKFState_T>::nErrorStatesAtCompileTime> H_new,
           H_old;
-      Eigen::Matrix<double, nMeasurements, 1> r_new, r_old;
+      Eigen::Matrix<double, nMeasurements, 1> r_new;
 
       CalculateH(state_nonconst_old, H_old);
 
@@ -420,14 +420,18 @@ struct PoseMeasurement : public PoseMeasurementBase {
       Eigen::Quaternion<double> diffmeasatt = z_q_.conjugate() * prevmeas->z_q_;
 
       Eigen::Quaternion<double> q_err;
-      q_err = diffprobatt.conjugate() * diffmeasatt;
+      // Error of the new attitude minus error of the old attitude, the latter
+      // rotated to the frame of the new one.
+      q_err = diffprobatt * diffmeasatt.conjugate();
+      H_old.block(3, 0, 3, H_old.cols()) = (diffprobatt.toRotationMatrix()
+          * H_old.block(3, 0, 3, H_old.cols())).eval();
 
       r_new.block<3, 1>(3, 0) = q_err.vec() / q_err.w() * 2;
       // Vision world yaw drift: its row in H is not used (see CalculateH).
       r_new(6, 0) = 0;
 
-      if (!CheckForNumeric(r_old, "r_old")) {
-        MSF_ERROR_STREAM("r_old: "<<r_old);
+      if (!CheckForNumeric(r_new, "r_new")) {
+        MSF_ERROR_STREAM("r_new: "<<r_new);
         MSF_WARN_STREAM(
             "state: "<<const_cast<EKFState_T&>(state_new). ToEigenVector().transpose());
       }
-- 
2.43.0


From 207ef9178858a22a1b7e7dd26157c5535bec6e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:36 +0000
Subject: [PATCH 22/44] fix: invert the pose of a camera-to-world sensor with a
 fixed covariance too

With pose_measurement_world_sensor false and pose_use_fixed_covariance true
the measurement was used as if it were the sensor pose in the world.
---
 .../pose_sensor_handler/pose_measurement.h    | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
index 31ce4a9..c060d06 100644
--- a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
+++ b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
@@ -93,23 +93,23 @@ struct PoseMeasurement : public PoseMeasurementBase {
       R_.block<3, 3>(0, 3) = Eigen::Matrix<double, 3, 3>::Zero();
       R_.block<3, 3>(3, 0) = Eigen::Matrix<double, 3, 3>::Zero();
       R_(6, 6) = 1e-6;  // q_wv yaw-measurement noise
+    }
 
-      /*************************************************************************************/
-      // Use this if your pose sensor is ethzasl_ptam (www.ros.org/wiki/ethzasl_ptam)
-      // ethzasl_ptam publishes the camera pose as the world seen from the camera.
-      if (!measurement_world_sensor_) {
-        Eigen::Matrix<double, 3, 3> C_zq = z_q_.toRotationMatrix();
-        z_q_ = z_q_.conjugate();
-        z_p_ = -C_zq.transpose() * z_p_;
+    /*************************************************************************************/
+    // Use this if your pose sensor is ethzasl_ptam (www.ros.org/wiki/ethzasl_ptam)
+    // ethzasl_ptam publishes the camera pose as the world seen from the camera.
+    if (!measurement_world_sensor_) {
+      Eigen::Matrix<double, 3, 3> C_zq = z_q_.toRotationMatrix();
+      z_q_ = z_q_.conjugate();
+      z_p_ = -C_zq.transpose() * z_p_;
 
-        Eigen::Matrix<double, 6, 6> C_cov(Eigen::Matrix<double, 6, 6>::Zero());
-        C_cov.block<3, 3>(0, 0) = C_zq;
-        C_cov.block<3, 3>(3, 3) = C_zq;
+      Eigen::Matrix<double, 6, 6> C_cov(Eigen::Matrix<double, 6, 6>::Zero());
+      C_cov.block<3, 3>(0, 0) = C_zq;
+      C_cov.block<3, 3>(3, 3) = C_zq;
 
-        R_.block<6, 6>(0, 0) = C_cov.transpose() * R_.block<6, 6>(0, 0) * C_cov;
-      }
-      /*************************************************************************************/
+      R_.block<6, 6>(0, 0) = C_cov.transpose() * R_.block<6, 6>(0, 0) * C_cov;
     }
+    /*************************************************************************************/
   }
  public:
   EIGEN_MAKE_ALIGNED_OPERATOR_NEW
-- 
2.43.0


From 8049e43c97ca5fc53a0fb32d4ced3d6c15c6c625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:53 +0000
Subject: [PATCH 23/44] fix: linearise the angle and distance measurements at
 the tracked point

The derivatives were taken at the position of the IMU and with the transposed
attitude, ignoring the lever arm p_ip which the predicted measurement contains.
---
 .../spherical_measurement.h                          | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h b/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
index 3d127f5..751e8ac 100644
--- a/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
+++ b/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
@@ -121,9 +121,11 @@ struct AngleMeasurement : public AngleMeasurementBase {
       state_in->ClearCrossCov<StateDefinition_T::p_ip>();
 
     Eigen::Matrix<double, 3, 3> C_q = state.Get<StateDefinition_T::q>()
-        .conjugate().toRotationMatrix();
-    Eigen::Matrix<double, 3, 1> p_ = state.Get<StateDefinition_T::p>();
+        .toRotationMatrix();
     Eigen::Matrix<double, 3, 1> p_ip = state.Get<StateDefinition_T::p_ip>();
+    // Position of the tracked point.
+    Eigen::Matrix<double, 3, 1> p_ = state.Get<StateDefinition_T::p>()
+        + C_q * p_ip;
     Eigen::Matrix<double, 2, 3> dz_dp;
     dz_dp(0, 0) = (p_(0, 0) * p_(2, 0) * 1.0
         / sqrt(p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0)))
@@ -389,7 +391,7 @@ struct DistanceMeasurement : public DistanceMeasurementBase {
 
     // Get rotation matrices.
     Eigen::Matrix<double, 3, 3> C_q = state.Get<StateDefinition_T::q>()
-        .conjugate().toRotationMatrix();
+        .toRotationMatrix();
 
     // Preprocess for elements in H matrix.
     // Get indices of states in error vector.
@@ -410,8 +412,10 @@ struct DistanceMeasurement : public DistanceMeasurementBase {
     if (fixed_p_pos_imu)
       state_in->ClearCrossCov<StateDefinition_T::p_ip>();
 
-    Eigen::Matrix<double, 3, 1> p_ = state.Get<StateDefinition_T::p>();
     Eigen::Matrix<double, 3, 1> p_ip = state.Get<StateDefinition_T::p_ip>();
+    // Position of the tracked point.
+    Eigen::Matrix<double, 3, 1> p_ = state.Get<StateDefinition_T::p>()
+        + C_q * p_ip;
     Eigen::Matrix<double, 1, 3> dz_dp;
     dz_dp(0, 0) = p_(0, 0) * 1.0
         / sqrt(p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0) + p_(2, 0) * p_(2, 0));
-- 
2.43.0


From 930ff3de2df8fa8384f2d8063bf9ba66d785a622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:53 +0000
Subject: [PATCH 24/44] fix: fixed_p_ip did not keep the angle and distance
 updates from moving p_ip

---
 .../spherical_position_sensor/spherical_measurement.h       | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h b/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
index 751e8ac..e3fa475 100644
--- a/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
+++ b/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
@@ -243,7 +243,8 @@ struct AngleMeasurement : public AngleMeasurementBase {
         / (p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0));
     H.block<2, 3>(0, idxstartcorr_p_) = dz_dp;
     H.block<2, 3>(0, idxstartcorr_q_) = dz_dq;
-    H.block<2, 3>(0, idxstartcorr_p_pi_) = dz_dp_ip;
+    if (!fixed_p_pos_imu)
+      H.block<2, 3>(0, idxstartcorr_p_pi_) = dz_dp_ip;
 
   }
 
@@ -463,7 +464,8 @@ struct DistanceMeasurement : public DistanceMeasurementBase {
         / sqrt(p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0) + p_(2, 0) * p_(2, 0));
     H.block<1, 3>(0, idxstartcorr_p_) = dz_dp;
     H.block<1, 3>(0, idxstartcorr_q_) = dz_dq;
-    H.block<1, 3>(0, idxstartcorr_p_pi_) = dz_dp_ip;
+    if (!fixed_p_pos_imu)
+      H.block<1, 3>(0, idxstartcorr_p_pi_) = dz_dp_ip;
   }
 
   /**
-- 
2.43.0


From fccbdbd0956c1fc5e6ff0f2b435dd46d71c3c6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:53 +0000
Subject: [PATCH 25/44] fix: azimuth of a point on the negative x axis

With y == 0 and x < 0 neither of the two corrections of atan applied and the
predicted azimuth was 0 instead of pi.
---
 .../spherical_position_sensor/spherical_measurement.h    | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h b/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
index e3fa475..3481fd0 100644
--- a/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
+++ b/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
@@ -275,14 +275,7 @@ struct AngleMeasurement : public AngleMeasurementBase {
           z_carth(0, 0) * z_carth(0, 0) + z_carth(1, 0) * z_carth(1, 0)
               + z_carth(2, 0) * z_carth(2, 0));
       double theta_old = acos(z_carth(2, 0) / radius_old);
-      double phi_old = atan(z_carth(1, 0) / z_carth(0, 0));
-      // Handle all exeptions that occur when transforming in spherical coordinates.
-      if (z_carth(0, 0) < 0 && z_carth(1, 0) < 0) {
-        phi_old -= M_PI;
-      }
-      if (z_carth(0, 0) < 0 && z_carth(1, 0) > 0) {
-        phi_old += M_PI;
-      }
+      double phi_old = atan2(z_carth(1, 0), z_carth(0, 0));
 
       msf_core::Vector2 z_spherical;
       z_spherical << theta_old, phi_old;
-- 
2.43.0


From 15e05241116f601a717fc9af23aaa029e865e5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:49 +0000
Subject: [PATCH 26/44] fix: the spherical position filter never listened to
 the IMU

Its sensor manager created no IMU handler, so the node received neither IMU
messages nor externally propagated states and never propagated.
---
 msf_updates/src/spherical_msf/spherical_sensormanager.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/msf_updates/src/spherical_msf/spherical_sensormanager.h b/msf_updates/src/spherical_msf/spherical_sensormanager.h
index 5e1c586..52808af 100644
--- a/msf_updates/src/spherical_msf/spherical_sensormanager.h
+++ b/msf_updates/src/spherical_msf/spherical_sensormanager.h
@@ -21,6 +21,7 @@
 
 #include <msf_core/msf_core.h>
 #include <msf_core/msf_sensormanagerROS.h>
+#include <msf_core/msf_IMUHandler_ROS.h>
 #include "msf_statedef.hpp"
 #include <msf_updates/spherical_position_sensor/spherical_sensorhandler.h>
 #include <msf_updates/spherical_position_sensor/spherical_measurement.h>
@@ -45,6 +46,10 @@ class SensorManager : public msf_core::MSF_SensorManagerROS<
 
   SensorManager(
       ros::NodeHandle pnh = ros::NodeHandle("~/spherical_position_sensor")) {
+    imu_handler_.reset(
+        new msf_core::IMUHandler_ROS<msf_updates::EKFState>(*this, "msf_core",
+                                                            "imu_handler"));
+
     angle_handler_.reset(
         new AngleSensorHandler_T(*this, "", "spherical_position_sensor"));
     AddHandler(angle_handler_);
@@ -65,6 +70,7 @@ class SensorManager : public msf_core::MSF_SensorManagerROS<
   }
 
  private:
+  boost::shared_ptr<msf_core::IMUHandler_ROS<msf_updates::EKFState> > imu_handler_;
   boost::shared_ptr<AngleSensorHandler_T> angle_handler_;
   boost::shared_ptr<DistanceSensorHandler_T> distance_handler_;
 
-- 
2.43.0


From 20be548e72c910aed7899e6256c79ba31d3a9082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:24 +0000
Subject: [PATCH 27/44] fix: filter initialised from an uninitialised pressure
 reading

When the filter is initialised before the first pressure measurement the
pressure bias was computed from uninitialised memory.
---
 .../implementation/pressure_sensorhandler.hpp                   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/msf_updates/include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp b/msf_updates/include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp
index 6077b4d..9bbdaec 100644
--- a/msf_updates/include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp
+++ b/msf_updates/include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp
@@ -46,6 +46,8 @@ PressureSensorHandler::PressureSensorHandler(
       enable_tcp_no_delay ? ros::TransportHints().tcpNoDelay()
                           : ros::TransportHints());
 
+  z_p_.setZero();
+  z_average_p.setZero();
   memset(heightbuff, 0, sizeof(double) * heightbuffsize);
 
 }
-- 
2.43.0


From 3b6f70b3832db0bc954120bf6b7a50b2ae9bdff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:24 +0000
Subject: [PATCH 28/44] fix: memcpy between overlapping parts of the pressure
 buffer

---
 .../implementation/pressure_sensorhandler.hpp                   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msf_updates/include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp b/msf_updates/include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp
index 9bbdaec..70c35b2 100644
--- a/msf_updates/include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp
+++ b/msf_updates/include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp
@@ -81,7 +81,7 @@ void PressureSensorHandler::MeasurementCallback(
   z_p_ = meas->z_p_;  // Store this for the init procedure.
 
   // Make averaged measurement.
-  memcpy(heightbuff, heightbuff + 1, sizeof(double) * (heightbuffsize - 1));
+  memmove(heightbuff, heightbuff + 1, sizeof(double) * (heightbuffsize - 1));
   heightbuff[heightbuffsize - 1] = meas->z_p_(0);
   double sum = 0;
   for (int k = 0; k < heightbuffsize; ++k)
-- 
2.43.0


From 7d7087aa27c4daae609fe6f02722f568972808b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:24 +0000
Subject: [PATCH 29/44] fix: pose_delay had no effect in the pose-pressure
 filter

The delay was never passed to the pose handler, and a refused height
initialisation kept the noise settings of the same request from taking effect.
---
 .../pose_pressure_msf/pose_pressure_sensormanager.h    | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
index 2a18ac1..f1220bb 100644
--- a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
+++ b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
@@ -86,6 +86,11 @@ class PosePressureSensorManager : public msf_core::MSF_SensorManagerROS<
    */
   virtual void Config(Config_T &config, uint32_t level) {
     config_ = config;
+    // Pass the noise values and the delay to the sensor handlers.
+    pose_handler_->SetNoises(config.pose_noise_meas_p,
+                             config.pose_noise_meas_q);
+    pose_handler_->SetDelay(config.pose_delay);
+    pressure_handler_->SetNoises(config.press_noise_meas_p);
     // Init call with "init filter" checkbox.
     if ((level & msf_updates::SinglePoseSensor_INIT_FILTER)
         && config.core_init_filter == true) {
@@ -105,11 +110,6 @@ class PosePressureSensorManager : public msf_core::MSF_SensorManagerROS<
       Init(scale);
       config.core_set_height = false;
     }
-
-    // Pass the noise values to the sensor handlers.
-    pose_handler_->SetNoises(config.pose_noise_meas_p,
-                             config.pose_noise_meas_q);
-    pressure_handler_->SetNoises(config.press_noise_meas_p);
   }
 
   void Init(double scale) const {
-- 
2.43.0


From 4521895fc554ccf1a2364bfd67c95ebf6260aeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:24 +0000
Subject: [PATCH 30/44] fix: pose_noise_p_wv had no effect in the pose-pressure
 filter

---
 .../src/pose_pressure_msf/pose_pressure_sensormanager.h       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
index f1220bb..4e91eca 100644
--- a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
+++ b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
@@ -208,6 +208,8 @@ class PosePressureSensorManager : public msf_core::MSF_SensorManagerROS<
   virtual void CalculateQAuxiliaryStates(EKFState_T& state, double dt) const {
     const msf_core::Vector3 nqwvv = msf_core::Vector3::Constant(
         config_.pose_noise_q_wv);
+    const msf_core::Vector3 npwvv = msf_core::Vector3::Constant(
+        config_.pose_noise_p_wv);
     const msf_core::Vector3 nqicv = msf_core::Vector3::Constant(
         config_.pose_noise_q_ic);
     const msf_core::Vector3 npicv = msf_core::Vector3::Constant(
@@ -223,6 +225,8 @@ class PosePressureSensorManager : public msf_core::MSF_SensorManagerROS<
         .asDiagonal();
     state.GetQBlock<StateDefinition_T::q_wv>() =
         (dt * nqwvv.cwiseProduct(nqwvv)).asDiagonal();
+    state.GetQBlock<StateDefinition_T::p_wv>() =
+        (dt * npwvv.cwiseProduct(npwvv)).asDiagonal();
     state.GetQBlock<StateDefinition_T::q_ic>() =
         (dt * nqicv.cwiseProduct(nqicv)).asDiagonal();
     state.GetQBlock<StateDefinition_T::p_ic>() =
-- 
2.43.0


From 7bad385671b55fb786afa6d46939d8eebae00f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:35 +0000
Subject: [PATCH 31/44] fix: initial pressure bias ignored the lever arm of the
 camera

The pressure measurement refers to the height of the IMU, not of the camera:
with a lever arm p_ic the first pressure residual was its vertical component.
---
 .../src/pose_pressure_msf/pose_pressure_sensormanager.h   | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
index 4e91eca..bbc84b0 100644
--- a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
+++ b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
@@ -134,11 +134,7 @@ class PosePressureSensorManager : public msf_core::MSF_SensorManagerROS<
     p_vc = pose_handler_->GetPositionMeasurement();
     q_vc = pose_handler_->GetAttitudeMeasurement();
 
-    b_p
-        << pose_handler_->GetPositionMeasurement()(2) / scale
-            - pressure_handler_->GetPressureMeasurement()(0);  /// Pressure drift state
-
-            // Check if we have already input from the measurement sensor.
+    // Check if we have already input from the measurement sensor.
     if (!pose_handler_->ReceivedFirstMeasurement())
       MSF_WARN_STREAM(
           "No measurements received yet to initialize position and attitude - "
@@ -165,6 +161,8 @@ class PosePressureSensorManager : public msf_core::MSF_SensorManagerROS<
     p = q_wv.conjugate().toRotationMatrix() * p_vc / scale
         - q.toRotationMatrix() * p_ic;
 
+    b_p << p(2) - pressure_handler_->GetPressureMeasurement()(0);  /// Pressure drift state
+
     a_m = q.inverse() * g;			/// Initial acceleration.
 
     // Prepare init "measurement".
-- 
2.43.0


From 5590c62de3a5702d3a0795723291e396a66e5a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:57 +0000
Subject: [PATCH 32/44] fix: position_noise_p_ip had no effect in the
 position-pose filter

---
 .../src/position_pose_msf/position_pose_sensormanager.h       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/msf_updates/src/position_pose_msf/position_pose_sensormanager.h b/msf_updates/src/position_pose_msf/position_pose_sensormanager.h
index e285368..5ddf975 100644
--- a/msf_updates/src/position_pose_msf/position_pose_sensormanager.h
+++ b/msf_updates/src/position_pose_msf/position_pose_sensormanager.h
@@ -255,6 +255,8 @@ class PositionPoseSensorManager : public msf_core::MSF_SensorManagerROS<
         config_.pose_noise_q_ic);
     const msf_core::Vector3 npicv = msf_core::Vector3::Constant(
         config_.pose_noise_p_ic);
+    const msf_core::Vector3 npipv = msf_core::Vector3::Constant(
+        config_.position_noise_p_ip);
     const msf_core::Vector1 n_L = msf_core::Vector1::Constant(
         config_.pose_noise_scale);
 
@@ -270,6 +272,8 @@ class PositionPoseSensorManager : public msf_core::MSF_SensorManagerROS<
         (dt * nqicv.cwiseProduct(nqicv)).asDiagonal();
     state.GetQBlock<StateDefinition_T::p_ic>() =
         (dt * npicv.cwiseProduct(npicv)).asDiagonal();
+    state.GetQBlock<StateDefinition_T::p_ip>() =
+        (dt * npipv.cwiseProduct(npipv)).asDiagonal();
   }
 
   virtual void SetStateCovariance(
-- 
2.43.0


From 886240157bb70caf6e047e478efcd35452424de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:57 +0000
Subject: [PATCH 33/44] fix: initialisation by height with a measured height of
 zero

The scale is then zero and the filter was initialised to an infinite position
(or a negative scale, for a height of the opposite sign). Guard it as the
position filter does.
---
 msf_updates/src/pose_msf/pose_sensormanager.h                | 5 +++++
 .../src/pose_pressure_msf/pose_pressure_sensormanager.h      | 5 +++++
 .../src/position_pose_msf/position_pose_sensormanager.h      | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/msf_updates/src/pose_msf/pose_sensormanager.h b/msf_updates/src/pose_msf/pose_sensormanager.h
index d990bd7..05ef32c 100644
--- a/msf_updates/src/pose_msf/pose_sensormanager.h
+++ b/msf_updates/src/pose_msf/pose_sensormanager.h
@@ -152,6 +152,11 @@ class PoseSensorManager : public msf_core::MSF_SensorManagerROS<
   }
 
   void Init(double scale) const {
+    if (scale < 0.001) {
+      MSF_WARN_STREAM("init scale is "<<scale<<" correcting to 1");
+      scale = 1;
+    }
+
     Eigen::Matrix<double, 3, 1> p, v, b_w, b_a, g, w_m, a_m, p_ic, p_vc, p_wv;
     Eigen::Quaternion<double> q, q_wv, q_ic, q_cv;
     msf_core::MSF_Core<EKFState_T>::ErrorStateCov P;
diff --git a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
index bbc84b0..74eab86 100644
--- a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
+++ b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
@@ -113,6 +113,11 @@ class PosePressureSensorManager : public msf_core::MSF_SensorManagerROS<
   }
 
   void Init(double scale) const {
+    if (scale < 0.001) {
+      MSF_WARN_STREAM("init scale is "<<scale<<" correcting to 1");
+      scale = 1;
+    }
+
     Eigen::Matrix<double, 3, 1> p, v, b_w, b_a, g, w_m, a_m, p_ic, p_vc;
     Eigen::Quaternion<double> q, q_wv, q_ic, q_vc;
     Eigen::Matrix<double, 1, 1> b_p;
diff --git a/msf_updates/src/position_pose_msf/position_pose_sensormanager.h b/msf_updates/src/position_pose_msf/position_pose_sensormanager.h
index 5ddf975..d833af5 100644
--- a/msf_updates/src/position_pose_msf/position_pose_sensormanager.h
+++ b/msf_updates/src/position_pose_msf/position_pose_sensormanager.h
@@ -122,6 +122,11 @@ class PositionPoseSensorManager : public msf_core::MSF_SensorManagerROS<
   }
 
   void Init(double scale) const {
+    if (scale < 0.001) {
+      MSF_WARN_STREAM("init scale is "<<scale<<" correcting to 1");
+      scale = 1;
+    }
+
     Eigen::Matrix<double, 3, 1> p, v, b_w, b_a, g, w_m, a_m, p_ic, p_vc, p_wv,
         p_ip, p_pos;
     Eigen::Quaternion<double> q, q_wv, q_ic, q_vc;
-- 
2.43.0


From 6883b64ba1d85c7014b5bc9885edb2163308f52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:12 +0000
Subject: [PATCH 34/44] fix: height correction of the GPS reference was applied
 along the earth axis

AdjustReference is given a correction of the local height, but added it to the
ECEF z coordinate, moving the reference north and by the wrong height.
---
 msf_core/src/lib/gps_conversion.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/msf_core/src/lib/gps_conversion.cc b/msf_core/src/lib/gps_conversion.cc
index c3ea1ec..f4bdc71 100644
--- a/msf_core/src/lib/gps_conversion.cc
+++ b/msf_core/src/lib/gps_conversion.cc
@@ -95,7 +95,9 @@ msf_core::Vector3 GPSConversion::WGS84ToENU(const double latitude,
 void GPSConversion::AdjustReference(const double z_correction) {
 
   MSF_WARN_STREAM("z-ref old: "<< ecef_ref_point_(2));
-  ecef_ref_point_(2) += z_correction;
+  // The correction is along the local vertical.
+  ecef_ref_point_ += ecef_ref_orientation_.conjugate()
+      * msf_core::Vector3(0, 0, z_correction);
   MSF_WARN_STREAM("z-ref new: "<< ecef_ref_point_(2));
 }
 
-- 
2.43.0


From 7129ec1771ceff86dae2a31f8c4419c1823269c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:21 +0000
Subject: [PATCH 35/44] fix: GPS reference was initialised once per process
 instead of once per sensor

A second handler (or a second filter in the process) never got a reference and
used earth-centred coordinates as local position.
---
 .../implementation/position_sensorhandler.hpp            | 9 +++++----
 .../position_sensor_handler/position_sensorhandler.h     | 1 +
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/msf_updates/include/msf_updates/position_sensor_handler/implementation/position_sensorhandler.hpp b/msf_updates/include/msf_updates/position_sensor_handler/implementation/position_sensorhandler.hpp
index 1b08ff1..c48b4d4 100644
--- a/msf_updates/include/msf_updates/position_sensor_handler/implementation/position_sensorhandler.hpp
+++ b/msf_updates/include/msf_updates/position_sensor_handler/implementation/position_sensorhandler.hpp
@@ -30,7 +30,8 @@ PositionSensorHandler<MEASUREMENT_TYPE, MANAGER_TYPE>::PositionSensorHandler(
     : SensorHandler<msf_updates::EKFState>(meas, topic_namespace,
                                            parameternamespace),
       n_zp_(1e-6),
-      delay_(0) {
+      delay_(0),
+      gps_reference_initialized_(false) {
   ros::NodeHandle pnh("~/position_sensor");
   pnh.param("position_use_fixed_covariance", use_fixed_covariance_, false);
   bool enable_tcp_no_delay;
@@ -190,14 +191,14 @@ void PositionSensorHandler<MEASUREMENT_TYPE, MANAGER_TYPE>::MeasurementCallback(
           << " ***");
 
   // Fixed covariance will be set in measurement class -> MakeFromSensorReadingImpl.
-  static bool referenceinit = false;  //TODO (slynen): Dynreconf reset reference.
-  if (!referenceinit) {
+  //TODO (slynen): Dynreconf reset reference.
+  if (!gps_reference_initialized_) {
     gpsConversion_.InitReference(msg->latitude, msg->longitude, msg->altitude);
     MSF_WARN_STREAM(
         "Initialized GPS reference of topic: " << this->topic_namespace_ << "/"
             << subNavSatFix_.getTopic() << " to lat/lon/alt: [" << msg->latitude
             << ", " << msg->longitude << ", " << msg->altitude << "]");
-    referenceinit = true;
+    gps_reference_initialized_ = true;
   }
 
   msf_core::Vector3 ecef = gpsConversion_.WGS84ToECEF(msg->latitude,
diff --git a/msf_updates/include/msf_updates/position_sensor_handler/position_sensorhandler.h b/msf_updates/include/msf_updates/position_sensor_handler/position_sensorhandler.h
index 8ba1970..37d2d12 100644
--- a/msf_updates/include/msf_updates/position_sensor_handler/position_sensorhandler.h
+++ b/msf_updates/include/msf_updates/position_sensor_handler/position_sensorhandler.h
@@ -42,6 +42,7 @@ class PositionSensorHandler : public msf_core::SensorHandler<
   ros::Subscriber subTransformStamped_;
   ros::Subscriber subNavSatFix_;
   msf_core::GPSConversion gpsConversion_;
+  bool gps_reference_initialized_;  ///< Has the GPS reference been set by a first fix.
 
   bool use_fixed_covariance_;  ///< Use fixed covariance set by dynamic reconfigure.
   bool provides_absolute_measurements_;  ///< Does this sensor measure relative or absolute values.
-- 
2.43.0


From ec016db72e8a5c439ecd91260405bddf9d3b4bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:26 +0000
Subject: [PATCH 36/44] fix: attitude correction computed against a zero
 quaternion

Until an external state arrives the buffered external attitude was the
zero quaternion, so the published attitude correction was zero as well.
---
 msf_core/include/msf_core/msf_sensormanagerROS.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/msf_core/include/msf_core/msf_sensormanagerROS.h b/msf_core/include/msf_core/msf_sensormanagerROS.h
index 5a23374..355de6c 100644
--- a/msf_core/include/msf_core/msf_sensormanagerROS.h
+++ b/msf_core/include/msf_core/msf_sensormanagerROS.h
@@ -114,6 +114,7 @@ struct MSF_SensorManagerROS : public msf_core::MSF_SensorManager<EKFState_T> {
         "cov_core_aux", 10);
 
     hl_state_buf_.state.resize(HLI_EKF_STATE_SIZE, 0);
+    hl_state_buf_.state[6] = 1;  // Identity attitude until the external state arrives.
 
     // Print published/subscribed topics.
     ros::V_string topics;
-- 
2.43.0


From 19067ccfce50f366025ae917137d4631acdb4679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:08 +0000
Subject: [PATCH 37/44] fix: numeric check passed every dynamic-size matrix

---
 msf_core/include/msf_core/eigen_utils.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/msf_core/include/msf_core/eigen_utils.h b/msf_core/include/msf_core/eigen_utils.h
index 5c343ca..eb6d1c7 100644
--- a/msf_core/include/msf_core/eigen_utils.h
+++ b/msf_core/include/msf_core/eigen_utils.h
@@ -113,10 +113,8 @@ Eigen::Quaternion<typename Derived::Scalar> QuaternionFromSmallAngle(
 template<class D>
 bool CheckForNumeric(const Eigen::MatrixBase<D> & mat,
                      const std::string & info) {
-  enum {
-    rows = Eigen::MatrixBase < D > ::RowsAtCompileTime,
-    cols = Eigen::MatrixBase < D > ::ColsAtCompileTime
-  };
+  const int rows = mat.rows();
+  const int cols = mat.cols();
 
   for (int i = 0; i < rows; ++i) {
     for (int j = 0; j < cols; ++j) {
-- 
2.43.0


From 6b7d855af3abaec8b90792cedf44cbdffa019420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:08 +0000
Subject: [PATCH 38/44] fix: median of a dynamic-size vector read outside the
 vector

---
 msf_core/include/msf_core/msf_tools.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msf_core/include/msf_core/msf_tools.h b/msf_core/include/msf_core/msf_tools.h
index ffb1141..318e81b 100644
--- a/msf_core/include/msf_core/msf_tools.h
+++ b/msf_core/include/msf_core/msf_tools.h
@@ -35,9 +35,9 @@ typename Eigen::MatrixBase<D>::Scalar GetMedian(
       // Copy so we don't sort the original vector.
       Eigen::MatrixBase<D>::ColsAtCompileTime> m = data;
 
-  if (Eigen::MatrixBase<D>::SizeAtCompileTime) {
+  if (m.size()) {
     double * begin = m.data();
-    double * end = m.data() + m.SizeAtCompileTime;
+    double * end = m.data() + m.size();
     double * middle = begin + static_cast<int>(std::floor((end - begin) / 2));
     std::nth_element(begin, middle, end);
     return *middle;
-- 
2.43.0


From f1cb401a7b634b9fe4c809eb1e2fb485a46116e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:08 +0000
Subject: [PATCH 39/44] fix: accumulator maximum wrong while all samples are
 negative

---
 msf_timing/include/msf_timing/Timer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msf_timing/include/msf_timing/Timer.h b/msf_timing/include/msf_timing/Timer.h
index 85049b9..e7e7ec1 100755
--- a/msf_timing/include/msf_timing/Timer.h
+++ b/msf_timing/include/msf_timing/Timer.h
@@ -38,7 +38,7 @@ class Accumulator {
         window_sum_(0),
         sum_(0),
         min_(std::numeric_limits < T > ::max()),
-        max_(std::numeric_limits < T > ::min()) {
+        max_(std::numeric_limits < T > ::lowest()) {
   }
 
   void Add(T sample) {
-- 
2.43.0


From 1e72a4392042785fa54f25e8b383b39b9a8a2134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:08 +0000
Subject: [PATCH 40/44] fix: const access to a state's noise block did not
 compile

---
 msf_core/include/msf_core/implementation/msf_state_inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msf_core/include/msf_core/implementation/msf_state_inl.h b/msf_core/include/msf_core/implementation/msf_state_inl.h
index 9309d20..df0343d 100644
--- a/msf_core/include/msf_core/implementation/msf_state_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_state_inl.h
@@ -105,7 +105,7 @@ template<int INDEX>
 inline const typename msf_tmp::StripReference<
     typename boost::fusion::result_of::at_c<stateVector_T, INDEX>::type>::result_t::Q_T&
 GenericState_T<stateVector_T, StateDefinition_T>::GetQBlock() const {
-  return boost::fusion::at < boost::mpl::int_<INDEX> > (statevars).Q_;
+  return boost::fusion::at < boost::mpl::int_<INDEX> > (statevars).Q;
 }
 
 /// Assembles a PoseWithCovarianceStamped message from the state
-- 
2.43.0


From 001a3842ed71c55be44f27566ecb8898347a7b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:08 +0000
Subject: [PATCH 41/44] fix: reading or clearing an initial value did not
 compile

---
 msf_core/include/msf_core/msf_measurement.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msf_core/include/msf_core/msf_measurement.h b/msf_core/include/msf_core/msf_measurement.h
index c089072..90a00c6 100644
--- a/msf_core/include/msf_core/msf_measurement.h
+++ b/msf_core/include/msf_core/msf_measurement.h
@@ -213,7 +213,7 @@ class MSF_InitMeasurement : public MSF_MeasurementBase<EKFState_T> {
    */
   template<int INDEX>
   void ResetStateInitValue() {
-    InitState.template get<INDEX>().hasResetValue = false;
+    InitState.template GetStateVariable<INDEX>().hasResetValue = false;
   }
 
   /**
@@ -224,7 +224,7 @@ class MSF_InitMeasurement : public MSF_MeasurementBase<EKFState_T> {
   const typename msf_tmp::StripReference<typename boost::fusion::result_of::at_c
   <StateSequence_T, INDEX >::type>::result_t::value_t&
   GetStateInitValue() const {
-    return InitState.template get<INDEX>();
+    return InitState.template Get<INDEX>();
   }
 
   virtual void Apply(shared_ptr<EKFState_T> stateWithCovariance, MSF_Core<EKFState_T>& core);
-- 
2.43.0


From 95496fea785d6b53c530222095bbe70d9f3e2ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:40 +0000
Subject: [PATCH 42/44] fix: measurement with a non-numeric time corrupted the
 measurement buffer

---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 8c17812..b103953 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -648,6 +648,13 @@ void MSF_Core<EKFState_T>::AddMeasurement(
   if (!initialized_ || !predictionMade_)
     return;
 
+  // A time that is not a number (e.g. from the configured delay) has no place
+  // in the buffers, which are ordered by time.
+  if (!std::isfinite(measurement->time)) {
+    MSF_WARN_STREAM("Rejected a measurement with a non-numeric time.");
+    return;
+  }
+
   // Check if the measurement is in the future where we don't have imu
   // measurements yet.
   if (measurement->time > stateBuffer_.GetLast()->time) {
-- 
2.43.0


From 8e88f3cf75e7fd403de479e8dcf173fbad53294d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:08 +0000
Subject: [PATCH 43/44] fix: states were never removed while no measurement
 arrives

The buffers were only trimmed from AddMeasurement, so that memory grew without
bound when the filter runs on IMU data alone (e.g. after loss of the sensor).
---
 .../include/msf_core/implementation/msf_core_inl.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index b103953..8998832 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -219,7 +219,12 @@ void MSF_Core<EKFState_T>::ProcessIMU(
     // Check if we can apply some pending measurement.
     HandlePendingMeasurements();
   }
-  seq++;
+
+  // Remove very old states also if no measurements arrive.
+  if (++seq >= 100) {
+    CleanUpBuffers();
+    seq = 0;
+  }
 
 }
 
@@ -345,6 +350,13 @@ void MSF_Core<EKFState_T>::ProcessExternallyPropagatedState(
 
   // Check if we can apply some pending measurement.
   HandlePendingMeasurements();
+
+  // Remove very old states also if no measurements arrive.
+  static int seq = 0;
+  if (++seq >= 100) {
+    CleanUpBuffers();
+    seq = 0;
+  }
 }
 
 template<typename EKFState_T>
-- 
2.43.0


From 6ffb72e26fe9dbf30f47ab3b8cf014cc0f12973a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:08 +0000
Subject: [PATCH 44/44] fix: relative pose updates changed the covariance of
 the earlier state

---
 .../msf_updates/pose_sensor_handler/pose_measurement.h   | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
index c060d06..f02c4f8 100644
--- a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
+++ b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
@@ -357,16 +357,21 @@ struct PoseMeasurement : public PoseMeasurementBase {
       }
 
       // Get state at previous measurement.
-      shared_ptr<EKFState_T> state_nonconst_old = core.GetClosestState(
+      shared_ptr<EKFState_T> state_buffer_old = core.GetClosestState(
           prevmeas->time);
 
-      if (state_nonconst_old->time == msf_core::constants::INVALID_TIME) {
+      if (state_buffer_old->time == msf_core::constants::INVALID_TIME) {
         MSF_WARN_STREAM(
             "The state at the previous measurement is invalid. Could "
             "not apply measurement");
         return;
       }
 
+      // Work on a copy: CalculateH clears the cross covariances of fixed
+      // states, which must not change the past of the filter.
+      shared_ptr<EKFState_T> state_nonconst_old(
+          new EKFState_T(*state_buffer_old));
+
       // Get a const ref, so we can read core states.
       const EKFState_T& state_new = *state_nonconst_new;
       const EKFState_T& state_old = *state_nonconst_old;
-- 
2.43.0

