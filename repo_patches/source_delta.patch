From 68ce3b521f1b18f7a152cda8e4ca237500ef2ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:27 +0000
Subject: [PATCH 01/15] fix: CC-Dubins and HC-RS no longer subtract clothoids
 that do not lie on one another

When start and goal state share their virtual start/goal state, the remaining
clothoid got the wrong sharpness sign (or the two clothoids were different),
so that the path missed the goal and left the curvature bound.
---
 .../steering_functions/hc_cc_state_space/paths.hpp  |  3 +++
 src/hc_cc_state_space/cc_dubins_state_space.cpp     |  4 ++--
 .../hc_reeds_shepp_state_space.cpp                  |  4 ++--
 src/hc_cc_state_space/paths.cpp                     | 13 +++++++++++--
 4 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/steering_functions/hc_cc_state_space/paths.hpp b/include/steering_functions/hc_cc_state_space/paths.hpp
index be2daec..363a6b5 100644
--- a/include/steering_functions/hc_cc_state_space/paths.hpp
+++ b/include/steering_functions/hc_cc_state_space/paths.hpp
@@ -153,6 +153,9 @@ bool state_equal(const State &state1, const State &state2);
 /** \brief Reverses a control */
 void reverse_control(Control &control);
 
+/** \brief Checks whether two controls lie on the same clothoid, i.e. whether they can be subtracted */
+bool control_subtractable(const Control &control1, const Control &control2);
+
 /** \brief Subtracts control2 from control1 */
 Control subtract_control(const Control &control1, const Control &control2);
 
diff --git a/src/hc_cc_state_space/cc_dubins_state_space.cpp b/src/hc_cc_state_space/cc_dubins_state_space.cpp
index 92d8044..5b93935 100644
--- a/src/hc_cc_state_space/cc_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/cc_dubins_state_space.cpp
@@ -111,7 +111,7 @@ double CC_Dubins_State_Space::get_distance(const State &state1, const State &sta
       State end_state = end_state_control.first;
       Control end_control = end_state_control.second;
       // check if start and goal state are equal
-      if (state_equal(start_state, end_state))
+      if (state_equal(start_state, end_state) && control_subtractable(start_control, end_control))
       {
         Control control = subtract_control(start_control, end_control);
         distances.push_back(fabs(control.delta_s));
@@ -164,7 +164,7 @@ vector<Control> CC_Dubins_State_Space::get_controls(const State &state1, const S
       Control end_control = end_state_control.second;
       vector<Control> cc_dubins_controls;
       // check if start and goal state are equal
-      if (state_equal(start_state, end_state))
+      if (state_equal(start_state, end_state) && control_subtractable(start_control, end_control))
       {
         Control control = subtract_control(start_control, end_control);
         cc_dubins_controls.push_back(control);
diff --git a/src/hc_cc_state_space/hc_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hc_reeds_shepp_state_space.cpp
index 16c16db..a82a6af 100644
--- a/src/hc_cc_state_space/hc_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hc_reeds_shepp_state_space.cpp
@@ -106,7 +106,7 @@ double HC_Reeds_Shepp_State_Space::get_distance(const State &state1, const State
       State end_state = end_state_control.first;
       Control end_control = end_state_control.second;
       // check if start and goal state are equal
-      if (state_equal(start_state, end_state))
+      if (state_equal(start_state, end_state) && control_subtractable(start_control, end_control))
       {
         Control control = subtract_control(start_control, end_control);
         distances.push_back(fabs(control.delta_s));
@@ -159,7 +159,7 @@ vector<Control> HC_Reeds_Shepp_State_Space::get_controls(const State &state1, co
       Control end_control = end_state_control.second;
       vector<Control> hc_rs_controls;
       // check if start and goal state are equal
-      if (state_equal(start_state, end_state))
+      if (state_equal(start_state, end_state) && control_subtractable(start_control, end_control))
       {
         Control control = subtract_control(start_control, end_control);
         hc_rs_controls.push_back(control);
diff --git a/src/hc_cc_state_space/paths.cpp b/src/hc_cc_state_space/paths.cpp
index 8cb2ff8..ea7b3e1 100644
--- a/src/hc_cc_state_space/paths.cpp
+++ b/src/hc_cc_state_space/paths.cpp
@@ -278,13 +278,22 @@ void reverse_control(Control &control)
   control.sigma = -control.sigma;
 }
 
+bool control_subtractable(const Control &control1, const Control &control2)
+{
+  return control1.delta_s == 0.0 || control2.delta_s == 0.0 ||
+         sgn(control1.delta_s) * control1.sigma == sgn(control2.delta_s) * control2.sigma;
+}
+
 Control subtract_control(const Control &control1, const Control &control2)
 {
-  assert(sgn(control1.delta_s) * control1.sigma == sgn(control2.delta_s) * control2.sigma);
+  assert(control_subtractable(control1, control2));
+  // curvature rate with respect to the signed arc length, a zero-length control does not define it
+  double signed_sigma = (control1.delta_s != 0.0) ? sgn(control1.delta_s) * control1.sigma :
+                                                    sgn(control2.delta_s) * control2.sigma;
   Control control;
   control.delta_s = control1.delta_s - control2.delta_s;
   control.kappa = control1.kappa;
-  control.sigma = control1.sigma;
+  control.sigma = sgn(control.delta_s) * signed_sigma;
   return control;
 }
 
-- 
2.43.0


From e4ef4b0f4624f443b3866a4120b2c25afd6253e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:27 +0000
Subject: [PATCH 02/15] fix: states that differ in curvature only are not
 connected by an empty path

configuration_equal ignored the curvature, and the empty path of the pm/pm
spaces was returned with zero curvature.
---
 src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp      | 1 +
 src/hc_cc_state_space/configuration.cpp                  | 2 ++
 src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp | 1 +
 3 files changed, 4 insertions(+)

diff --git a/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp b/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp
index 34672e9..61ff392 100644
--- a/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp
@@ -667,6 +667,7 @@ vector<Control> CCpmpm_Dubins_State_Space::get_controls(const State &state1, con
   {
     case cc_dubins::E:
       empty_controls(cc_dubins_controls);
+      cc_dubins_controls.back().kappa = p->start.kappa;
       break;
     case cc_dubins::T:
       rs_turn_controls(*(p->cstart), p->end, true, cc_dubins_controls);
diff --git a/src/hc_cc_state_space/configuration.cpp b/src/hc_cc_state_space/configuration.cpp
index 6dd7a4f..8dfcaa1 100644
--- a/src/hc_cc_state_space/configuration.cpp
+++ b/src/hc_cc_state_space/configuration.cpp
@@ -68,6 +68,8 @@ bool configuration_aligned(const Configuration &q1, const Configuration &q2)
 
 bool configuration_equal(const Configuration &q1, const Configuration &q2)
 {
+  if (fabs(q2.kappa - q1.kappa) > get_epsilon())
+    return false;
   if (fabs(q2.theta - q1.theta) > get_epsilon())
     return false;
   if (configuration_distance(q1, q2) > get_epsilon())
diff --git a/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
index d76f184..007a70d 100644
--- a/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
@@ -1845,6 +1845,7 @@ vector<Control> HCpmpm_Reeds_Shepp_State_Space::get_controls(const State &state1
   {
     case hc_cc_rs::E:
       empty_controls(hc_rs_controls);
+      hc_rs_controls.back().kappa = p->start.kappa;
       break;
     case hc_cc_rs::T:
       rs_turn_controls(*(p->cstart), p->end, true, hc_rs_controls);
-- 
2.43.0


From 671bccac8b1ae5866b9cb367a21cc794a36aeeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:27 +0000
Subject: [PATCH 03/15] fix: a single turn only connects circles with the same
 turning direction

Case T was taken for concentric circles of opposite turning directions, so that
the path missed the goal or ended with the opposite curvature.
---
 src/hc_cc_state_space/cc0pm_dubins_state_space.cpp       | 2 +-
 src/hc_cc_state_space/ccpm0_dubins_state_space.cpp       | 2 +-
 src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp      | 2 +-
 src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp  | 2 +-
 src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp  | 2 +-
 src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp b/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp
index 6f9c270..0309443 100644
--- a/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp
@@ -375,7 +375,7 @@ CC_Dubins_Path *CC0pm_Dubins_State_Space::cc0pm_circles_dubins_path(const HC_CC_
     goto label_end;
   }
   // case T
-  if (cc0pm_dubins_->distance < get_epsilon())
+  if (c1.left == c2.left && cc0pm_dubins_->distance < get_epsilon())
   {
     cstart[cc_dubins::T] = new HC_CC_Circle(c1.start, c1.left, c1.forward, true, hc_cc_circle_param_);
     length[cc_dubins::T] = cstart[cc_dubins::T]->hc_turn_length(c2.start);
diff --git a/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp b/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp
index 518c131..6b192f3 100644
--- a/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp
@@ -375,7 +375,7 @@ CC_Dubins_Path *CCpm0_Dubins_State_Space::ccpm0_circles_dubins_path(const HC_CC_
     goto label_end;
   }
   // case T
-  if (ccpm0_dubins_->distance < get_epsilon())
+  if (c1.left == c2.left && ccpm0_dubins_->distance < get_epsilon())
   {
     cend[cc_dubins::T] = new HC_CC_Circle(c2.start, c2.left, c2.forward, true, hc_cc_circle_param_);
     length[cc_dubins::T] = cend[cc_dubins::T]->hc_turn_length(c1.start);
diff --git a/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp b/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp
index 61ff392..157fa41 100644
--- a/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp
@@ -503,7 +503,7 @@ CC_Dubins_Path *CCpmpm_Dubins_State_Space::ccpmpm_circles_dubins_path(const HC_C
     goto label_end;
   }
   // case T
-  if (configuration_on_hc_cc_circle(c1, c2.start))
+  if (c1.left == c2.left && configuration_on_hc_cc_circle(c1, c2.start))
   {
     cstart[cc_dubins::T] = new HC_CC_Circle(c1.start, c1.left, c1.forward, true, rs_circle_param_);
     length[cc_dubins::T] = cstart[cc_dubins::T]->rs_turn_length(c2.start);
diff --git a/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
index d69eed3..411fb53 100644
--- a/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
@@ -1565,7 +1565,7 @@ HC_CC_RS_Path *HC0pm_Reeds_Shepp_State_Space::hc0pm_circles_rs_path(const HC_CC_
     goto label_end;
   }
   // case T
-  if (hc0pm_reeds_shepp_->distance < get_epsilon())
+  if (c1.left == c2.left && hc0pm_reeds_shepp_->distance < get_epsilon())
   {
     cstart[hc_cc_rs::T] = new HC_CC_Circle(c1.start, c1.left, c1.forward, HC_REGULAR, hc_cc_circle_param_);
     length[hc_cc_rs::T] = cstart[hc_cc_rs::T]->hc_turn_length(c2.start);
diff --git a/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
index 59b7c3b..a4089f5 100644
--- a/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
@@ -1565,7 +1565,7 @@ HC_CC_RS_Path *HCpm0_Reeds_Shepp_State_Space::hcpm0_circles_rs_path(const HC_CC_
     goto label_end;
   }
   // case T
-  if (hcpm0_reeds_shepp_->distance < get_epsilon())
+  if (c1.left == c2.left && hcpm0_reeds_shepp_->distance < get_epsilon())
   {
     cend[hc_cc_rs::T] = new HC_CC_Circle(c2.start, c2.left, c2.forward, HC_REGULAR, hc_cc_circle_param_);
     length[hc_cc_rs::T] = cend[hc_cc_rs::T]->hc_turn_length(c1.start);
diff --git a/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
index 007a70d..234aef4 100644
--- a/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
@@ -1599,7 +1599,7 @@ HC_CC_RS_Path *HCpmpm_Reeds_Shepp_State_Space::hcpmpm_circles_rs_path(const HC_C
     goto label_end;
   }
   // case T
-  if (configuration_on_hc_cc_circle(c1, c2.start))
+  if (c1.left == c2.left && configuration_on_hc_cc_circle(c1, c2.start))
   {
     cstart[hc_cc_rs::T] = new HC_CC_Circle(c1.start, c1.left, c1.forward, true, rs_circle_param_);
     length[hc_cc_rs::T] = cstart[hc_cc_rs::T]->rs_turn_length(c2.start);
-- 
2.43.0


From 06e0f1035eb32970ea5b22b14be3631113e5b555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:27 +0000
Subject: [PATCH 04/15] fix: integrate elementary clothoids with a sharpness
 below get_epsilon()

They were integrated as straight lines or arcs, so that the path missed the goal.
---
 src/hc_cc_state_space/hc_cc_state_space.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hc_cc_state_space/hc_cc_state_space.cpp b/src/hc_cc_state_space/hc_cc_state_space.cpp
index a8e1533..fa5df3d 100644
--- a/src/hc_cc_state_space/hc_cc_state_space.cpp
+++ b/src/hc_cc_state_space/hc_cc_state_space.cpp
@@ -283,7 +283,8 @@ inline State HC_CC_State_Space::integrate_ODE(const State &state, const Control
   State state_next;
   double sigma(control.sigma);
   double d(sgn(control.delta_s));
-  if (fabs(sigma) > get_epsilon())
+  // an elementary path bends by a significant angle even if its sharpness is far below get_epsilon()
+  if (fabs(sigma) > 1e-10)
   {
     end_of_clothoid(state.x, state.y, state.theta, state.kappa, sigma, d, integration_step, &state_next.x,
                     &state_next.y, &state_next.theta, &state_next.kappa);
-- 
2.43.0


From d83ca34afc592d1f23559ed1fba019e1b8450677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:27 +0000
Subject: [PATCH 05/15] fix: initialize curvature and direction of states
 interpolated at t <= 0

Dubins and Reeds-Shepp returned uninitialized values.
---
 src/dubins_state_space/dubins_state_space.cpp           | 2 ++
 src/reeds_shepp_state_space/reeds_shepp_state_space.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/dubins_state_space/dubins_state_space.cpp b/src/dubins_state_space/dubins_state_space.cpp
index 405e5e6..89b0848 100644
--- a/src/dubins_state_space/dubins_state_space.cpp
+++ b/src/dubins_state_space/dubins_state_space.cpp
@@ -425,6 +425,8 @@ State Dubins_State_Space::interpolate(const State &state, const vector<Control>
   state_curr.x = state.x;
   state_curr.y = state.y;
   state_curr.theta = state.theta;
+  state_curr.kappa = controls.front().kappa;
+  state_curr.d = sgn(controls.front().delta_s);
   // get arc length at t
   double s_path(0.0);
   double s_inter(0.0);
diff --git a/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp b/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp
index 787dedb..b08e79d 100644
--- a/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp
+++ b/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp
@@ -714,6 +714,8 @@ State Reeds_Shepp_State_Space::interpolate(const State &state, const vector<Cont
   state_curr.x = state.x;
   state_curr.y = state.y;
   state_curr.theta = state.theta;
+  state_curr.kappa = controls.front().kappa;
+  state_curr.d = sgn(controls.front().delta_s);
   // get arc length at t
   double s_path(0.0);
   double s_inter(0.0);
-- 
2.43.0


From 1c559d607656e8aef3eb8e54bf4d8577e0baffc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:33 +0000
Subject: [PATCH 06/15] fix: CC-Dubins connects a state with intermediate
 curvature to itself by an empty path

The start state is predicted ahead and the goal state behind, so that the
shortcut for equal states was never taken and the path was a full loop.
---
 src/hc_cc_state_space/cc_dubins_state_space.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/hc_cc_state_space/cc_dubins_state_space.cpp b/src/hc_cc_state_space/cc_dubins_state_space.cpp
index 5b93935..c16d5f7 100644
--- a/src/hc_cc_state_space/cc_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/cc_dubins_state_space.cpp
@@ -96,6 +96,10 @@ vector<pair<State, Control>> CC_Dubins_State_Space::predict_state(const State &s
 
 double CC_Dubins_State_Space::get_distance(const State &state1, const State &state2) const
 {
+  // the predicted states of two equal states with intermediate curvature differ
+  if (state_equal(state1, state2))
+    return 0.0;
+
   vector<pair<State, Control>> start_states_controls = this->predict_state(state1, forwards_);
   vector<pair<State, Control>> end_states_controls = this->predict_state(state2, !forwards_);
   vector<double> distances;
@@ -148,6 +152,15 @@ double CC_Dubins_State_Space::get_distance(const State &state1, const State &sta
 
 vector<Control> CC_Dubins_State_Space::get_controls(const State &state1, const State &state2) const
 {
+  // the predicted states of two equal states with intermediate curvature differ
+  if (state_equal(state1, state2))
+  {
+    vector<Control> controls;
+    empty_controls(controls);
+    controls.back().kappa = state1.kappa;
+    return controls;
+  }
+
   vector<pair<State, Control>> start_states_controls = this->predict_state(state1, forwards_);
   vector<pair<State, Control>> end_states_controls = this->predict_state(state2, !forwards_);
   vector<pair<vector<Control>, double>> cc_dubins_controls_distance_pairs;
-- 
2.43.0


From 0eb0bccc8d599cf83db98b338164a77279fa1e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:09 +0000
Subject: [PATCH 07/15] fix: compare headings of configurations and states
 modulo 2 pi

Equal states whose headings lie on different sides of 0 (e.g. 0 and -1e-17)
were not recognized as equal and connected by a full loop.
---
 src/hc_cc_state_space/configuration.cpp | 8 ++++----
 src/hc_cc_state_space/hc_cc_circle.cpp  | 2 +-
 src/hc_cc_state_space/paths.cpp         | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/hc_cc_state_space/configuration.cpp b/src/hc_cc_state_space/configuration.cpp
index 8dfcaa1..dcb314e 100644
--- a/src/hc_cc_state_space/configuration.cpp
+++ b/src/hc_cc_state_space/configuration.cpp
@@ -58,19 +58,19 @@ double configuration_distance(const Configuration &q1, const Configuration &q2)
 
 bool configuration_aligned(const Configuration &q1, const Configuration &q2)
 {
-  if (fabs(q2.theta - q1.theta) > get_epsilon())
+  if (fabs(pify(q2.theta - q1.theta)) > get_epsilon())
   {
     return false;
   }
-  double angle = twopify(atan2(q2.y - q1.y, q2.x - q1.x));
-  return fabs(angle - q1.theta) <= get_epsilon();
+  double angle = atan2(q2.y - q1.y, q2.x - q1.x);
+  return fabs(pify(angle - q1.theta)) <= get_epsilon();
 }
 
 bool configuration_equal(const Configuration &q1, const Configuration &q2)
 {
   if (fabs(q2.kappa - q1.kappa) > get_epsilon())
     return false;
-  if (fabs(q2.theta - q1.theta) > get_epsilon())
+  if (fabs(pify(q2.theta - q1.theta)) > get_epsilon())
     return false;
   if (configuration_distance(q1, q2) > get_epsilon())
     return false;
diff --git a/src/hc_cc_state_space/hc_cc_circle.cpp b/src/hc_cc_state_space/hc_cc_circle.cpp
index 5d6b6a5..4a26d2b 100644
--- a/src/hc_cc_state_space/hc_cc_circle.cpp
+++ b/src/hc_cc_state_space/hc_cc_circle.cpp
@@ -334,7 +334,7 @@ bool configuration_on_hc_cc_circle(const HC_CC_Circle &c, const Configuration &q
     angle = angle - HALF_PI - c.mu;
   }
   angle = twopify(angle);
-  return fabs(q.theta - angle) < get_epsilon();
+  return fabs(pify(q.theta - angle)) < get_epsilon();
 }
 
 } // namespace steering
diff --git a/src/hc_cc_state_space/paths.cpp b/src/hc_cc_state_space/paths.cpp
index ea7b3e1..d738608 100644
--- a/src/hc_cc_state_space/paths.cpp
+++ b/src/hc_cc_state_space/paths.cpp
@@ -264,7 +264,7 @@ bool state_equal(const State &state1, const State &state2)
 {
   if (fabs(state2.kappa - state1.kappa) > get_epsilon())
     return false;
-  if (fabs(twopify(state2.theta) - twopify(state1.theta)) > get_epsilon())
+  if (fabs(pify(state2.theta - state1.theta)) > get_epsilon())
     return false;
   if (point_distance(state1.x, state1.y, state2.x, state2.y) > get_epsilon())
     return false;
-- 
2.43.0


From d2b61357033c4c5605a6af9d545a88eec13dcf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:17 +0000
Subject: [PATCH 08/15] fix: TiSTcT, TcTiST and TcTiSTcT paths do not depend on
 the handedness of the turns

The intermediate circle was always placed on the same side of the line
between the centers, which is only right for one of the two mirror images:
for the other one the straight line was longer and the intermediate turn
exceeded a quarter turn, so that the distance of mirrored queries differed.
---
 .../cc00_reeds_shepp_state_space.cpp              | 15 +++++++++++++++
 .../hc00_reeds_shepp_state_space.cpp              | 15 +++++++++++++++
 .../hc0pm_reeds_shepp_state_space.cpp             | 15 +++++++++++++++
 .../hcpm0_reeds_shepp_state_space.cpp             | 15 +++++++++++++++
 .../hcpmpm_reeds_shepp_state_space.cpp            | 15 +++++++++++++++
 5 files changed, 75 insertions(+)

diff --git a/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp
index 3ad8e05..b8954bf 100644
--- a/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp
@@ -546,6 +546,11 @@ public:
     double r = c2.radius * c2.cos_mu;
     double delta_y = pow(2 * r, 2) / distance;
     double delta_x = 2 * r * sqrt(1 - delta_y / distance);
+    // place the intermediate circle such that it is left after a quarter turn
+    if (c2.left == c2.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c2.xc, c2.yc, theta, -delta_x, delta_y, &x, &y);
@@ -633,6 +638,11 @@ public:
     double r = c1.radius * c1.cos_mu;
     double delta_y = pow(2 * r, 2) / distance;
     double delta_x = 2 * r * sqrt(1 - delta_y / distance);
+    // place the intermediate circle such that it is left after a quarter turn
+    if (c1.left == c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, -delta_y, &x, &y);
@@ -720,6 +730,11 @@ public:
     double r = c1.radius * c1.cos_mu;
     double delta_y = pow(2 * r, 2) / distance;
     double delta_x = 2 * r * sqrt(1 - delta_y / distance);
+    // place the intermediate circle such that it is left after a quarter turn
+    if (c1.left != c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, delta_y, &x, &y);
diff --git a/src/hc_cc_state_space/hc00_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hc00_reeds_shepp_state_space.cpp
index c742b1d..86772a4 100644
--- a/src/hc_cc_state_space/hc00_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hc00_reeds_shepp_state_space.cpp
@@ -568,6 +568,11 @@ public:
     double theta = angle;
     double delta_y = (4 * c2.radius * c2.cos_mu) / (fabs(c2.kappa) * distance);
     double delta_x = sqrt(pow(2 * c2.kappa_inv, 2) - pow(delta_y, 2));
+    // place the intermediate circle such that it is left after a quarter turn
+    if (c2.left == c2.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c2.xc, c2.yc, theta, -delta_x, delta_y, &x, &y);
@@ -659,6 +664,11 @@ public:
     double theta = angle;
     double delta_y = (4 * c2.radius * c2.cos_mu) / (fabs(c2.kappa) * distance);
     double delta_x = sqrt(pow(2 * c2.kappa_inv, 2) - pow(delta_y, 2));
+    // place the intermediate circle such that it is left after a quarter turn
+    if (c1.left == c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, -delta_y, &x, &y);
@@ -751,6 +761,11 @@ public:
     double theta = angle;
     double delta_y = (4 * c1.radius * c1.cos_mu) / (distance * fabs(c1.kappa));
     double delta_x = sqrt(pow(2 * c1.kappa_inv, 2) - pow(delta_y, 2));
+    // place the intermediate circle such that it is left after a quarter turn
+    if (c1.left != c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, delta_y, &x, &y);
diff --git a/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
index 411fb53..9b9704e 100644
--- a/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
@@ -577,6 +577,11 @@ public:
     double theta = angle;
     double delta_y = (4 * c1.radius * c1.cos_mu) / (fabs(c1.kappa) * distance);
     double delta_x = sqrt(pow(2 * c1.kappa_inv, 2) - pow(delta_y, 2));
+    // place the intermediate circle such that it is left after a quarter turn
+    if (c2.left == c2.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c2.xc, c2.yc, theta, -delta_x, delta_y, &x, &y);
@@ -669,6 +674,11 @@ public:
     double theta = angle;
     double delta_y = (4 * c1.radius * c1.cos_mu) / (fabs(c1.kappa) * distance);
     double delta_x = sqrt(pow(2 * c1.kappa_inv, 2) - pow(delta_y, 2));
+    // place the intermediate circle such that it is left after a quarter turn
+    if (c1.left == c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, -delta_y, &x, &y);
@@ -765,6 +775,11 @@ public:
     double theta = angle;
     double delta_y = (4 * c1.radius * c1.cos_mu) / (distance * fabs(c1.kappa));
     double delta_x = sqrt(pow(2 * c1.kappa_inv, 2) - pow(delta_y, 2));
+    // place the intermediate circle such that it is left after a quarter turn
+    if (c1.left != c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, delta_y, &x, &y);
diff --git a/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
index a4089f5..ea7aed9 100644
--- a/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
@@ -578,6 +578,11 @@ public:
     double theta = angle;
     double delta_y = (4 * c2.radius * c2.cos_mu) / (fabs(c2.kappa) * distance);
     double delta_x = sqrt(pow(2 * c2.kappa_inv, 2) - pow(delta_y, 2));
+    // place the intermediate circle such that it is left after a quarter turn
+    if (c2.left == c2.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c2.xc, c2.yc, theta, -delta_x, delta_y, &x, &y);
@@ -673,6 +678,11 @@ public:
     double theta = angle;
     double delta_y = (4 * c2.radius * c2.cos_mu) / (fabs(c2.kappa) * distance);
     double delta_x = sqrt(pow(2 * c2.kappa_inv, 2) - pow(delta_y, 2));
+    // place the intermediate circle such that it is left after a quarter turn
+    if (c1.left == c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, -delta_y, &x, &y);
@@ -765,6 +775,11 @@ public:
     double theta = angle;
     double delta_y = (4 * c2.radius * c2.cos_mu) / (distance * fabs(c2.kappa));
     double delta_x = sqrt(pow(2 * c2.kappa_inv, 2) - pow(delta_y, 2));
+    // place the intermediate circle such that it is left after a quarter turn
+    if (c1.left != c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, delta_y, &x, &y);
diff --git a/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
index 234aef4..91d982d 100644
--- a/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
@@ -589,6 +589,11 @@ public:
     double theta = angle;
     double delta_y = (4 * parent_->radius_ * parent_->cos_mu_) / (fabs(c2.kappa) * distance);
     double delta_x = sqrt(pow(2 * c2.kappa_inv, 2) - pow(delta_y, 2));
+    // place the intermediate circle such that it is left after a quarter turn
+    if (c2.left == c2.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c2.xc, c2.yc, theta, -delta_x, delta_y, &x, &y);
@@ -685,6 +690,11 @@ public:
     double theta = angle;
     double delta_y = (4 * parent_->radius_ * parent_->cos_mu_) / (fabs(c2.kappa) * distance);
     double delta_x = sqrt(pow(2 * c2.kappa_inv, 2) - pow(delta_y, 2));
+    // place the intermediate circle such that it is left after a quarter turn
+    if (c1.left == c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, -delta_y, &x, &y);
@@ -781,6 +791,11 @@ public:
     double theta = angle;
     double delta_y = (4 * parent_->radius_ * parent_->cos_mu_) / (distance * fabs(c1.kappa));
     double delta_x = sqrt(pow(2 * c1.kappa_inv, 2) - pow(delta_y, 2));
+    // place the intermediate circle such that it is left after a quarter turn
+    if (c1.left != c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, delta_y, &x, &y);
-- 
2.43.0


From 975948561d23e460de10902bf58c0aee95e796bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:46 +0000
Subject: [PATCH 09/15] fix: Reeds-Shepp accepts segments that vanish up to
 rounding errors

The angles of short paths are only accurate to eps / length, which exceeds
10 eps by orders of magnitude: e.g. driving 0.0014 straight ahead with a
lateral offset of one ulp resulted in a path of length 0.0034, although the
Reeds-Shepp distance is continuous.
---
 src/reeds_shepp_state_space/reeds_shepp_state_space.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp b/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp
index b08e79d..7f83b8b 100644
--- a/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp
+++ b/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp
@@ -71,7 +71,7 @@ namespace /* helper */
 {
 // The comments, variable names, etc. use the nomenclature from the Reeds & Shepp paper.
 const double RS_EPS = 1e-6;
-const double RS_ZERO = 10 * numeric_limits<double>::epsilon();
+const double RS_ZERO = 1e-9;
 
 inline void tauOmega(double u, double v, double xi, double eta, double phi, double &tau, double &omega)
 {
-- 
2.43.0


From 6bb82843700b53c7c822b0accd3c1b890fadd800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:51 +0000
Subject: [PATCH 10/15] fix: omit straight lines that vanish up to rounding
 errors from HC and CC paths

---
 src/hc_cc_state_space/paths.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hc_cc_state_space/paths.cpp b/src/hc_cc_state_space/paths.cpp
index d738608..2d93923 100644
--- a/src/hc_cc_state_space/paths.cpp
+++ b/src/hc_cc_state_space/paths.cpp
@@ -309,6 +309,9 @@ void empty_controls(vector<Control> &controls)
 void straight_controls(const Configuration &q1, const Configuration &q2, vector<Control> &controls)
 {
   double length = point_distance(q1.x, q1.y, q2.x, q2.y);
+  // the direction of a straight line that vanishes up to rounding errors is arbitrary and would hide a cusp
+  if (length < 1e-10 && !controls.empty())
+    return;
   double dot_product = cos(q1.theta) * (q2.x - q1.x) + sin(q1.theta) * (q2.y - q1.y);
   int d = sgn(dot_product);
   Control control;
-- 
2.43.0


From 48717f3baa5816c1594c91e8a60e771c2b572cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:32 +0000
Subject: [PATCH 11/15] fix: direction of straight lines that vanish up to
 rounding errors in HC and CC paths

---
 src/hc_cc_state_space/paths.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/hc_cc_state_space/paths.cpp b/src/hc_cc_state_space/paths.cpp
index 2d93923..bb07df1 100644
--- a/src/hc_cc_state_space/paths.cpp
+++ b/src/hc_cc_state_space/paths.cpp
@@ -309,11 +309,17 @@ void empty_controls(vector<Control> &controls)
 void straight_controls(const Configuration &q1, const Configuration &q2, vector<Control> &controls)
 {
   double length = point_distance(q1.x, q1.y, q2.x, q2.y);
-  // the direction of a straight line that vanishes up to rounding errors is arbitrary and would hide a cusp
-  if (length < 1e-10 && !controls.empty())
-    return;
   double dot_product = cos(q1.theta) * (q2.x - q1.x) + sin(q1.theta) * (q2.y - q1.y);
   int d = sgn(dot_product);
+  if (length < 1e-10 && !controls.empty())
+  {
+    // a straight line that vanishes up to rounding errors has an arbitrary dot product: keep the direction of the
+    // previous control unless its curvature does not vanish, in which case there is a cusp in between
+    const Control &previous = controls.back();
+    d = sgn(previous.delta_s);
+    if (fabs(previous.kappa + previous.sigma * fabs(previous.delta_s)) > get_epsilon())
+      d = -d;
+  }
   Control control;
   control.delta_s = d * length;
   control.kappa = 0.0;
-- 
2.43.0


From d3f68732fd6291ad5d80d37dea692d81c30bcc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:40 +0000
Subject: [PATCH 12/15] fix: keep the cusps next to straight lines that vanish
 up to rounding errors

---
 src/hc_cc_state_space/paths.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/hc_cc_state_space/paths.cpp b/src/hc_cc_state_space/paths.cpp
index bb07df1..a6c072b 100644
--- a/src/hc_cc_state_space/paths.cpp
+++ b/src/hc_cc_state_space/paths.cpp
@@ -311,14 +311,15 @@ void straight_controls(const Configuration &q1, const Configuration &q2, vector<
   double length = point_distance(q1.x, q1.y, q2.x, q2.y);
   double dot_product = cos(q1.theta) * (q2.x - q1.x) + sin(q1.theta) * (q2.y - q1.y);
   int d = sgn(dot_product);
+  // the dot product of a straight line that vanishes up to rounding errors is arbitrary
   if (length < 1e-10 && !controls.empty())
   {
-    // a straight line that vanishes up to rounding errors has an arbitrary dot product: keep the direction of the
-    // previous control unless its curvature does not vanish, in which case there is a cusp in between
     const Control &previous = controls.back();
-    d = sgn(previous.delta_s);
-    if (fabs(previous.kappa + previous.sigma * fabs(previous.delta_s)) > get_epsilon())
-      d = -d;
+    if (fabs(previous.kappa + previous.sigma * fabs(previous.delta_s)) < get_epsilon())
+      return;
+    // preserve the cusp between a curved segment and the straight line
+    length = 1e-10;
+    d = -sgn(previous.delta_s);
   }
   Control control;
   control.delta_s = d * length;
-- 
2.43.0


From dd2f86e46708b94e0e8a9bb8b82869d5f40e092f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:37 +0000
Subject: [PATCH 13/15] fix: CC00-Reeds-Shepp takes the tangent configuration
 of two circles that meet in a cusp from the angle mu

Two circles are tangent (TcT) when their distance is 2 r cos(mu) up to epsilon.
The offset of the tangent configuration was recomputed from that distance as
sqrt(r^2 - (d/2)^2), which amplifies the gap by 1 / (2 sin(mu)) and is not a
number if the gap exceeds 2 r (1 - cos(mu)), i.e. for sharp vehicles. Use
r sin(mu), as it is for circles that are exactly tangent.
---
 src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp
index b8954bf..f474aff 100644
--- a/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp
@@ -120,7 +120,7 @@ public:
   {
     double distance = center_distance(c1, c2);
     double delta_x = 0.5 * distance;
-    double delta_y = sqrt(pow(c1.radius, 2) - pow(delta_x, 2));
+    double delta_y = c1.radius * c1.sin_mu;
     double angle = atan2(c2.yc - c1.yc, c2.xc - c1.xc);
     double x, y, theta;
     if (c1.left)
-- 
2.43.0


From bee732e32f52101804c7d413e48494c51d2a6dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:52 +0000
Subject: [PATCH 14/15] fix: virtual destructor of HC_CC_State_Space, derived
 state spaces leak when they are destroyed through the base class

---
 .../steering_functions/hc_cc_state_space/hc_cc_state_space.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/steering_functions/hc_cc_state_space/hc_cc_state_space.hpp b/include/steering_functions/hc_cc_state_space/hc_cc_state_space.hpp
index 78c938c..f11336e 100644
--- a/include/steering_functions/hc_cc_state_space/hc_cc_state_space.hpp
+++ b/include/steering_functions/hc_cc_state_space/hc_cc_state_space.hpp
@@ -33,6 +33,9 @@ public:
   /** \brief Constructor */
   HC_CC_State_Space(double kappa, double sigma, double discretization);
 
+  /** \brief Destructor */
+  virtual ~HC_CC_State_Space() = default;
+
   /** \brief Sets the parameters required by the filter */
   void set_filter_parameters(const Motion_Noise& motion_noise, const Measurement_Noise& measurement_noise,
                              const Controller& controller);
-- 
2.43.0


From dc183c64fef876e02eb8047130fe7601eb33f558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:26 +0000
Subject: [PATCH 15/15] fix: queries to one state space from several threads
 interfered through the scratch values of its families

---
 src/hc_cc_state_space/cc00_dubins_state_space.cpp        | 8 ++++++--
 src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp   | 8 ++++++--
 src/hc_cc_state_space/cc0pm_dubins_state_space.cpp       | 8 ++++++--
 src/hc_cc_state_space/ccpm0_dubins_state_space.cpp       | 8 ++++++--
 src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp      | 8 ++++++--
 src/hc_cc_state_space/hc00_reeds_shepp_state_space.cpp   | 8 ++++++--
 src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp  | 8 ++++++--
 src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp  | 8 ++++++--
 src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp | 8 ++++++--
 9 files changed, 54 insertions(+), 18 deletions(-)

diff --git a/src/hc_cc_state_space/cc00_dubins_state_space.cpp b/src/hc_cc_state_space/cc00_dubins_state_space.cpp
index 0b23902..79333bb 100644
--- a/src/hc_cc_state_space/cc00_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/cc00_dubins_state_space.cpp
@@ -46,8 +46,9 @@ public:
     parent_ = parent;
   }
 
-  double distance = 0.0;
-  double angle = 0.0;
+  // set for every query, one per thread since a state space may be shared by several threads
+  static thread_local double distance;
+  static thread_local double angle;
 
   // ##### TT ###################################################################
   bool TT_exists(const HC_CC_Circle &c1, const HC_CC_Circle &c2) const
@@ -309,6 +310,9 @@ public:
   }
 };
 
+thread_local double CC00_Dubins_State_Space::CC00_Dubins::distance = 0.0;
+thread_local double CC00_Dubins_State_Space::CC00_Dubins::angle = 0.0;
+
 // ############################################################################
 
 CC00_Dubins_State_Space::CC00_Dubins_State_Space(double kappa, double sigma, double discretization, bool forwards)
diff --git a/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp
index f474aff..c745ccd 100644
--- a/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp
@@ -48,8 +48,9 @@ public:
     parent_ = parent;
   }
 
-  double distance = 0.0;
-  double angle = 0.0;
+  // set for every query, one per thread since a state space may be shared by several threads
+  static thread_local double distance;
+  static thread_local double angle;
 
   // ##### TT ###################################################################
   bool TT_exists(const HC_CC_Circle &c1, const HC_CC_Circle &c2) const
@@ -1420,6 +1421,9 @@ public:
   }
 };
 
+thread_local double CC00_Reeds_Shepp_State_Space::CC00_Reeds_Shepp::distance = 0.0;
+thread_local double CC00_Reeds_Shepp_State_Space::CC00_Reeds_Shepp::angle = 0.0;
+
 // ############################################################################
 
 CC00_Reeds_Shepp_State_Space::CC00_Reeds_Shepp_State_Space(double kappa, double sigma, double discretization)
diff --git a/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp b/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp
index 0309443..26b09ed 100644
--- a/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp
@@ -46,8 +46,9 @@ public:
     parent_ = parent;
   }
 
-  double distance = 0.0;
-  double angle = 0.0;
+  // set for every query, one per thread since a state space may be shared by several threads
+  static thread_local double distance;
+  static thread_local double angle;
 
   // ##### TT ###################################################################
   bool TT_exists(const HC_CC_Circle &c1, const HC_CC_Circle &c2) const
@@ -331,6 +332,9 @@ public:
   }
 };
 
+thread_local double CC0pm_Dubins_State_Space::CC0pm_Dubins::distance = 0.0;
+thread_local double CC0pm_Dubins_State_Space::CC0pm_Dubins::angle = 0.0;
+
 // ############################################################################
 
 CC0pm_Dubins_State_Space::CC0pm_Dubins_State_Space(double kappa, double sigma, double discretization, bool forwards)
diff --git a/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp b/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp
index 6b192f3..14ec2ef 100644
--- a/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp
@@ -46,8 +46,9 @@ public:
     parent_ = parent;
   }
 
-  double distance = 0.0;
-  double angle = 0.0;
+  // set for every query, one per thread since a state space may be shared by several threads
+  static thread_local double distance;
+  static thread_local double angle;
 
   // ##### TT ###################################################################
   bool TT_exists(const HC_CC_Circle &c1, const HC_CC_Circle &c2) const
@@ -331,6 +332,9 @@ public:
   }
 };
 
+thread_local double CCpm0_Dubins_State_Space::CCpm0_Dubins::distance = 0.0;
+thread_local double CCpm0_Dubins_State_Space::CCpm0_Dubins::angle = 0.0;
+
 // ############################################################################
 
 CCpm0_Dubins_State_Space::CCpm0_Dubins_State_Space(double kappa, double sigma, double discretization, bool forwards)
diff --git a/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp b/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp
index 157fa41..f2df358 100644
--- a/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp
@@ -46,8 +46,9 @@ public:
     parent_ = parent;
   }
 
-  double distance = 0.0;
-  double angle = 0.0;
+  // set for every query, one per thread since a state space may be shared by several threads
+  static thread_local double distance;
+  static thread_local double angle;
 
   // ##### TT ###################################################################
   bool TT_exists(const HC_CC_Circle &c1, const HC_CC_Circle &c2) const
@@ -453,6 +454,9 @@ public:
   }
 };
 
+thread_local double CCpmpm_Dubins_State_Space::CCpmpm_Dubins::distance = 0.0;
+thread_local double CCpmpm_Dubins_State_Space::CCpmpm_Dubins::angle = 0.0;
+
 // ############################################################################
 
 CCpmpm_Dubins_State_Space::CCpmpm_Dubins_State_Space(double kappa, double sigma, double discretization, bool forwards)
diff --git a/src/hc_cc_state_space/hc00_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hc00_reeds_shepp_state_space.cpp
index 86772a4..c204efd 100644
--- a/src/hc_cc_state_space/hc00_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hc00_reeds_shepp_state_space.cpp
@@ -48,8 +48,9 @@ public:
     parent_ = parent;
   }
 
-  double distance = 0.0;
-  double angle = 0.0;
+  // set for every query, one per thread since a state space may be shared by several threads
+  static thread_local double distance;
+  static thread_local double angle;
 
   // ##### TT ###################################################################
   bool TT_exists(const HC_CC_Circle &c1, const HC_CC_Circle &c2) const
@@ -1504,6 +1505,9 @@ public:
   }
 };
 
+thread_local double HC00_Reeds_Shepp_State_Space::HC00_Reeds_Shepp::distance = 0.0;
+thread_local double HC00_Reeds_Shepp_State_Space::HC00_Reeds_Shepp::angle = 0.0;
+
 // ############################################################################
 
 HC00_Reeds_Shepp_State_Space::HC00_Reeds_Shepp_State_Space(double kappa, double sigma, double discretization)
diff --git a/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
index 9b9704e..f7b82c0 100644
--- a/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
@@ -49,8 +49,9 @@ public:
     parent_ = parent;
   }
 
-  double distance = 0.0;
-  double angle = 0.0;
+  // set for every query, one per thread since a state space may be shared by several threads
+  static thread_local double distance;
+  static thread_local double angle;
 
   // ##### TT ###################################################################
   bool TT_exists(const HC_CC_Circle &c1, const HC_CC_Circle &c2) const
@@ -1533,6 +1534,9 @@ public:
   }
 };
 
+thread_local double HC0pm_Reeds_Shepp_State_Space::HC0pm_Reeds_Shepp::distance = 0.0;
+thread_local double HC0pm_Reeds_Shepp_State_Space::HC0pm_Reeds_Shepp::angle = 0.0;
+
 // ############################################################################
 
 HC0pm_Reeds_Shepp_State_Space::HC0pm_Reeds_Shepp_State_Space(double kappa, double sigma, double discretization)
diff --git a/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
index ea7aed9..046e4ee 100644
--- a/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
@@ -49,8 +49,9 @@ public:
     parent_ = parent;
   }
 
-  double distance = 0.0;
-  double angle = 0.0;
+  // set for every query, one per thread since a state space may be shared by several threads
+  static thread_local double distance;
+  static thread_local double angle;
 
   // ##### TT ###################################################################
   bool TT_exists(const HC_CC_Circle &c1, const HC_CC_Circle &c2) const
@@ -1533,6 +1534,9 @@ public:
   }
 };
 
+thread_local double HCpm0_Reeds_Shepp_State_Space::HCpm0_Reeds_Shepp::distance = 0.0;
+thread_local double HCpm0_Reeds_Shepp_State_Space::HCpm0_Reeds_Shepp::angle = 0.0;
+
 // ############################################################################
 
 HCpm0_Reeds_Shepp_State_Space::HCpm0_Reeds_Shepp_State_Space(double kappa, double sigma, double discretization)
diff --git a/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
index 91d982d..a5fd154 100644
--- a/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
@@ -49,8 +49,9 @@ public:
     parent_ = parent;
   }
 
-  double distance = 0.0;
-  double angle = 0.0;
+  // set for every query, one per thread since a state space may be shared by several threads
+  static thread_local double distance;
+  static thread_local double angle;
 
   // ##### TT ###################################################################
   bool TT_exists(const HC_CC_Circle &c1, const HC_CC_Circle &c2) const
@@ -1565,6 +1566,9 @@ public:
   }
 };
 
+thread_local double HCpmpm_Reeds_Shepp_State_Space::HCpmpm_Reeds_Shepp::distance = 0.0;
+thread_local double HCpmpm_Reeds_Shepp_State_Space::HCpmpm_Reeds_Shepp::angle = 0.0;
+
 // ############################################################################
 
 HCpmpm_Reeds_Shepp_State_Space::HCpmpm_Reeds_Shepp_State_Space(double kappa, double sigma, double discretization)
-- 
2.43.0

