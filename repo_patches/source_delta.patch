From a8c8442845ac2a33251dfbb31e381603e1d4b648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:06 +0000
Subject: [PATCH 01/16] fix: divide by the logarithm's argument in the
 Swamee-Jain derivative

---
 src/Model/Balancelaw/Isothermaleulerequation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Model/Balancelaw/Isothermaleulerequation.cpp b/src/Model/Balancelaw/Isothermaleulerequation.cpp
index d1ec721..486223b 100644
--- a/src/Model/Balancelaw/Isothermaleulerequation.cpp
+++ b/src/Model/Balancelaw/Isothermaleulerequation.cpp
@@ -316,7 +316,7 @@ namespace Model::Balancelaw {
     double x = exp(log(Re) * 0.9);
     double a = roughness / (3.7 * diameter) + 5.74 / x;
     double aux = log10(a);
-    double daux_dRe = 1 / log(10) * a * (-5.74 / (x * x)) * 0.9 * x / Re;
+    double daux_dRe = 1 / (log(10) * a) * (-5.74 / (x * x)) * 0.9 * x / Re;
     double dlambda_dRe = -0.5 / (aux * aux * aux) * daux_dRe;
     return dlambda_dRe;
   }
-- 
2.43.0


From 01a8c74516054d79ce0fc849b255c1f61ab5c474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:57 +0000
Subject: [PATCH 02/16] fix: check the stored interpolation points for
 sortedness, not the moved-from argument

---
 src/Auxillary/InterpolatingVector/InterpolatingVector.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
index ced377d..cb48501 100644
--- a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
+++ b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
@@ -169,8 +169,9 @@ namespace Aux {
       std::vector<double> _interpolation_points, Eigen::Index _inner_length) :
       interpolation_points(std::move(_interpolation_points)),
       inner_length(_inner_length) {
+    // _interpolation_points has been moved from, so the member must be checked.
     if (not std::is_sorted(
-            _interpolation_points.begin(), _interpolation_points.end())) {
+            interpolation_points.begin(), interpolation_points.end())) {
       gthrow({"Interpolation points for InterpolatingVector were not sorted!"});
     }
   }
-- 
2.43.0


From 1f56f023631cfd4d8aa7b064719a905a8373dd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:09 +0000
Subject: [PATCH 03/16] fix: refuse an equidistant grid with a single entry
 between distinct end points

---
 src/Auxillary/InterpolatingVector/InterpolatingVector.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
index cb48501..af6fe43 100644
--- a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
+++ b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
@@ -38,6 +38,11 @@ namespace Aux {
            "InterpolatingVector.\n",
            "Supplied number of entries: ", std::to_string(number_of_entries)});
     }
+    if (number_of_entries == 1) {
+      gthrow(
+          {"An InterpolatingVector with distinct first and last points needs "
+           "at least two entries.\n"});
+    }
     if (last_point <= first_point) {
       gthrow(
           {"You can't have negative or zero number of entries in an ",
-- 
2.43.0


From fec5614c33c6832cc5aafbbc6c527e4a1df6c35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:09 +0000
Subject: [PATCH 04/16] fix: accept a time exactly EPSILON past the last time
 point in compute_index_lambda

---
 src/Optimization_helpers/Optimization_helpers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimization_helpers/Optimization_helpers.cpp b/src/Optimization_helpers/Optimization_helpers.cpp
index fdf09e5..5fe6151 100644
--- a/src/Optimization_helpers/Optimization_helpers.cpp
+++ b/src/Optimization_helpers/Optimization_helpers.cpp
@@ -31,7 +31,7 @@ namespace Optimization {
     assert(std::is_sorted(timepoints.begin(), timepoints.end()));
 
     if (time > *(std::prev(timepoints.end()))
-        and time < *(std::prev(timepoints.end())) + Aux::EPSILON) {
+        and time <= *(std::prev(timepoints.end())) + Aux::EPSILON) {
       Eigen::Index i_upper = back_index(timepoints);
       double lambda = 1.0;
       return {i_upper, lambda};
-- 
2.43.0


From 6481b49db0d04ea2a3fcdca9cf7c63d0a73559f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:02 +0000
Subject: [PATCH 05/16] fix: compute equidistant interpolation points without
 accumulating rounding errors

---
 src/Auxillary/InterpolatingVector/InterpolatingVector.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
index af6fe43..2c493b0 100644
--- a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
+++ b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
@@ -120,10 +120,10 @@ namespace Aux {
     auto delta = data.delta;
     auto number_of_entries = data.number_of_entries;
     std::vector<double> interpolation_points;
-    auto currentpoint = startpoint;
     for (size_t index = 0; index != number_of_entries; ++index) {
-      interpolation_points.push_back(currentpoint);
-      currentpoint += delta;
+      // no running sum, as its rounding errors would accumulate.
+      interpolation_points.push_back(
+          startpoint + static_cast<double>(index) * delta);
     }
     assert(interpolation_points.front() == startpoint);
     // check for double equality. Should be an aux function...
-- 
2.43.0


From 0add040aa29b4a99581c840037a7e08b17946f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:37 +0000
Subject: [PATCH 06/16] fix: do not read before the first constraint time in
 compute_derivatives

---
 src/IpoptWrapper/ImplicitOptimizer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/IpoptWrapper/ImplicitOptimizer.cpp b/src/IpoptWrapper/ImplicitOptimizer.cpp
index 68a032b..d565a50 100644
--- a/src/IpoptWrapper/ImplicitOptimizer.cpp
+++ b/src/IpoptWrapper/ImplicitOptimizer.cpp
@@ -566,8 +566,9 @@ namespace Optimization {
           // constraints:
           // Find out, whether a new constraint appears at this index:
           bool current_step_is_new_constraint_time = false;
-          if (constraint_timepoints[constraint_index - 1]
-              == state_timepoints[state_index]) {
+          if (constraint_index > 0
+              and constraint_timepoints[constraint_index - 1]
+                      == state_timepoints[state_index]) {
             constraints_are_active_at_current_time = true;
             --constraint_index;
             current_step_is_new_constraint_time = true;
-- 
2.43.0


From 58246cf8e3ed823112956204eaf1ce6f5d73188f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:45 +0000
Subject: [PATCH 07/16] fix: Coeffrefhandler zeroes all values of a matrix with
 newly inserted coefficients

---
 src/Auxillary/Matrixhandler/Matrixhandler.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Auxillary/Matrixhandler/Matrixhandler.cpp b/src/Auxillary/Matrixhandler/Matrixhandler.cpp
index e8b5955..db58e37 100644
--- a/src/Auxillary/Matrixhandler/Matrixhandler.cpp
+++ b/src/Auxillary/Matrixhandler/Matrixhandler.cpp
@@ -57,7 +57,10 @@ namespace Aux {
   Coeffrefhandler<Transpose>::Coeffrefhandler(
       Eigen::SparseMatrix<double> &_matrix) :
       Matrixhandler(_matrix) {
-    // Set the matrix to zero:
+    // Set the matrix to zero. Coefficients that were newly inserted through an
+    // earlier handler leave the matrix uncompressed, then its values are not
+    // stored contiguously.
+    _matrix.makeCompressed();
     Eigen::Map<Eigen::VectorXd> coefficients(
         _matrix.valuePtr(), _matrix.nonZeros());
     coefficients.setZero();
-- 
2.43.0


From 6701bd0c9fb6a238dfb61adb366f8617c3bef68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:34 +0000
Subject: [PATCH 08/16] fix: report success of a Newton solve only for a
 residual within tolerance

A residual that is not a number ended the iteration and was reported as
success.
---
 src/Newtonsolver/Newtonsolver.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/Newtonsolver/Newtonsolver.cpp b/src/Newtonsolver/Newtonsolver.cpp
index 5831498..f413266 100644
--- a/src/Newtonsolver/Newtonsolver.cpp
+++ b/src/Newtonsolver/Newtonsolver.cpp
@@ -152,12 +152,9 @@ namespace Solver {
       ++solstruct.used_iterations;
       solstruct.residual = rootvalues.norm();
     }
-    if (solstruct.used_iterations == maximal_iterations
-        and solstruct.residual > tolerance) {
-      solstruct.success = false;
-    } else {
-      solstruct.success = true;
-    }
+    // A residual that is not a number ends the iteration without being a
+    // solution:
+    solstruct.success = rootvalues.norm() <= tolerance;
 
     return solstruct;
   }
-- 
2.43.0


From 1b768ccf053fa1f5894f450235e6ad8bac042f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:04 +0000
Subject: [PATCH 09/16] fix: report cost and penalty of the solution, not of
 the point evaluated last

IpoptWrapper::finalize_solution evaluated cost and penalty for the final
point without announcing it, so that an optimizer that caches states used
the states of whatever point Ipopt had tried last.
---
 src/IpoptWrapper/Wrapper.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/IpoptWrapper/Wrapper.cpp b/src/IpoptWrapper/Wrapper.cpp
index f24fec4..220b0d9 100644
--- a/src/IpoptWrapper/Wrapper.cpp
+++ b/src/IpoptWrapper/Wrapper.cpp
@@ -171,6 +171,8 @@ namespace Optimization {
     Eigen::Map<Eigen::VectorXd const> constraints(g, number_of_constraints);
     best_solution = solution;
     best_objective_value = obj_value;
+    // The solution need not be the point evaluated last:
+    optimizer->new_x();
     best_cost_value = 0;
     optimizer->evaluate_cost(solution, best_cost_value);
     best_penalty_value = 0;
-- 
2.43.0


From d7f2922d9b8bc87a1f33bff12c610693b6124f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:04 +0000
Subject: [PATCH 10/16] fix: print the status Ipopt returned instead of that of
 success

---
 src/IpoptWrapper/Wrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IpoptWrapper/Wrapper.cpp b/src/IpoptWrapper/Wrapper.cpp
index 220b0d9..3aeeebe 100644
--- a/src/IpoptWrapper/Wrapper.cpp
+++ b/src/IpoptWrapper/Wrapper.cpp
@@ -161,7 +161,7 @@ namespace Optimization {
       Ipopt::IpoptCalculatedQuantities * /* ip_cq */) {
     if (status != Ipopt::SUCCESS) {
       std::cout << "\n\n\nFAILED TO FIND AN OPTIMUM:\nIpopt status was: "
-                << static_cast<int>(Ipopt::SUCCESS) << "\n";
+                << static_cast<int>(status) << "\n";
       std::cout << "Compare the values to the enum Ipopt::SUCCESS in the IPOPT "
                    "manual for what "
                    "that means.\n\n\n"
-- 
2.43.0


From 245ef0590c2112a458668e4f0f363bf7a876587b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:17 +0000
Subject: [PATCH 11/16] fix: choose at least one stochastic step when zero
 steps are requested and theta is zero

---
 src/Auxillary/Stochastics/Stochastic.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Auxillary/Stochastics/Stochastic.cpp b/src/Auxillary/Stochastics/Stochastic.cpp
index 1e17eaa..eae8f81 100644
--- a/src/Auxillary/Stochastics/Stochastic.cpp
+++ b/src/Auxillary/Stochastics/Stochastic.cpp
@@ -29,7 +29,6 @@ namespace Aux {
            std::to_string(stability_parameter)});
     }
 
-    double stochastic_stepsize = delta_t / number_of_stochastic_steps;
     if (theta < 0) {
       gthrow(
           {"The parameter theta must fulfill theta > 0. Actual value: ",
@@ -42,7 +41,8 @@ namespace Aux {
            std::to_string(number_of_stochastic_steps)});
     }
 
-    if (theta * stochastic_stepsize >= stability_parameter) {
+    // Written without a division, so that zero steps are replaced as well:
+    if (theta * delta_t >= stability_parameter * number_of_stochastic_steps) {
       number_of_stochastic_steps
           = static_cast<int>(std::ceil(theta * delta_t / (stability_parameter)))
             + 1;
-- 
2.43.0


From e94fa7643c9f7f32d3d0c7f8d831e3a0f6ef7d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:57 +0000
Subject: [PATCH 12/16] fix: report topology components behind the last entry
 of the inserted json

---
 src/Model/Netfactory/Netfactory.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Model/Netfactory/Netfactory.cpp b/src/Model/Netfactory/Netfactory.cpp
index 3bd4666..88b5455 100644
--- a/src/Model/Netfactory/Netfactory.cpp
+++ b/src/Model/Netfactory/Netfactory.cpp
@@ -194,6 +194,13 @@ namespace Model {
             ++top_it;
           }
         }
+        // all further components in the topology have no entry:
+        if (top_it != topology_vector_json.end()) {
+          gthrow(
+              {"The component with id ", (*top_it)["id"].get<std::string>(),
+               "\n is given in the topology json but no ",
+               name_of_inserted_json, " condition is provided."});
+        }
       }
     }
   }
-- 
2.43.0


From 9ab6a4dfe96f38c521ab833cde4ca66d9367c112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:21 +0000
Subject: [PATCH 13/16] fix: do not read past the end of a path that is shorter
 than the problem root

---
 src/Auxillary/Input_Output/Input_output.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Auxillary/Input_Output/Input_output.cpp b/src/Auxillary/Input_Output/Input_output.cpp
index 04474d3..c472d91 100644
--- a/src/Auxillary/Input_Output/Input_output.cpp
+++ b/src/Auxillary/Input_Output/Input_output.cpp
@@ -32,7 +32,7 @@ namespace io {
 
     auto [root_end_iterator, ignored_value] = std::mismatch(
         problem_root_path.begin(), problem_root_path.end(),
-        absolute_path.begin());
+        absolute_path.begin(), absolute_path.end());
 
     if (root_end_iterator != problem_root_path.end()) {
       return false;
-- 
2.43.0


From 41886a2ee06f061a9d2e3a610e9ebc34e1c41814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:21 +0000
Subject: [PATCH 14/16] fix: notice failed writes in overwrite_json, so that
 the old version is restored

---
 src/Auxillary/aux_json/Aux_json.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Auxillary/aux_json/Aux_json.cpp b/src/Auxillary/aux_json/Aux_json.cpp
index df956c4..ed9bd3d 100644
--- a/src/Auxillary/aux_json/Aux_json.cpp
+++ b/src/Auxillary/aux_json/Aux_json.cpp
@@ -120,7 +120,10 @@ namespace aux_json {
 
     try {
       // attempting the overwrite
-      std::ofstream ofs(file_path, std::ofstream::trunc);
+      std::ofstream ofs;
+      // without this a failed write goes unnoticed and the backup is removed.
+      ofs.exceptions(std::ofstream::failbit | std::ofstream::badbit);
+      ofs.open(file_path, std::ofstream::trunc);
       ofs << new_json.dump(/*indent=*/1, /*indent_char=*/'\t');
       ofs.close();
     } catch (...) {
-- 
2.43.0


From 8c31403649532579a08bef8e50009770ca06b124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:21 +0000
Subject: [PATCH 15/16] fix: do not let the backup in overwrite_json replace an
 existing file

---
 src/Auxillary/aux_json/Aux_json.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Auxillary/aux_json/Aux_json.cpp b/src/Auxillary/aux_json/Aux_json.cpp
index ed9bd3d..061981c 100644
--- a/src/Auxillary/aux_json/Aux_json.cpp
+++ b/src/Auxillary/aux_json/Aux_json.cpp
@@ -109,6 +109,10 @@ namespace aux_json {
     // creating a backup if this file existed
     bool had_existed = false;
     std::filesystem::path backup_path = file_path.parent_path() / "tmp_backup";
+    // the backup must not replace a file that happens to have its name.
+    while (std::filesystem::exists(backup_path)) {
+      backup_path += "_";
+    }
     if (std::filesystem::exists(file_path)) {
       had_existed = true;
       std::filesystem::rename(file_path, backup_path);
-- 
2.43.0


From 36b764d6b63334892d01d4c518aff207dc522a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:44 +0000
Subject: [PATCH 16/16] fix: report duplicate ids in initial, control and
 bounds json files

---
 src/Model/Networkproblem/Networkproblem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Model/Networkproblem/Networkproblem.cpp b/src/Model/Networkproblem/Networkproblem.cpp
index 0667343..ff2bb8b 100644
--- a/src/Model/Networkproblem/Networkproblem.cpp
+++ b/src/Model/Networkproblem/Networkproblem.cpp
@@ -61,6 +61,7 @@ namespace Model {
       std::vector<Componenttype *> const &components, nlohmann::json json,
       std::string const &key) {
 
+    Aux::check_for_duplicates(json, key);
     auto ids = get_ids_of_objects(components);
     std::sort(ids.begin(), ids.end());
     auto json_ids = Aux::get_sorted_ids_of_json(json, key);
-- 
2.43.0

