From 06abc4fd48aac126c0a201a828fd694bb9ed1b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:40 +0000
Subject: [PATCH 01/33] fix: write numpy scalars and jax arrays into the json
 result files

A figure of merit returned as np.float32, or any other numpy or jax scalar
that is not a Python float, made execute() fail with a TypeError when the
results were written.
---
 src/quocslib/utils/BestDump.py    | 6 ++++++
 src/quocslib/utils/inputoutput.py | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/src/quocslib/utils/BestDump.py b/src/quocslib/utils/BestDump.py
index 2d1b59d..475ff89 100644
--- a/src/quocslib/utils/BestDump.py
+++ b/src/quocslib/utils/BestDump.py
@@ -32,6 +32,12 @@ class NumpyEncoder(json.JSONEncoder):
             # for some reason float128 can lead to the error:
             # TypeError: Object of type float128 is not JSON serializable
             return np.float64(obj)
+        elif hasattr(obj, "tolist"):
+            # any other numpy scalar (float32, int64, ...) or a jax array
+            return obj.tolist()
+        elif isinstance(obj, complex):
+            # the controls of AD are real numbers of complex type
+            return obj.real if obj.imag == 0 else [obj.real, obj.imag]
         return json.JSONEncoder.default(self, obj)
 
 
diff --git a/src/quocslib/utils/inputoutput.py b/src/quocslib/utils/inputoutput.py
index a3c41a4..3045ae5 100644
--- a/src/quocslib/utils/inputoutput.py
+++ b/src/quocslib/utils/inputoutput.py
@@ -51,6 +51,8 @@ class ObjectEncoder(json.JSONEncoder):
         """
         if isinstance(obj, np.ndarray):
             return obj.tolist()
+        if isinstance(obj, np.generic):
+            return obj.item()
         if obj is callable:
             return None
         if inspect.isclass(obj):
-- 
2.43.0


From 84a2c86e6bba4abbfa7e9e36e5d2a7f2a53006c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:40 +0000
Subject: [PATCH 02/33] fix: replace the best controls and results files
 atomically

The previous best controls were truncated before the new ones were written:
a kill or a failing disk in between left a partial file and lost the best
controls found so far.
---
 src/quocslib/utils/BestDump.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/quocslib/utils/BestDump.py b/src/quocslib/utils/BestDump.py
index 475ff89..1cb02e3 100644
--- a/src/quocslib/utils/BestDump.py
+++ b/src/quocslib/utils/BestDump.py
@@ -121,7 +121,7 @@ class BestDump(AbstractDump):
             self.dump_dict("best_controls", full_dict)
         else:
             controls_path = os.path.join(self.results_path, self.date_time + "_best_controls.npz")
-            np.savez(controls_path, **full_dict)
+            self._write_file(controls_path, lambda file: np.savez(file, **full_dict))
 
         # if "iteration_number" in full_dict:
         #     iteration_path = os.path.join(self.results_path, self.date_time + "_funct_eval_of_best_controls.txt")
@@ -150,6 +150,25 @@ class BestDump(AbstractDump):
         if data_dict is None:
             data_dict = {}
         data_dict_path = os.path.join(self.results_path, self.date_time + "_" + data_file_name+'.json')
-        with open(data_dict_path, 'w') as convert_file:
-            convert_file.write(json.dumps(data_dict, indent=4, cls=NumpyEncoder))
+        json_data = json.dumps(data_dict, indent=4, cls=NumpyEncoder).encode()
+        self._write_file(data_dict_path, lambda file: file.write(json_data))
+
+    @staticmethod
+    def _write_file(path: str, write: callable) -> None:
+        """
+        Write a file under a temporary name and move it to its path only when it is complete. In this way a previous
+        version of the file survives if the process is killed or the disk fails in between.
+
+        :param str path: path of the file
+        :param callable write: function writing the content to the binary file object given as argument
+        """
+        temporary_path = path + ".tmp"
+        try:
+            with open(temporary_path, "wb") as temporary_file:
+                write(temporary_file)
+            os.replace(temporary_path, path)
+        except BaseException:
+            if os.path.exists(temporary_path):
+                os.remove(temporary_path)
+            raise
 
-- 
2.43.0


From 32d3354868b197c54dec25784f05852ace809379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:57 +0000
Subject: [PATCH 03/33] fix: let runs with different names create QuOCS_Results
 at the same time

The folder was created after a separate existence test: the second of two
processes started together failed although their own folders differ.
---
 src/quocslib/communication/AllInOneCommunication.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/quocslib/communication/AllInOneCommunication.py b/src/quocslib/communication/AllInOneCommunication.py
index d92a6fc..4f3e044 100644
--- a/src/quocslib/communication/AllInOneCommunication.py
+++ b/src/quocslib/communication/AllInOneCommunication.py
@@ -71,8 +71,7 @@ class AllInOneCommunication:
         ###
         # Optimization folder
         optimization_folder = "QuOCS_Results"
-        if not os.path.isdir(os.path.join(os.getcwd(), optimization_folder)):
-            os.makedirs(os.path.join(os.getcwd(), optimization_folder))
+        os.makedirs(os.path.join(os.getcwd(), optimization_folder), exist_ok=True)
         # Create the folder for logging and results
         self.results_path = os.path.join(os.getcwd(), optimization_folder, self.client_job_name)
         # # check if folder already exists
-- 
2.43.0


From 3292f9e1db052d4744fb9f71d057269f90dda3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:57 +0000
Subject: [PATCH 04/33] fix: do not change the dictionary returned by the user
 and accept a missing FoM

A figure-of-merit object handing out the same dictionary again saw its sign
flipped in place when maximizing, and a failed evaluation with FoM None (as
FilesUpdateFoM returns it) raised a TypeError instead of ending the run.
---
 src/quocslib/communication/AllInOneCommunication.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/quocslib/communication/AllInOneCommunication.py b/src/quocslib/communication/AllInOneCommunication.py
index 4f3e044..bd8a29a 100644
--- a/src/quocslib/communication/AllInOneCommunication.py
+++ b/src/quocslib/communication/AllInOneCommunication.py
@@ -156,9 +156,11 @@ class AllInOneCommunication:
         :return dict: {"FoM_values": {"FoM": float, ...}}
         """
         self.logger.debug("User running: {0}".format(self.he_obj.is_user_running))
-        FoM_dict = self.FoM_obj.get_FoM(**self.controls_dict)
-        # multiply by -1 if the optimization is a maximization
-        FoM_dict["FoM"] *= self.FoM_factor
+        # Use a copy since the dictionary belongs to the user
+        FoM_dict = dict(self.FoM_obj.get_FoM(**self.controls_dict))
+        # multiply by -1 if the optimization is a maximization. There is no value if the evaluation failed
+        if FoM_dict.get("FoM") is not None:
+            FoM_dict["FoM"] = FoM_dict["FoM"] * self.FoM_factor
         # set the status of the FoM to 0 if it does not exist already
         status_code = FoM_dict.setdefault("status_code", 0)
         # if the user passes a different status code than zero, stop the optimization
-- 
2.43.0


From 6105d375d900d0b864d909a0d1c6f7425f283c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:57 +0000
Subject: [PATCH 05/33] fix: never take the value of a failed evaluation as the
 best

A value returned with a non-zero status code was compared with the record
and reported as the optimum when it was better.
---
 src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
index e877651..6146403 100644
--- a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
@@ -202,6 +202,9 @@ class OptimizationAlgorithm:
             return self.FoM_maximum
         # Get the figure of merit and update it to the main algorithm
         self.FoM_dict = self.comm_obj.get_data()["FoM_values"]
+        # A failed evaluation never counts, whatever value comes with it
+        if self.FoM_dict["status_code"] != 0:
+            self.FoM_dict["FoM"] = self.FoM_maximum
         # Send the response for the interface
         self.comm_obj.send_FoM_response(self._get_response_for_client())
         # Update the notification file for the interface
-- 
2.43.0


From f059ca274646096c66fc0b0d2a845d22e8480948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:30 +0000
Subject: [PATCH 06/33] fix: report the best parameters of a direct search, not
 the last ones

The final results and get_best_controls() of DirectSearchAlgorithm held the
parameters evaluated last, next to the figure of merit of the best ones.
---
 src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
index e7194db..9153316 100644
--- a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
@@ -292,6 +292,8 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
         """
         # Direct search method
         self._dsm_build()
+        # Update the controls with the best ones found so far
+        self.controls.update_base_controls(self.best_xx)
 
     def _dsm_build(self):
         """
@@ -333,7 +335,7 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
         """
         final_dict = {
             "Figure of merit": self.FoM_factor * self.best_FoM,
-            "parameters": self.xx,
+            "parameters": self.controls.get_mean_value(),
             "terminate_reason": self.terminate_reason
         }
         return final_dict
-- 
2.43.0


From b8b4f6911c5672c8c00d3cd80455479e123ca575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:30 +0000
Subject: [PATCH 07/33] fix: let Ctrl-C stop GRAPE and AD runs

The interrupt handler used the direct search object, which these algorithms
do not have, and raised an AttributeError out of the optimization.
---
 src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
index 6146403..0b4acd4 100644
--- a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
@@ -116,7 +116,9 @@ class OptimizationAlgorithm:
         :return:
         """
         self.higher_order_terminate_reason = "User stopped the optimization"
-        self.dsm_obj.sc_obj.is_converged = True
+        # check if self.dsm_obj exits
+        if hasattr(self, "dsm_obj"):
+            self.dsm_obj.sc_obj.is_converged = True
         self.stop_optimization()
 
     def begin(self) -> None:
-- 
2.43.0


From 04b98ce310c9ec839285a7356862f5bfb015af22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:30 +0000
Subject: [PATCH 08/33] fix: start GRAPE and every AD super-iteration with a
 defined best vector

A run stopped before its first evaluation failed with an AttributeError, and
an AD super-iteration without improvement applied the best vector of the
previous one a second time.
---
 src/quocslib/optimizationalgorithms/ADAlgorithm.py    | 5 +++++
 src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/src/quocslib/optimizationalgorithms/ADAlgorithm.py b/src/quocslib/optimizationalgorithms/ADAlgorithm.py
index 6be52c4..99a289d 100644
--- a/src/quocslib/optimizationalgorithms/ADAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/ADAlgorithm.py
@@ -132,6 +132,9 @@ class ADAlgorithm(OptimizationAlgorithm):
     def run(self):
         """ Main loop for the optimization algorithm. It runs the super iterations and the inner iterations. """
         for super_it in range(1, self.max_num_si + 1):
+            # Check if the optimization was stopped by the user
+            if not self.is_optimization_running():
+                return
             # Set super iteration number
             self.super_it = super_it
             # Initialize the random super_parameters
@@ -149,6 +152,8 @@ class ADAlgorithm(OptimizationAlgorithm):
         initial_variation = random_variation * self.controls.get_sigma_variation()
         # Define the initial
         init_xx = self.controls.get_mean_value() + initial_variation
+        # Initialize the best xx vector for this SI
+        self.best_xx = self.controls.get_mean_value().copy()
 
         def get_gradient(x):
             return np.array(jax.jit(jax.grad(self.get_gradient))(x))
diff --git a/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py b/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
index 598fe38..412f659 100644
--- a/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
@@ -200,6 +200,8 @@ class GRAPEAlgorithm(OptimizationAlgorithm):
         initial_variation = random_variation * self.controls.get_sigma_variation()
         # Define the initial
         init_xx = self.controls.get_mean_value() + initial_variation
+        # Initialize the best xx vector
+        self.best_xx = self.controls.get_mean_value().copy()
         # Optimization with L-BFGS-B
         results = scipy.optimize.minimize(self.inner_routine_call,
                                           init_xx,
-- 
2.43.0


From b0fff69791e69f1f8462043464c9c9877788b5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:23 +0000
Subject: [PATCH 09/33] fix: discard a re-evaluation candidate whose
 measurements were cut short

When the run stopped between two re-evaluations the missing measurement was
filled with the placeholder 10**10 (or the standard deviation of another
evaluation), and the average of it could become the reported best.
---
 .../optimizationalgorithms/DirectSearchAlgorithm.py         | 6 ++++++
 .../optimizationalgorithms/OptimizationAlgorithm.py         | 6 ++++++
 src/quocslib/optimizationalgorithms/dCRABAlgorithm.py       | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
index 9153316..37cc89b 100644
--- a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
@@ -158,6 +158,9 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
                 self.sigma_test = 0.0 * self.sigma_test
                 # Get the figure of merit from the client
                 self.FoM_test[0] = FoM
+                # The optimization stopped before the candidate was measured
+                if not self.is_measured:
+                    return FoM
                 # TODO: Check if optimization_is_running is necessary here
                 # Get the standard deviation
                 self.sigma_test[0] = float(self.FoM_dict.setdefault("std", 1.0))
@@ -175,6 +178,9 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
                         return mu_1
                     # else: go on with further re-evaluations
                     self.FoM_test[ii + 1] = self._routine_call(optimized_control_parameters, iterations)
+                    # The optimization stopped before all the steps: the candidate cannot become a record
+                    if not self.is_measured:
+                        return mu_1
                     self.sigma_test[ii + 1] = float(self.FoM_dict.setdefault("std", 1.0))
                     # Increase step number after function evaluation
                     self.step_number += 1
diff --git a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
index 0b4acd4..e4d9567 100644
--- a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
@@ -62,6 +62,8 @@ class OptimizationAlgorithm:
         self.init_status = True
         # Random number generator
         self.rng = None
+        # Whether the last routine call really measured a figure of merit
+        self.is_measured = False
         # define message for global stopping criterion
         self.higher_order_terminate_reason = ""
         # Max number of total function evaluations
@@ -148,6 +150,8 @@ class OptimizationAlgorithm:
         :return: float: Return the figure of merit to the inner free gradient method
         """
 
+        # No figure of merit has been measured in this call yet
+        self.is_measured = False
         # check if total maximum number of evals has been reached
         if self.iteration_number >= self.max_eval_total:
             self.higher_order_terminate_reason = "Maximum number of total function evaluations reached"
@@ -207,6 +211,8 @@ class OptimizationAlgorithm:
         # A failed evaluation never counts, whatever value comes with it
         if self.FoM_dict["status_code"] != 0:
             self.FoM_dict["FoM"] = self.FoM_maximum
+        else:
+            self.is_measured = True
         # Send the response for the interface
         self.comm_obj.send_FoM_response(self._get_response_for_client())
         # Update the notification file for the interface
diff --git a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
index 05e2725..2edbc99 100644
--- a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
@@ -331,6 +331,9 @@ class dCRABAlgorithm(OptimizationAlgorithm):
                 self.sigma_test = 0.0 * self.sigma_test
                 # Get the figure of merit from the client
                 self.FoM_test[0] = FoM
+                # The optimization stopped before the candidate was measured
+                if not self.is_measured:
+                    return FoM
                 # TODO: Check if optimization_is_running is necessary here
                 # Get the standard deviation
                 self.sigma_test[0] = float(self.FoM_dict.setdefault("std", 1.0))
@@ -348,6 +351,9 @@ class dCRABAlgorithm(OptimizationAlgorithm):
                         return mu_1
                     # else: go on with further re-evaluations
                     self.FoM_test[ii + 1] = self._routine_call(optimized_control_parameters, iterations)
+                    # The optimization stopped before all the steps: the candidate cannot become a record
+                    if not self.is_measured:
+                        return mu_1
                     self.sigma_test[ii + 1] = float(self.FoM_dict.setdefault("std", 1.0))
                     # Increase step number after function evaluation
                     self.step_number += 1
-- 
2.43.0


From 41a582430da6ee51f93da35fd656b1ac25753e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:02 +0000
Subject: [PATCH 10/33] fix: keep a measured best value when a drift
 compensation is cut short

When the run stopped during the measurements (or one of them was not a
number) the missing ones entered the average as 10**10, which became the
best figure of merit. The best controls file now holds the average, too.
---
 .../gradientfreemethods/NelderMead.py         | 25 ++++++++++++-------
 .../optimizationalgorithms/dCRABAlgorithm.py  | 22 ++++++++++++----
 2 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/src/quocslib/gradientfreemethods/NelderMead.py b/src/quocslib/gradientfreemethods/NelderMead.py
index 61b4c15..ae63ff9 100644
--- a/src/quocslib/gradientfreemethods/NelderMead.py
+++ b/src/quocslib/gradientfreemethods/NelderMead.py
@@ -165,6 +165,7 @@ class NelderMead(DirectSearchMethod):
                 drift_comp_timer = (current_time - self.last_drift_compensation_time).total_seconds() / 60.0
                 if drift_comp_timer >= drift_comp_minutes:
                     prev_FoM = fsim[0]
+                    is_compensated = True
 
                     ### old
                     # fsim[0] = func(sim[0], iterations)
@@ -185,22 +186,28 @@ class NelderMead(DirectSearchMethod):
                             curr_best_fom = 0
                             for j in range(drift_comp_num_average):
                                 curr_best_fom += func(sim[i], iterations)
+                                # Keep the previous values if the optimization stopped or a value is not usable
+                                if np.isnan(curr_best_fom) or (self.callback is not None and not self.callback()):
+                                    is_compensated = False
+                                    break
+                            if not is_compensated:
+                                break
                             fsim[i] = curr_best_fom/drift_comp_num_average
                         else:
                             # here we only shift the rest of the entries by
                             # the same constant change as the current best!
                             fsim[i] = fsim[i] + (fsim[0] - prev_FoM)
-                    new_FoM = fsim[0]
-
                     self.last_drift_compensation_time = datetime.now()
-                    message = f"Previous best FoM: {prev_FoM}, Current best FoM after drift " \
-                              f"compensation (after {drift_comp_minutes} minutes, average " \
-                              f"of {drift_comp_num_average}): {new_FoM}"
-                    logger = logging.getLogger("oc_logger")
-                    logger.info(message)
+                    if is_compensated:
+                        new_FoM = fsim[0]
+                        message = f"Previous best FoM: {prev_FoM}, Current best FoM after drift " \
+                                  f"compensation (after {drift_comp_minutes} minutes, average " \
+                                  f"of {drift_comp_num_average}): {new_FoM}"
+                        logger = logging.getLogger("oc_logger")
+                        logger.info(message)
 
-                    # let the OptimizationAlgorithm know we have a new FoM due to drift compensation
-                    func(sim[0], iterations, fsim[0])
+                        # let the OptimizationAlgorithm know we have a new FoM due to drift compensation
+                        func(sim[0], iterations, fsim[0])
 
             # Increase the NM iteration
             iterations += 1
diff --git a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
index 2edbc99..c9905e3 100644
--- a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
@@ -227,12 +227,24 @@ class dCRABAlgorithm(OptimizationAlgorithm):
         previous_best_FoM = self.best_FoM
         # Get the current best control optimization vector
         x0 = self.controls.get_mean_value()
-        # Evaluate the FoM with the standard routine call and set the FoM as the current record
-        iteration, self.is_record, self.step_number = 0, True, 0
-        new_FoM = 0
+        # Evaluate the FoM with the standard routine call and set the average as the current record
+        iteration, self.step_number = 0, 0
+        measured_FoMs = []
         for _ in range(self.compensate_drift_num_average):
-            new_FoM += self._routine_call(x0, iteration)
-        self.best_FoM = new_FoM / self.compensate_drift_num_average
+            self.is_record = False
+            new_FoM = self._routine_call(x0, iteration)
+            # The optimization stopped before this measurement
+            if not self.is_measured:
+                break
+            measured_FoMs.append(new_FoM)
+        # Keep the previous best FoM if there is no usable measurement
+        if len(measured_FoMs) == 0 or np.isnan(np.mean(measured_FoMs)):
+            return
+        self.best_FoM = np.mean(measured_FoMs)
+        self.comm_obj.update_controls(is_record=True,
+                                      FoM=self.best_FoM,
+                                      super_it=self.super_it,
+                                      iteration_number=self.iteration_number)
         # Info message
         message = f"Previous best FoM: {self.FoM_factor*previous_best_FoM}, Current best FoM after drift " \
                   f"compensation ({mode}): {self.FoM_factor*self.best_FoM}"
-- 
2.43.0


From ed2b2ae445c40bc8db25a9acc93162c2ac2da34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:45 +0000
Subject: [PATCH 11/33] fix: let Ctrl-C stop the optimization that is executed,
 not the last one constructed

---
 src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
index e4d9567..ad8722b 100644
--- a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
@@ -127,6 +127,9 @@ class OptimizationAlgorithm:
         """
         Initialize the communication with the client
         """
+        # The listener for ctrl + c belongs to the optimization that is executed
+        if threading.current_thread() is threading.main_thread():
+            signal.signal(signal.SIGINT, self.handle_user_cancellation)
         # Open the log with the QuOCS version number
         self.comm_obj.print_logger("QuOCS version number: {0}".format(QUOCSLIB_VERSION))
         # Send starting message to the interface
-- 
2.43.0


From fce575bf242a0a047ce5a919c6275452d9d8c8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:00 +0000
Subject: [PATCH 12/33] fix: measure time limits with a clock that does not
 jump

---
 src/quocslib/gradientfreemethods/NelderMead.py     | 14 +++++++-------
 .../OptimizationAlgorithm.py                       |  8 +++-----
 src/quocslib/stoppingcriteria/StoppingCriteria.py  |  9 ++++-----
 3 files changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/quocslib/gradientfreemethods/NelderMead.py b/src/quocslib/gradientfreemethods/NelderMead.py
index ae63ff9..784eddc 100644
--- a/src/quocslib/gradientfreemethods/NelderMead.py
+++ b/src/quocslib/gradientfreemethods/NelderMead.py
@@ -14,8 +14,8 @@
 #  limitations under the License.
 # ++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++
 import numpy as np
-from datetime import datetime
 import logging
+import time
 from quocslib.gradientfreemethods.DirectSearchMethod import DirectSearchMethod
 from quocslib.stoppingcriteria.NelderMeadStoppingCriteria import (
     NelderMeadStoppingCriteria, )
@@ -38,7 +38,7 @@ class NelderMead(DirectSearchMethod):
         # TODO Create it using dynamical import module
         # Stopping criteria object
         self.sc_obj = NelderMeadStoppingCriteria(stopping_criteria)
-        self.search_start_time = datetime.now()
+        self.search_start_time = time.monotonic()
 
     def run_dsm(self, func, x0, args=(),
                 initial_simplex=None,
@@ -63,8 +63,8 @@ class NelderMead(DirectSearchMethod):
         # Landscape dimension
         dim = len(x0)
         # set start time of direct search
-        self.search_start_time = datetime.now()
-        self.last_drift_compensation_time = datetime.now()
+        self.search_start_time = time.monotonic()
+        self.last_drift_compensation_time = time.monotonic()
         # Hyper-parameters for adaptive and not adaptive NM
         if self.is_adaptive:
             f_dim = float(dim)
@@ -161,8 +161,8 @@ class NelderMead(DirectSearchMethod):
             [sim, fsim] = [np.take(sim, ind, 0), np.take(fsim, ind, 0)]
             # do drift compensation
             if (drift_comp_minutes > 0) and not self.sc_obj.is_converged:
-                current_time = datetime.now()
-                drift_comp_timer = (current_time - self.last_drift_compensation_time).total_seconds() / 60.0
+                current_time = time.monotonic()
+                drift_comp_timer = (current_time - self.last_drift_compensation_time) / 60.0
                 if drift_comp_timer >= drift_comp_minutes:
                     prev_FoM = fsim[0]
                     is_compensated = True
@@ -197,7 +197,7 @@ class NelderMead(DirectSearchMethod):
                             # here we only shift the rest of the entries by
                             # the same constant change as the current best!
                             fsim[i] = fsim[i] + (fsim[0] - prev_FoM)
-                    self.last_drift_compensation_time = datetime.now()
+                    self.last_drift_compensation_time = time.monotonic()
                     if is_compensated:
                         new_FoM = fsim[0]
                         message = f"Previous best FoM: {prev_FoM}, Current best FoM after drift " \
diff --git a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
index ad8722b..122e9f6 100644
--- a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
@@ -20,8 +20,8 @@ import signal
 from quocslib.Controls import Controls
 from quocslib.communication.AllInOneCommunication import AllInOneCommunication
 from quocslib import __VERSION__ as QUOCSLIB_VERSION
-from datetime import datetime
 import threading
+import time
 
 from quocslib.gradientfreemethods.DirectSearchMethod import DirectSearchMethod
 
@@ -141,7 +141,7 @@ class OptimizationAlgorithm:
         # Notify it to the client
         self.comm_obj.update_init_msg_server(upd_name=self.comm_obj.client_job_name)
         # set start time of optimization
-        self.optimization_start_time = datetime.now()
+        self.optimization_start_time = time.monotonic()
 
     def _routine_call(self, optimized_control_parameters: np.array, iterations: int) -> float:
         """
@@ -176,8 +176,7 @@ class OptimizationAlgorithm:
 
         # check total optimization time limit
         if self.total_time_lim < 10**10:
-            curr_time = datetime.now()
-            time_passed = (curr_time - self.optimization_start_time).total_seconds() / 60.0
+            time_passed = (time.monotonic() - self.optimization_start_time) / 60.0
 
             if time_passed >= self.total_time_lim:
                 self.higher_order_terminate_reason = "Maximum optimization runtime reached"
@@ -186,7 +185,6 @@ class OptimizationAlgorithm:
                     self.dsm_obj.sc_obj.is_converged = True
                 self.stop_optimization()
 
-        # self.optimization_start_time = datetime.now()
         # Check if the optimization is still running
         is_running = self.comm_obj.get_user_running()
         if not is_running:
diff --git a/src/quocslib/stoppingcriteria/StoppingCriteria.py b/src/quocslib/stoppingcriteria/StoppingCriteria.py
index 662f17a..4c08c48 100644
--- a/src/quocslib/stoppingcriteria/StoppingCriteria.py
+++ b/src/quocslib/stoppingcriteria/StoppingCriteria.py
@@ -15,8 +15,8 @@
 # ++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++
 from abc import abstractmethod
 import numpy as np
-from datetime import datetime
 import logging
+import time
 
 
 class StoppingCriteria:
@@ -40,7 +40,7 @@ class StoppingCriteria:
         self.logger = logging.getLogger("oc_logger")
         self.max_eval = stopping_criteria.setdefault("max_eval", 10**10)
         self.time_lim = stopping_criteria.setdefault("time_lim", 10**10)
-        self.direct_search_start_time = datetime.now()
+        self.direct_search_start_time = time.monotonic()
         self.change_based_stop = stopping_criteria.setdefault("change_based_stop", {
             "cbs_funct_evals": 1,
             "cbs_change": 0
@@ -109,7 +109,7 @@ class StoppingCriteria:
         """
         Resets the direct_search_start_time for a new SI
         """
-        self.direct_search_start_time = datetime.now()
+        self.direct_search_start_time = time.monotonic()
 
     def check_direct_search_time_out(self) -> [bool, str]:
         """
@@ -118,8 +118,7 @@ class StoppingCriteria:
         :return bool is_converged: True if the stopping criterion is fulfilled
         :return str terminate_reason: reason for the terminatiom
         """
-        end_time = datetime.now()
-        minutes_diff = (end_time - self.direct_search_start_time).total_seconds() / 60.0
+        minutes_diff = (time.monotonic() - self.direct_search_start_time) / 60.0
         terminate_reason = "Optimization time for direct search exceeded limit."
         is_converged = False
         if minutes_diff >= self.time_lim:
-- 
2.43.0


From a368d52d9cb98645611b0e6ea3da6c8b87370457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:26 +0000
Subject: [PATCH 13/33] fix: count the time limit of a direct search from its
 start, not from its construction

---
 src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
index 37cc89b..2a264b0 100644
--- a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
@@ -296,6 +296,9 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
         """
         Runs the optimization algorithm
         """
+        # The time limit of the direct search starts here
+        if hasattr(self.dsm_obj.sc_obj, "reset_direct_search_start_time"):
+            self.dsm_obj.sc_obj.reset_direct_search_start_time()
         # Direct search method
         self._dsm_build()
         # Update the controls with the best ones found so far
-- 
2.43.0


From f6546e169324f48d5784aed4539e90d2f656563e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:09 +0000
Subject: [PATCH 14/33] fix: do not carry a NaN measurement over to the next
 re-evaluation candidates

---
 src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py | 4 ++--
 src/quocslib/optimizationalgorithms/dCRABAlgorithm.py        | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
index 2a264b0..80d013c 100644
--- a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
@@ -154,8 +154,8 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
                 # number of steps
                 max_steps_number = re_evaluation_steps.shape[0]
                 # Initialize to zero the FoM_test and the sigma_test arrays
-                self.FoM_test = 0.0 * self.FoM_test
-                self.sigma_test = 0.0 * self.sigma_test
+                self.FoM_test = np.zeros_like(self.FoM_test)
+                self.sigma_test = np.zeros_like(self.sigma_test)
                 # Get the figure of merit from the client
                 self.FoM_test[0] = FoM
                 # The optimization stopped before the candidate was measured
diff --git a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
index c9905e3..f86d450 100644
--- a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
@@ -339,8 +339,8 @@ class dCRABAlgorithm(OptimizationAlgorithm):
                 # number of steps
                 max_steps_number = re_evaluation_steps.shape[0]
                 # Initialize to zero the FoM_test and the sigma_test arrays
-                self.FoM_test = 0.0 * self.FoM_test
-                self.sigma_test = 0.0 * self.sigma_test
+                self.FoM_test = np.zeros_like(self.FoM_test)
+                self.sigma_test = np.zeros_like(self.sigma_test)
                 # Get the figure of merit from the client
                 self.FoM_test[0] = FoM
                 # The optimization stopped before the candidate was measured
-- 
2.43.0


From b099e3cc83a28e27d77c3458603102a22c7020db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:28 +0000
Subject: [PATCH 15/33] fix: let the seed control CMA-ES and direct search runs

---
 src/quocslib/gradientfreemethods/CMAES.py      |  2 +-
 .../gradientfreemethods/DirectSearchMethod.py  |  9 +++++++++
 .../DirectSearchAlgorithm.py                   | 18 +++++++++++++++++-
 .../optimizationalgorithms/dCRABAlgorithm.py   |  2 ++
 src/quocslib/tools/randomgenerator.py          | 11 +++++++++++
 5 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/src/quocslib/gradientfreemethods/CMAES.py b/src/quocslib/gradientfreemethods/CMAES.py
index 8e3f380..3f2cf7f 100644
--- a/src/quocslib/gradientfreemethods/CMAES.py
+++ b/src/quocslib/gradientfreemethods/CMAES.py
@@ -139,7 +139,7 @@ class CMAES(DirectSearchMethod):
                 # TR 2020_04_15: Hansen (2016) here also has arz: arz[:,k] = randn(N,)  standard normally
                 # distributed vector TR 2020_04_15: here we should make sigma dependent on the reasonable amplitude
                 # variation, right?
-                arx[:, k] = xmean + sigma * B.dot(D * np.random.randn(N, ))
+                arx[:, k] = xmean + sigma * B.dot(D * self._get_random_normal_numbers(N))
                 # Starting point at the beginning of the SI
                 if counteval == 0:
                     arx[:, k] = xmean
diff --git a/src/quocslib/gradientfreemethods/DirectSearchMethod.py b/src/quocslib/gradientfreemethods/DirectSearchMethod.py
index 9ad5a99..935c884 100644
--- a/src/quocslib/gradientfreemethods/DirectSearchMethod.py
+++ b/src/quocslib/gradientfreemethods/DirectSearchMethod.py
@@ -14,6 +14,7 @@
 #  limitations under the License.
 # ++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++
 from quocslib.stoppingcriteria.StoppingCriteria import StoppingCriteria
+from quocslib.tools.randomgenerator import RandomNumberGenerator
 import numpy as np
 
 
@@ -51,6 +52,8 @@ class Wrap:
 
 class DirectSearchMethod:
     sc_obj: StoppingCriteria
+    # Random number generator of the optimization algorithm, if it is seeded
+    rng: RandomNumberGenerator = None
 
     def __init__(self):
         """Constructor of the DirectSearchMethod class"""
@@ -61,6 +64,12 @@ class DirectSearchMethod:
     def run_dsm(self, routine_call: callable, x0: np.array, **kwargs):
         raise NotImplementedError("The direct search method must implement the run_dsm function")
 
+    def _get_random_normal_numbers(self, n: int) -> np.array:
+        """Return n random numbers drawn from the standard normal distribution"""
+        if self.rng is None:
+            return np.random.randn(n)
+        return self.rng.get_random_normal_numbers(n)
+
     @staticmethod
     def _get_wrapper(args, func):
         wrap = Wrap(args)
diff --git a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
index 80d013c..a49d7a5 100644
--- a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
@@ -19,6 +19,7 @@ from quocslib.Controls import Controls
 from quocslib.gradientfreemethods.NelderMead import NelderMead
 from quocslib.utils.dynamicimport import dynamic_import
 from quocslib.tools.linearalgebra import simplex_creation
+from quocslib.tools.randomgenerator import RandomNumberGenerator
 import numpy as np
 from scipy.stats import norm
 
@@ -94,6 +95,19 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
             self.sigma_test = np.zeros_like(self.FoM_test)
         else:
             self.re_evaluation_steps = None
+        # Seed for the random number generator
+        if "random_number_generator" in alg_parameters:
+            try:
+                seed_number = alg_parameters["random_number_generator"]["seed_number"]
+                self.rng = RandomNumberGenerator(seed_number=seed_number)
+            except (TypeError, KeyError):
+                default_seed_number = 2022
+                message = "Seed number must be an integer value. Set {0} as a seed number for this optimization".format(
+                    default_seed_number)
+                self.rng = RandomNumberGenerator(seed_number=default_seed_number)
+                self.comm_obj.print_logger(message, level=30)
+        # The direct search method uses the same random numbers
+        self.dsm_obj.rng = self.rng
 
         ###########################################################################################
         # Optimal algorithm variables ###########################################################
@@ -308,7 +322,9 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
         """
         Runs the direct search
         """
-        start_simplex = simplex_creation(self.controls.get_mean_value(), self.controls.get_sigma_variation())
+        start_simplex = simplex_creation(self.controls.get_mean_value(),
+                                         self.controls.get_sigma_variation(),
+                                         rng=self.rng)
         # Initial point for the Start Simplex
         x0 = self.controls.get_mean_value()
         # Initialize the best xx vector for this SI
diff --git a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
index f86d450..260786b 100644
--- a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
@@ -116,6 +116,8 @@ class dCRABAlgorithm(OptimizationAlgorithm):
                     default_seed_number)
                 self.rng = RandomNumberGenerator(seed_number=default_seed_number)
                 self.comm_obj.print_logger(message, level=30)
+        # The direct search method uses the same random numbers
+        self.dsm_obj.rng = self.rng
         # The fact a FoM is a record FoM is decided by the inner call
         self.is_record = False
         # Initialize the step number used during the FoM calculation
diff --git a/src/quocslib/tools/randomgenerator.py b/src/quocslib/tools/randomgenerator.py
index 0f02e2c..12a539e 100644
--- a/src/quocslib/tools/randomgenerator.py
+++ b/src/quocslib/tools/randomgenerator.py
@@ -74,6 +74,17 @@ class RandomNumberGenerator:
             else:
                 return self.rng.random_sample(n)
 
+    def get_random_normal_numbers(self, n: int):
+        """
+        Return an array of random numbers drawn from the standard normal distribution
+
+        :param n: Number of random numbers to generate
+        :return: Array of random numbers
+        """
+        if self.rng is None:
+            return np.random.randn(n)
+        return self.rng.standard_normal(n)
+
 
 # def get_random_numbers(n: int, rng: np.random.Generator = None):
 #     """ Return an array of random numbers between 0 and 1 based on the random generator """
-- 
2.43.0


From 75712f05d6fffe34a01a490bc8d00cecb679d6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:02 +0000
Subject: [PATCH 16/33] fix: log into the results folder of the run that is
 executed

---
 src/quocslib/communication/AllInOneCommunication.py       | 8 ++++++++
 .../optimizationalgorithms/OptimizationAlgorithm.py       | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/src/quocslib/communication/AllInOneCommunication.py b/src/quocslib/communication/AllInOneCommunication.py
index bd8a29a..ed30ef2 100644
--- a/src/quocslib/communication/AllInOneCommunication.py
+++ b/src/quocslib/communication/AllInOneCommunication.py
@@ -90,6 +90,8 @@ class AllInOneCommunication:
             version_file.write("QuOCS library version: {0}".format(quocslib_version))
         # Create logging object
         self.logger = create_logger(self.results_path, self.date_time, create_logfile=create_logfile, console_info=console_info)
+        # The logger is shared in the process, the handlers belong to this run
+        self.log_handlers = list(self.logger.handlers)
         # Print function evaluation and figure of merit
         self.print_general_log = True
         # Figure of merit object
@@ -107,6 +109,10 @@ class AllInOneCommunication:
         if optimization_direction == "maximization":
             self.FoM_factor = -1
 
+    def attach_log_handlers(self):
+        """Direct the shared logger to the log of this run, since another run may have been constructed meanwhile"""
+        self.logger.handlers = list(self.log_handlers)
+
     def print_logger(self, message: str = "", level: int = 20):
         """Print a message in the log"""
         if level <= 10:
@@ -158,6 +164,8 @@ class AllInOneCommunication:
         self.logger.debug("User running: {0}".format(self.he_obj.is_user_running))
         # Use a copy since the dictionary belongs to the user
         FoM_dict = dict(self.FoM_obj.get_FoM(**self.controls_dict))
+        # The user's code may have constructed or executed another run
+        self.attach_log_handlers()
         # multiply by -1 if the optimization is a maximization. There is no value if the evaluation failed
         if FoM_dict.get("FoM") is not None:
             FoM_dict["FoM"] = FoM_dict["FoM"] * self.FoM_factor
diff --git a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
index 122e9f6..aa33dac 100644
--- a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
@@ -130,6 +130,8 @@ class OptimizationAlgorithm:
         # The listener for ctrl + c belongs to the optimization that is executed
         if threading.current_thread() is threading.main_thread():
             signal.signal(signal.SIGINT, self.handle_user_cancellation)
+        # The log belongs to the optimization that is executed as well
+        self.comm_obj.attach_log_handlers()
         # Open the log with the QuOCS version number
         self.comm_obj.print_logger("QuOCS version number: {0}".format(QUOCSLIB_VERSION))
         # Send starting message to the interface
-- 
2.43.0


From 2f1ef701e7e58c57922bfa02dabf00841690dbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:55 +0000
Subject: [PATCH 17/33] fix: wait the full max_time for the figure of merit
 file

---
 src/quocslib/utils/FilesUpdateFom.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/quocslib/utils/FilesUpdateFom.py b/src/quocslib/utils/FilesUpdateFom.py
index da90269..b440ae8 100644
--- a/src/quocslib/utils/FilesUpdateFom.py
+++ b/src/quocslib/utils/FilesUpdateFom.py
@@ -86,14 +86,13 @@ class FilesUpdateFoM(AbstractFoM):
         """
         # Read the FoM
         FoM = None
-        time_counter = 0
-        time_counter_max = self.max_time
+        deadline = time.monotonic() + self.max_time
         # Check if figure of merit file exists
         while not os.path.exists(self.FoM_path):
-            time_counter += 1
-            time.sleep(0.5)
-            if time_counter >= time_counter_max:
+            remaining_time = deadline - time.monotonic()
+            if remaining_time <= 0:
                 return {"FoM": FoM, "status_code": -2}
+            time.sleep(min(0.5, remaining_time))
         # Sleep to be sure the file is correctly close
         time.sleep(0.01)
         try:
-- 
2.43.0


From 800ad68a905e790a12ef4d7420ab53a121d598dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:55 +0000
Subject: [PATCH 18/33] fix: never show the external program a partial controls
 file

---
 src/quocslib/utils/FilesUpdateFom.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/quocslib/utils/FilesUpdateFom.py b/src/quocslib/utils/FilesUpdateFom.py
index b440ae8..a037f59 100644
--- a/src/quocslib/utils/FilesUpdateFom.py
+++ b/src/quocslib/utils/FilesUpdateFom.py
@@ -131,12 +131,15 @@ class FilesUpdateFoM(AbstractFoM):
         :param list time_grids_list: List of np.arrays. One numpy array for each time grid
         :param list parameters_list: List of floats. One float for each parameter
         """
-        with open(self.controls_path, "wb") as controls_file:
+        temporary_path = self.controls_path + ".tmp"
+        with open(temporary_path, "wb") as controls_file:
             for pulse, time_grid in zip(pulses_list, time_grids_list):
                 np.savetxt(controls_file, [pulse], fmt="%f")
                 np.savetxt(controls_file, [time_grid], fmt="%f")
 
             np.savetxt(controls_file, parameters_list, fmt="%f")
+        # The complete file appears under its final name at once
+        os.replace(temporary_path, self.controls_path)
 
     def _put_controls_json(self, pulses_list: list, time_grids_list: list, parameters_list: list):
         """
@@ -160,4 +163,7 @@ class FilesUpdateFoM(AbstractFoM):
         for parameter in parameters_list:
             controls_dict["parameter" + str(parameter_index)] = parameter
             parameter_index += 1
-        writejsonfile(self.controls_path, controls_dict)
+        temporary_path = self.controls_path + ".tmp"
+        if writejsonfile(temporary_path, controls_dict) == 0:
+            # The complete file appears under its final name at once
+            os.replace(temporary_path, self.controls_path)
-- 
2.43.0


From fb24def0bcb17d77fe21b1d06ff806215831e090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:11 +0000
Subject: [PATCH 19/33] fix: include every measurement of a candidate in its
 running average

---
 .../optimizationalgorithms/DirectSearchAlgorithm.py         | 6 ++++--
 src/quocslib/optimizationalgorithms/dCRABAlgorithm.py       | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
index a49d7a5..e64db91 100644
--- a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
@@ -237,8 +237,10 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
         # the FoM_test array and the current FoM in the FoM dict
         if mu_sum is None:
             curr_FoM, curr_std = self.FoM_dict["FoM"], self.FoM_dict.setdefault("std", 1.0)
-            mu_sum = np.mean(self.FoM_test[:step_number]) * (step_number - 1) + curr_FoM
-            sigma_sum = (np.mean(self.sigma_test[:step_number]) * (step_number - 1) + curr_std)
+            mu_sum = np.sum(self.FoM_test[:step_number]) + curr_FoM
+            sigma_sum = np.sum(self.sigma_test[:step_number]) + curr_std
+            # The current measurement is not counted in the step number yet
+            step_number += 1
         # If it is called inside the _inner_routine_call()
         average_FoM, average_std = mu_sum / step_number, sigma_sum / step_number
         return average_FoM, average_std
diff --git a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
index 260786b..556b129 100644
--- a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
@@ -410,8 +410,10 @@ class dCRABAlgorithm(OptimizationAlgorithm):
         # the FoM_test array and the current FoM in the FoM dict
         if mu_sum is None:
             curr_FoM, curr_std = self.FoM_dict["FoM"], self.FoM_dict.setdefault("std", 1.0)
-            mu_sum = np.mean(self.FoM_test[:step_number]) * (step_number - 1) + curr_FoM
-            sigma_sum = (np.mean(self.sigma_test[:step_number]) * (step_number - 1) + curr_std)
+            mu_sum = np.sum(self.FoM_test[:step_number]) + curr_FoM
+            sigma_sum = np.sum(self.sigma_test[:step_number]) + curr_std
+            # The current measurement is not counted in the step number yet
+            step_number += 1
         # If it is called inside the _inner_routine_call()
         average_FoM, average_std = mu_sum / step_number, sigma_sum / step_number
         return average_FoM, average_std
-- 
2.43.0


From 492fb17c57b9249242664f804c65b868452928ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:11 +0000
Subject: [PATCH 20/33] fix: do not count an evaluation prevented by a stop
 during the handover

---
 src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
index aa33dac..208fa22 100644
--- a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
@@ -208,6 +208,8 @@ class OptimizationAlgorithm:
         # Check if the optimization is still running
         is_running = self.comm_obj.get_user_running()
         if not is_running:
+            # The evaluation was not performed
+            self.iteration_number -= 1
             return self.FoM_maximum
         # Get the figure of merit and update it to the main algorithm
         self.FoM_dict = self.comm_obj.get_data()["FoM_values"]
-- 
2.43.0


From 9cf9f54b47c5b6d6137414c8bf1c4a0e5f38a0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:02 +0000
Subject: [PATCH 21/33] fix: report only a termination reason that was really
 met

---
 src/quocslib/gradientfreemethods/CMAES.py                | 2 ++
 src/quocslib/gradientfreemethods/NelderMead.py           | 2 ++
 src/quocslib/stoppingcriteria/CMAESStoppingCriteria.py   | 9 ++++++---
 .../stoppingcriteria/NelderMeadStoppingCriteria.py       | 9 ++++++---
 src/quocslib/stoppingcriteria/StoppingCriteria.py        | 2 +-
 5 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/quocslib/gradientfreemethods/CMAES.py b/src/quocslib/gradientfreemethods/CMAES.py
index 3f2cf7f..189bacf 100644
--- a/src/quocslib/gradientfreemethods/CMAES.py
+++ b/src/quocslib/gradientfreemethods/CMAES.py
@@ -70,6 +70,8 @@ class CMAES(DirectSearchMethod):
 
         # Set to false is_converged
         self.sc_obj.is_converged = False
+        # Nothing has ended this search yet, it can only be ended from outside until a criterion is met
+        self.sc_obj.terminate_reason = "Global Stopping Criterion reached."
 
         N = len(x0)
 
diff --git a/src/quocslib/gradientfreemethods/NelderMead.py b/src/quocslib/gradientfreemethods/NelderMead.py
index 784eddc..302d4ca 100644
--- a/src/quocslib/gradientfreemethods/NelderMead.py
+++ b/src/quocslib/gradientfreemethods/NelderMead.py
@@ -58,6 +58,8 @@ class NelderMead(DirectSearchMethod):
         calls_number, func = self._get_wrapper(args, func)
         # Set to false is_converged
         self.sc_obj.is_converged = False
+        # Nothing has ended this search yet, it can only be ended from outside until a criterion is met
+        self.sc_obj.terminate_reason = "Global Stopping Criterion reached."
         # Initialize the iteration number
         iterations = 0
         # Landscape dimension
diff --git a/src/quocslib/stoppingcriteria/CMAESStoppingCriteria.py b/src/quocslib/stoppingcriteria/CMAESStoppingCriteria.py
index 9594298..baf9bb7 100644
--- a/src/quocslib/stoppingcriteria/CMAESStoppingCriteria.py
+++ b/src/quocslib/stoppingcriteria/CMAESStoppingCriteria.py
@@ -64,13 +64,15 @@ class CMAESStoppingCriteria(StoppingCriteria):
         # self.is_converged, self.terminate_reason = self.check_func_eval_total(func_evaluations_single_direct_search)
         # if self.is_converged: return
 
-        self.is_converged, self.terminate_reason = self.check_func_eval_single_direct_search(
+        self.is_converged, terminate_reason = self.check_func_eval_single_direct_search(
             func_evaluations_single_direct_search)
         if self.is_converged:
+            self.terminate_reason = terminate_reason
             return
 
-        self.is_converged, self.terminate_reason = self.check_f_size(fsim)
+        self.is_converged, terminate_reason = self.check_f_size(fsim)
         if self.is_converged:
+            self.terminate_reason = terminate_reason
             return
 
         # self.is_converged, self.terminate_reason = self.check_goal_reached(fsim[0])
@@ -79,6 +81,7 @@ class CMAESStoppingCriteria(StoppingCriteria):
         # self.is_converged, self.terminate_reason = self.check_total_time_out()
         # if self.is_converged: return
 
-        self.is_converged, self.terminate_reason = self.check_direct_search_time_out()
+        self.is_converged, terminate_reason = self.check_direct_search_time_out()
         if self.is_converged:
+            self.terminate_reason = terminate_reason
             return
diff --git a/src/quocslib/stoppingcriteria/NelderMeadStoppingCriteria.py b/src/quocslib/stoppingcriteria/NelderMeadStoppingCriteria.py
index d8499d6..c1eaecd 100644
--- a/src/quocslib/stoppingcriteria/NelderMeadStoppingCriteria.py
+++ b/src/quocslib/stoppingcriteria/NelderMeadStoppingCriteria.py
@@ -52,17 +52,20 @@ class NelderMeadStoppingCriteria(StoppingCriteria):
         # self.is_converged, self.terminate_reason = self.check_func_eval_total(func_evaluations_single_direct_search)
         # if self.is_converged: return
 
-        self.is_converged, self.terminate_reason = self.check_func_eval_single_direct_search(
+        self.is_converged, terminate_reason = self.check_func_eval_single_direct_search(
             func_evaluations_single_direct_search)
         if self.is_converged:
+            self.terminate_reason = terminate_reason
             return
 
-        self.is_converged, self.terminate_reason = self.check_simplex_criterion(sim)
+        self.is_converged, terminate_reason = self.check_simplex_criterion(sim)
         if self.is_converged:
+            self.terminate_reason = terminate_reason
             return
 
-        self.is_converged, self.terminate_reason = self.check_f_size(fsim)
+        self.is_converged, terminate_reason = self.check_f_size(fsim)
         if self.is_converged:
+            self.terminate_reason = terminate_reason
             return
 
         # self.is_converged, self.terminate_reason = self.check_goal_reached(fsim[0])
diff --git a/src/quocslib/stoppingcriteria/StoppingCriteria.py b/src/quocslib/stoppingcriteria/StoppingCriteria.py
index 4c08c48..eaf4cff 100644
--- a/src/quocslib/stoppingcriteria/StoppingCriteria.py
+++ b/src/quocslib/stoppingcriteria/StoppingCriteria.py
@@ -144,7 +144,6 @@ class StoppingCriteria:
         """
         Check the change-based stopping criterion
         """
-        self.terminate_reason = "Change-based stopping criterion reached."
         cbs_funct_evals = self.change_based_stop["cbs_funct_evals"]
         cbs_change = self.change_based_stop["cbs_change"]
         if len(self.curr_FoM_track) >= cbs_funct_evals:
@@ -154,6 +153,7 @@ class StoppingCriteria:
             # check if the trend of changes is smaller than defined
             if current_change < cbs_change:
                 self.is_converged = True
+                self.terminate_reason = "Change-based stopping criterion reached."
 
     def check_advanced_stopping_criteria(self) -> None:
         """
-- 
2.43.0


From da9684fb1fba0f538e272b6dd78d92e914af0cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:29 +0000
Subject: [PATCH 22/33] fix: keep a shrunk pulse inside its limits despite
 rounding

Rescaling a pulse that exceeds the limits by many orders of magnitude (a long
line-search step of L-BFGS-B in GRAPE) loses so many digits that the shrunk
pulse ended up to 2e-6 (and more) outside the amplitude limits.
---
 src/quocslib/pulses/BasePulse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/quocslib/pulses/BasePulse.py b/src/quocslib/pulses/BasePulse.py
index 733d1aa..695a6ef 100644
--- a/src/quocslib/pulses/BasePulse.py
+++ b/src/quocslib/pulses/BasePulse.py
@@ -355,7 +355,8 @@ class BasePulse:
                 # shift pulse down so that maximum is at zero, shrink, and move up again
                 ui = (ui - temp_max) * correction + np.full(len(ui), temp_max)
 
-        return ui
+        # rounding errors of the rescaling must not lead outside the limits
+        return np.maximum(np.minimum(ui, ub), lb)
 
     def get_pulse(self, optimized_parameters_vector: np.ndarray, final_time: float = 1.0) -> np.ndarray:
         """
-- 
2.43.0


From e1a5659b3b54696cc385e07a1a9c76e7875c2673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:17 +0000
Subject: [PATCH 23/33] fix: include the initial point in the default
 Nelder-Mead simplex

Without an initial_simplex the first vertex was left at the origin, so the
search never evaluated the point it was asked to start from.
---
 src/quocslib/gradientfreemethods/NelderMead.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/quocslib/gradientfreemethods/NelderMead.py b/src/quocslib/gradientfreemethods/NelderMead.py
index 302d4ca..e3d9f64 100644
--- a/src/quocslib/gradientfreemethods/NelderMead.py
+++ b/src/quocslib/gradientfreemethods/NelderMead.py
@@ -83,6 +83,7 @@ class NelderMead(DirectSearchMethod):
             nonzdelt = 0.05
             zdelt = 0.00025
             sim = np.zeros((dim + 1, dim), dtype=x0.dtype)
+            sim[0] = x0
             for k in range(dim):
                 y = np.array(x0, copy=True)
                 if y[k] != 0:
-- 
2.43.0


From 64671e1ad3be6234d6f7e01191ba9d8eb22bd4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:33 +0000
Subject: [PATCH 24/33] fix: keep every control in the best controls file when
 names coincide

---
 src/quocslib/utils/BestDump.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/quocslib/utils/BestDump.py b/src/quocslib/utils/BestDump.py
index 1cb02e3..28d4a53 100644
--- a/src/quocslib/utils/BestDump.py
+++ b/src/quocslib/utils/BestDump.py
@@ -92,7 +92,8 @@ class BestDump(AbstractDump):
 
         for pulse, time_grid in zip(pulses, timegrids):
             pulse_name = pulse_names[pulse_index]
-            if pulse_name in controls_dict:
+            # The name must not be taken by another control or by the information about the record
+            while pulse_name in controls_dict or pulse_name in kwargs:
                 pulse_name = pulse_name + str(pulse_index + 1)
             time_name = "time_grid_for_" + pulse_name
             controls_dict[pulse_name] = pulse
@@ -108,7 +109,7 @@ class BestDump(AbstractDump):
 
         for parameter in parameters:
             param_name = parameter_names[parameter_index]
-            if param_name in controls_dict:
+            while param_name in controls_dict or param_name in kwargs:
                 param_name = param_name + str(parameter_index + 1)
             controls_dict[param_name] = parameter
             parameter_index += 1
-- 
2.43.0


From a43a90b0859e8814f48ac772612b4536e1d6721b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:55 +0000
Subject: [PATCH 25/33] fix: bare controls include the updates of earlier
 super-iterations

---
 src/quocslib/pulses/BasePulse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quocslib/pulses/BasePulse.py b/src/quocslib/pulses/BasePulse.py
index 695a6ef..cf96c4d 100644
--- a/src/quocslib/pulses/BasePulse.py
+++ b/src/quocslib/pulses/BasePulse.py
@@ -381,7 +381,7 @@ class BasePulse:
         """
         self._set_control_parameters(optimized_parameters_vector)
         self._set_time_grid(final_time)
-        return self._get_shaped_pulse()
+        return self.base_pulse + self._get_shaped_pulse()
 
     def set_base_pulse(self, optimized_control_parameters: np.ndarray, final_time: float = 1.0) -> None:
         """
-- 
2.43.0


From 70b7c2796d4279f093d29b8ed376b8ac361406a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:53 +0000
Subject: [PATCH 26/33] fix: do not report a convergence criterion as the
 reason of a Ctrl-C during its check

---
 .../stoppingcriteria/CMAESStoppingCriteria.py | 15 ++++++++------
 .../NelderMeadStoppingCriteria.py             | 20 +++++++++++--------
 2 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/quocslib/stoppingcriteria/CMAESStoppingCriteria.py b/src/quocslib/stoppingcriteria/CMAESStoppingCriteria.py
index baf9bb7..2585948 100644
--- a/src/quocslib/stoppingcriteria/CMAESStoppingCriteria.py
+++ b/src/quocslib/stoppingcriteria/CMAESStoppingCriteria.py
@@ -64,14 +64,16 @@ class CMAESStoppingCriteria(StoppingCriteria):
         # self.is_converged, self.terminate_reason = self.check_func_eval_total(func_evaluations_single_direct_search)
         # if self.is_converged: return
 
-        self.is_converged, terminate_reason = self.check_func_eval_single_direct_search(
+        is_converged, terminate_reason = self.check_func_eval_single_direct_search(
             func_evaluations_single_direct_search)
-        if self.is_converged:
+        if is_converged:
+            self.is_converged = True
             self.terminate_reason = terminate_reason
             return
 
-        self.is_converged, terminate_reason = self.check_f_size(fsim)
-        if self.is_converged:
+        is_converged, terminate_reason = self.check_f_size(fsim)
+        if is_converged:
+            self.is_converged = True
             self.terminate_reason = terminate_reason
             return
 
@@ -81,7 +83,8 @@ class CMAESStoppingCriteria(StoppingCriteria):
         # self.is_converged, self.terminate_reason = self.check_total_time_out()
         # if self.is_converged: return
 
-        self.is_converged, terminate_reason = self.check_direct_search_time_out()
-        if self.is_converged:
+        is_converged, terminate_reason = self.check_direct_search_time_out()
+        if is_converged:
+            self.is_converged = True
             self.terminate_reason = terminate_reason
             return
diff --git a/src/quocslib/stoppingcriteria/NelderMeadStoppingCriteria.py b/src/quocslib/stoppingcriteria/NelderMeadStoppingCriteria.py
index c1eaecd..b05d1ef 100644
--- a/src/quocslib/stoppingcriteria/NelderMeadStoppingCriteria.py
+++ b/src/quocslib/stoppingcriteria/NelderMeadStoppingCriteria.py
@@ -52,19 +52,22 @@ class NelderMeadStoppingCriteria(StoppingCriteria):
         # self.is_converged, self.terminate_reason = self.check_func_eval_total(func_evaluations_single_direct_search)
         # if self.is_converged: return
 
-        self.is_converged, terminate_reason = self.check_func_eval_single_direct_search(
+        is_converged, terminate_reason = self.check_func_eval_single_direct_search(
             func_evaluations_single_direct_search)
-        if self.is_converged:
+        if is_converged:
+            self.is_converged = True
             self.terminate_reason = terminate_reason
             return
 
-        self.is_converged, terminate_reason = self.check_simplex_criterion(sim)
-        if self.is_converged:
+        is_converged, terminate_reason = self.check_simplex_criterion(sim)
+        if is_converged:
+            self.is_converged = True
             self.terminate_reason = terminate_reason
             return
 
-        self.is_converged, terminate_reason = self.check_f_size(fsim)
-        if self.is_converged:
+        is_converged, terminate_reason = self.check_f_size(fsim)
+        if is_converged:
+            self.is_converged = True
             self.terminate_reason = terminate_reason
             return
 
@@ -74,7 +77,8 @@ class NelderMeadStoppingCriteria(StoppingCriteria):
         # self.is_converged, self.terminate_reason = self.check_total_time_out()
         # if self.is_converged: return
 
-        self.is_converged, terminate_reason = self.check_direct_search_time_out()
-        if self.is_converged:
+        is_converged, terminate_reason = self.check_direct_search_time_out()
+        if is_converged:
+            self.is_converged = True
             self.terminate_reason = terminate_reason
             return
-- 
2.43.0


From cd79906641a70df7af75e7f160985f098d879426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:00 +0000
Subject: [PATCH 27/33] fix: CMA-ES stays finite when the covariance becomes
 badly conditioned

---
 src/quocslib/gradientfreemethods/CMAES.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/quocslib/gradientfreemethods/CMAES.py b/src/quocslib/gradientfreemethods/CMAES.py
index 189bacf..82ca841 100644
--- a/src/quocslib/gradientfreemethods/CMAES.py
+++ b/src/quocslib/gradientfreemethods/CMAES.py
@@ -189,6 +189,8 @@ class CMAES(DirectSearchMethod):
 
                 # Adapt step size sigma
                 sigma = sigma * np.exp((cs / damps) * (np.linalg.norm(ps) / chiN - 1))
+                # The step size drifts if the figure of merit is mostly noise, it has to remain a usable number
+                sigma = np.clip(sigma, 1e-100, 1e100)
 
                 # Decomposition of C into into B*diag(D.^2)*B' (diagonalization) to achieve O(N^2)
                 if (counteval - eigeneval) > l_pop / (c1 + cmu) / N / 10:
@@ -196,7 +198,8 @@ class CMAES(DirectSearchMethod):
                     C = np.triu(C) + np.triu(C, 1).T
                     # (lv, B) = np.linalg.eig(C)
                     (lv, B) = linalg.eigh(C)
-                    D = np.sqrt(lv)
+                    # Rounding errors must not make the eigenvalues of a badly conditioned or tiny C negative or zero
+                    D = np.sqrt(np.maximum(lv, max(np.finfo(float).eps * np.max(lv), 1e-200)))
                     invsqrtC = B.dot(np.diag(1 / D).dot(B.T))
 
                 if self.callback is not None:
-- 
2.43.0


From c9942d96136def0a09da35276ae9655ad1dac39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:24 +0000
Subject: [PATCH 28/33] fix: the GRAPE gradient includes the scaling function

---
 src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py b/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
index 412f659..23a679f 100644
--- a/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
@@ -180,6 +180,11 @@ class GRAPEAlgorithm(OptimizationAlgorithm):
                 else:
                     grads[k, t] = 0.0
         grads = grads.flatten()
+        # The control parameters are scaled on their way into the pulse
+        pulse = self.controls.pulse_objs_list[0]
+        steps = pulse.shaping_options
+        if pulse.add_shaped_pulse in steps and pulse.scale_pulse in steps[steps.index(pulse.add_shaped_pulse):]:
+            grads = grads * (pulse.scale_pulse(np.ones(n_slices)) - pulse.scale_pulse(np.zeros(n_slices)))
         # Return the gradient to the main updating function
         return grads
 
-- 
2.43.0


From 52c5bac56566f85d217d52b80e355a1a7959c26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:24 +0000
Subject: [PATCH 29/33] fix: GRAPE with real-valued target states

---
 src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py b/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
index 23a679f..94173f1 100644
--- a/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
@@ -94,9 +94,9 @@ class GRAPEAlgorithm(OptimizationAlgorithm):
         # Get the bins number of the first pulse
         self.n_slices = n_slices = self.controls.pulse_objs_list[0].bins_number
         self.propagator_storage = np.array([np.zeros_like(self.drift_Hamiltonian) for _ in range(n_slices)])
-        self.rho_storage = np.array([np.zeros_like(self.target_state) for _ in range(n_slices + 1)])
+        self.rho_storage = np.array([np.zeros_like(self.target_state, dtype=complex) for _ in range(n_slices + 1)])
         self.rho_storage[0] = self.initial_state
-        self.corho_storage = np.array([np.zeros_like(self.target_state) for _ in range(n_slices + 1)])
+        self.corho_storage = np.array([np.zeros_like(self.target_state, dtype=complex) for _ in range(n_slices + 1)])
         self.corho_storage[-1] = self.target_state
         ###########################################################################################
         # Other useful variables
-- 
2.43.0


From 43ce780a8f496541b1fcd137ceafb9ecd6039254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:37 +0000
Subject: [PATCH 30/33] fix: constructing or executing another run inside an
 evaluation does not take away Ctrl-C

---
 src/quocslib/Optimizer.py                      |  7 +++++--
 .../OptimizationAlgorithm.py                   | 18 ++++++++++++++++--
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/quocslib/Optimizer.py b/src/quocslib/Optimizer.py
index 4a057b8..f652424 100644
--- a/src/quocslib/Optimizer.py
+++ b/src/quocslib/Optimizer.py
@@ -88,8 +88,11 @@ class Optimizer:
         Execute the optimization. It runs the begin(), run() and end() methods of the optimization algorithm.
         """
         self.opt_alg_obj.begin()
-        self.opt_alg_obj.run()
-        self.opt_alg_obj.end()
+        try:
+            self.opt_alg_obj.run()
+            self.opt_alg_obj.end()
+        finally:
+            self.opt_alg_obj.give_back_listener()
 
     def get_optimization_algorithm(self):
         """
diff --git a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
index 208fa22..2a8ad97 100644
--- a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
@@ -93,9 +93,12 @@ class OptimizationAlgorithm:
         # FoM dictionary
         self.FoM_dict = {"FoM": INITIAL_FOM, "std": 0.1}
         self.comm_obj.print_logger(message=message, level=20)
-        # listener for ctrl + c cancellation
+        # listener for ctrl + c cancellation, unless it belongs to an optimization that is executed at the moment
+        self.is_executing = False
         if threading.current_thread() is threading.main_thread():
-            signal.signal(signal.SIGINT, self.handle_user_cancellation)
+            listener = getattr(signal.getsignal(signal.SIGINT), "__self__", None)
+            if not getattr(listener, "is_executing", False):
+                signal.signal(signal.SIGINT, self.handle_user_cancellation)
         # signal.signal(signal.SIGINT, self.handle_user_cancellation)
 
         if "algorithm_settings" in self.optimization_dict:
@@ -117,6 +120,8 @@ class OptimizationAlgorithm:
         :param frame:
         :return:
         """
+        # The user's code may have constructed another run in the current evaluation
+        self.comm_obj.attach_log_handlers()
         self.higher_order_terminate_reason = "User stopped the optimization"
         # check if self.dsm_obj exits
         if hasattr(self, "dsm_obj"):
@@ -128,7 +133,10 @@ class OptimizationAlgorithm:
         Initialize the communication with the client
         """
         # The listener for ctrl + c belongs to the optimization that is executed
+        self.is_executing = True
+        self.previous_listener = None
         if threading.current_thread() is threading.main_thread():
+            self.previous_listener = signal.getsignal(signal.SIGINT)
             signal.signal(signal.SIGINT, self.handle_user_cancellation)
         # The log belongs to the optimization that is executed as well
         self.comm_obj.attach_log_handlers()
@@ -306,6 +314,12 @@ class OptimizationAlgorithm:
         """Function to stop the optimization (inner direct search algorithm)"""
         self.comm_obj.set_is_running_state(value=False)
 
+    def give_back_listener(self) -> None:
+        """Give the listener for ctrl + c back when the optimization is not executed anymore"""
+        self.is_executing = False
+        if self.previous_listener is not None and threading.current_thread() is threading.main_thread():
+            signal.signal(signal.SIGINT, self.previous_listener)
+
     def get_best_controls(self) -> dict:
         """Return the best pulses_list, time_grids_list, and parameters_list found so far"""
         pulses_list, time_grids_list, parameters_list = self.controls.get_final_controls_lists(self.controls.get_mean_value())
-- 
2.43.0


From 59ef541ebb4eea5ac37c7ed988dc0ba6afd56dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:46 +0000
Subject: [PATCH 31/33] fix: save the evaluated controls even if the user's
 code changes them in place

---
 src/quocslib/communication/AllInOneCommunication.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/quocslib/communication/AllInOneCommunication.py b/src/quocslib/communication/AllInOneCommunication.py
index ed30ef2..e90b6b1 100644
--- a/src/quocslib/communication/AllInOneCommunication.py
+++ b/src/quocslib/communication/AllInOneCommunication.py
@@ -14,6 +14,7 @@
 #  limitations under the License.
 # ++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++
 
+import copy
 import os
 import time
 import datetime
@@ -162,8 +163,8 @@ class AllInOneCommunication:
         :return dict: {"FoM_values": {"FoM": float, ...}}
         """
         self.logger.debug("User running: {0}".format(self.he_obj.is_user_running))
-        # Use a copy since the dictionary belongs to the user
-        FoM_dict = dict(self.FoM_obj.get_FoM(**self.controls_dict))
+        # Use a copy since the dictionary belongs to the user, who may also change the controls in place
+        FoM_dict = dict(self.FoM_obj.get_FoM(**copy.deepcopy(self.controls_dict)))
         # The user's code may have constructed or executed another run
         self.attach_log_handlers()
         # multiply by -1 if the optimization is a maximization. There is no value if the evaluation failed
-- 
2.43.0


From c74c712841555802f69e2bb79d9c280f851cfb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:46 +0000
Subject: [PATCH 32/33] fix: changing the settings for the next run does not
 alter a run already constructed

---
 src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py | 2 +-
 src/quocslib/optimizationalgorithms/dCRABAlgorithm.py        | 2 +-
 src/quocslib/pulses/BasePulse.py                             | 4 ++--
 src/quocslib/stoppingcriteria/StoppingCriteria.py            | 5 +++--
 4 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
index e64db91..f3126af 100644
--- a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
@@ -83,7 +83,7 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
         if "re_evaluation" in alg_parameters:
             re_evaluation_parameters = alg_parameters["re_evaluation"]
             if "re_evaluation_steps" in re_evaluation_parameters:
-                self.re_evaluation_steps = np.asarray(re_evaluation_parameters["re_evaluation_steps"], dtype=float)
+                self.re_evaluation_steps = np.array(re_evaluation_parameters["re_evaluation_steps"], dtype=float)
             else:
                 self.re_evaluation_steps = np.asarray([0.3, 0.5, 0.501], dtype=float)
                 message = "Steps not found. The default will be used in the optimization: {0}".format(
diff --git a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
index 556b129..93d05df 100644
--- a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
@@ -93,7 +93,7 @@ class dCRABAlgorithm(OptimizationAlgorithm):
         if "re_evaluation" in alg_parameters:
             re_evaluation_parameters = alg_parameters["re_evaluation"]
             if "re_evaluation_steps" in re_evaluation_parameters:
-                self.re_evaluation_steps = np.asarray(re_evaluation_parameters["re_evaluation_steps"], dtype=float)
+                self.re_evaluation_steps = np.array(re_evaluation_parameters["re_evaluation_steps"], dtype=float)
             else:
                 self.re_evaluation_steps = np.asarray([0.3, 0.5, 0.501], dtype=float)
                 message = "Steps not found. The default will be used in the optimization: {0}".format(
diff --git a/src/quocslib/pulses/BasePulse.py b/src/quocslib/pulses/BasePulse.py
index cf96c4d..2c3e608 100644
--- a/src/quocslib/pulses/BasePulse.py
+++ b/src/quocslib/pulses/BasePulse.py
@@ -118,7 +118,7 @@ class BasePulse:
         if function_type == "lambda_function":
             initial_guess_pulse = eval(initial_guess["lambda_function"])
         elif function_type == "list_function":
-            initial_guess_pulse = np.asarray(initial_guess["list_function"])
+            initial_guess_pulse = np.array(initial_guess["list_function"])
         elif function_type == "python_file":
             guess_file_path = initial_guess.setdefault("file_path", "")
             # check if filename ends with .py and if not, add it
@@ -154,7 +154,7 @@ class BasePulse:
         if function_type == "lambda_function":
             scaling_function = eval(scaling_function["lambda_function"])
         elif function_type == "list_function":
-            scaling_function = np.asarray(scaling_function["list_function"])
+            scaling_function = np.array(scaling_function["list_function"])
         elif function_type == "python_file":
             scaling_file_path = scaling_function.setdefault("file_path", "")
             # check if filename ends with .py and if not, add it
diff --git a/src/quocslib/stoppingcriteria/StoppingCriteria.py b/src/quocslib/stoppingcriteria/StoppingCriteria.py
index eaf4cff..6a51e22 100644
--- a/src/quocslib/stoppingcriteria/StoppingCriteria.py
+++ b/src/quocslib/stoppingcriteria/StoppingCriteria.py
@@ -41,10 +41,11 @@ class StoppingCriteria:
         self.max_eval = stopping_criteria.setdefault("max_eval", 10**10)
         self.time_lim = stopping_criteria.setdefault("time_lim", 10**10)
         self.direct_search_start_time = time.monotonic()
-        self.change_based_stop = stopping_criteria.setdefault("change_based_stop", {
+        # Use a copy since the dictionary belongs to the user, who may change it for the next optimization
+        self.change_based_stop = dict(stopping_criteria.setdefault("change_based_stop", {
             "cbs_funct_evals": 1,
             "cbs_change": 0
-        })
+        }))
         # if "cbs_funct_evals" not in self.change_based_stop:
         #     self.change_based_stop["cbs_funct_evals"] = 1
         self.curr_FoM_track: list = []
-- 
2.43.0


From 543e6c7899b42a8519b92a69debabcf79ffba6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:46 +0000
Subject: [PATCH 33/33] fix: guess and scaling functions that work in place do
 not corrupt the time grid

---
 src/quocslib/pulses/BasePulse.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/quocslib/pulses/BasePulse.py b/src/quocslib/pulses/BasePulse.py
index 2c3e608..aa56a05 100644
--- a/src/quocslib/pulses/BasePulse.py
+++ b/src/quocslib/pulses/BasePulse.py
@@ -409,8 +409,9 @@ class BasePulse:
 
     def _get_scaling_function(self) -> np.ndarray:
         """ Get the array scaling function """
+        # The user's functions get a copy since they may change the time grid in place
         if isinstance(self.scaling_function, Callable):
-            scaling_function_t = self.scaling_function(self.time_grid)
+            scaling_function_t = self.scaling_function(self.time_grid.copy())
         elif isinstance(self.scaling_function, self.array_type):
             scaling_function_t = self.scaling_function
         else:
@@ -426,7 +427,7 @@ class BasePulse:
         :return np.ndarray: The initial guess pulse
         """
         if isinstance(self.initial_guess_pulse, Callable):
-            initial_guess_t = self.initial_guess_pulse(self.time_grid)
+            initial_guess_t = self.initial_guess_pulse(self.time_grid.copy())
         elif isinstance(self.initial_guess_pulse, self.array_type):
             initial_guess_t = self.initial_guess_pulse
         else:
@@ -472,7 +473,7 @@ class BasePulse:
         if isinstance(self.scaling_function, Callable):
             sig = signature(self.scaling_function)
             if len(sig.parameters) == 2:
-                return self.scaling_function(self.time_grid, pulse)
+                return self.scaling_function(self.time_grid.copy(), pulse)
             else:
                 return self._get_scaling_function() * pulse
         else:
-- 
2.43.0

