From c96deff90c45aefae50c7c428cb55c16dd6fb703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:48 +0000
Subject: [PATCH 01/36] fix: direct search reports and keeps the best
 parameters instead of the last evaluated ones

---
 src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
index e7194db..bac91f2 100644
--- a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
@@ -292,6 +292,8 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
         """
         # Direct search method
         self._dsm_build()
+        # Update the controls with the best ones found during the search
+        self.controls.update_base_controls(self.best_xx)
 
     def _dsm_build(self):
         """
@@ -333,7 +335,7 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
         """
         final_dict = {
             "Figure of merit": self.FoM_factor * self.best_FoM,
-            "parameters": self.xx,
+            "parameters": self._get_controls(self.best_xx)["parameters"],
             "terminate_reason": self.terminate_reason
         }
         return final_dict
-- 
2.43.0


From f59f66713a19a02549b3d841acedf1746ef6278b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:27 +0000
Subject: [PATCH 02/36] fix: AD super iteration without improvement keeps the
 best controls

---
 src/quocslib/optimizationalgorithms/ADAlgorithm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/quocslib/optimizationalgorithms/ADAlgorithm.py b/src/quocslib/optimizationalgorithms/ADAlgorithm.py
index 6be52c4..e38dac0 100644
--- a/src/quocslib/optimizationalgorithms/ADAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/ADAlgorithm.py
@@ -149,6 +149,8 @@ class ADAlgorithm(OptimizationAlgorithm):
         initial_variation = random_variation * self.controls.get_sigma_variation()
         # Define the initial
         init_xx = self.controls.get_mean_value() + initial_variation
+        # Start from the best controls found so far, so that a super iteration without improvement leaves them unchanged
+        self.best_xx = self.controls.get_mean_value().copy()
 
         def get_gradient(x):
             return np.array(jax.jit(jax.grad(self.get_gradient))(x))
-- 
2.43.0


From 541a9150d4d38b1e34c7df9b1892fac0cbac3812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:15 +0000
Subject: [PATCH 03/36] fix: json dumps accept every numpy scalar type and jax
 arrays

---
 src/quocslib/utils/BestDump.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/quocslib/utils/BestDump.py b/src/quocslib/utils/BestDump.py
index 2d1b59d..d318456 100644
--- a/src/quocslib/utils/BestDump.py
+++ b/src/quocslib/utils/BestDump.py
@@ -23,15 +23,19 @@ from quocslib.utils.AbstractDump import AbstractDump
 
 class NumpyEncoder(json.JSONEncoder):
     """
-    Class to convert numpy arrays to lists for json dumping
+    Class to convert numpy (or jax) arrays and scalars to lists and python scalars for json dumping
     """
     def default(self, obj):
-        if isinstance(obj, np.ndarray):
-            return obj.tolist()
-        elif isinstance(obj, np.float128):
+        if isinstance(obj, np.longdouble):
             # for some reason float128 can lead to the error:
             # TypeError: Object of type float128 is not JSON serializable
-            return np.float64(obj)
+            return float(obj)
+        if isinstance(obj, (np.ndarray, np.generic)) or hasattr(obj, "__array__"):
+            array = np.asarray(obj)
+            # The jax controls are stored in complex arrays, although their values are real
+            if np.iscomplexobj(array) and not np.any(array.imag):
+                array = array.real
+            return array.tolist()
         return json.JSONEncoder.default(self, obj)
 
 
-- 
2.43.0


From ea77cadbd57288cf319341ffc51e6b0e2f7efbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:45 +0000
Subject: [PATCH 04/36] fix: the value of an evaluation with a non-zero status
 code is never used

A figure of merit returned together with a non-zero status code could become
the best one, and a missing one (None) raised a TypeError. The dictionary
returned by the user is no longer modified in place either.
---
 src/quocslib/communication/AllInOneCommunication.py      | 9 ++++++---
 .../optimizationalgorithms/OptimizationAlgorithm.py      | 9 +++++++++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/quocslib/communication/AllInOneCommunication.py b/src/quocslib/communication/AllInOneCommunication.py
index d92a6fc..cfa21b2 100644
--- a/src/quocslib/communication/AllInOneCommunication.py
+++ b/src/quocslib/communication/AllInOneCommunication.py
@@ -157,14 +157,17 @@ class AllInOneCommunication:
         :return dict: {"FoM_values": {"FoM": float, ...}}
         """
         self.logger.debug("User running: {0}".format(self.he_obj.is_user_running))
-        FoM_dict = self.FoM_obj.get_FoM(**self.controls_dict)
-        # multiply by -1 if the optimization is a maximization
-        FoM_dict["FoM"] *= self.FoM_factor
+        # Work on a copy, the dictionary belongs to the user
+        FoM_dict = dict(self.FoM_obj.get_FoM(**self.controls_dict))
         # set the status of the FoM to 0 if it does not exist already
         status_code = FoM_dict.setdefault("status_code", 0)
         # if the user passes a different status code than zero, stop the optimization
         if status_code != 0:
             self.he_obj.is_user_running = False
+        # multiply by -1 if the optimization is a maximization
+        # the figure of merit can be missing when the evaluation failed
+        if FoM_dict["FoM"] is not None or status_code == 0:
+            FoM_dict["FoM"] = FoM_dict["FoM"] * self.FoM_factor
         return {"FoM_values": FoM_dict}
 
     def send_FoM_response(self, response_for_client: dict) -> None:
diff --git a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
index e877651..99fcdcf 100644
--- a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
@@ -202,6 +202,15 @@ class OptimizationAlgorithm:
             return self.FoM_maximum
         # Get the figure of merit and update it to the main algorithm
         self.FoM_dict = self.comm_obj.get_data()["FoM_values"]
+        # The figure of merit of a failed evaluation cannot be used, notify the interruption and finish the optimization
+        if self.FoM_dict["status_code"] != 0:
+            self.comm_obj.send_FoM_response({
+                "is_record": False,
+                "FoM": self.FoM_dict["FoM"],
+                "iteration_number": self.iteration_number,
+                "status_code": self.FoM_dict["status_code"]
+            })
+            return self.FoM_maximum
         # Send the response for the interface
         self.comm_obj.send_FoM_response(self._get_response_for_client())
         # Update the notification file for the interface
-- 
2.43.0


From 98f7e77887434c73309eed3f228946034a104ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:45 +0000
Subject: [PATCH 05/36] fix: gradient based runs can be stopped with Ctrl-C and
 before the first evaluation

---
 src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py        | 2 ++
 src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py b/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
index 598fe38..3f7941f 100644
--- a/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
@@ -200,6 +200,8 @@ class GRAPEAlgorithm(OptimizationAlgorithm):
         initial_variation = random_variation * self.controls.get_sigma_variation()
         # Define the initial
         init_xx = self.controls.get_mean_value() + initial_variation
+        # Without any record (e.g. stopped before the first evaluation) the controls do not change
+        self.best_xx = self.controls.get_mean_value().copy()
         # Optimization with L-BFGS-B
         results = scipy.optimize.minimize(self.inner_routine_call,
                                           init_xx,
diff --git a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
index 99fcdcf..2497380 100644
--- a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
@@ -116,7 +116,9 @@ class OptimizationAlgorithm:
         :return:
         """
         self.higher_order_terminate_reason = "User stopped the optimization"
-        self.dsm_obj.sc_obj.is_converged = True
+        # the gradient based algorithms have no direct search method
+        if hasattr(self, "dsm_obj"):
+            self.dsm_obj.sc_obj.is_converged = True
         self.stop_optimization()
 
     def begin(self) -> None:
-- 
2.43.0


From 7204096e0c59529f2e652b45255c2dee023e5f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:23 +0000
Subject: [PATCH 06/36] fix: a stop during the drift compensation does not
 corrupt the best figure of merit

---
 src/quocslib/gradientfreemethods/NelderMead.py      |  8 ++++++++
 .../optimizationalgorithms/dCRABAlgorithm.py        | 13 ++++++++++---
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/quocslib/gradientfreemethods/NelderMead.py b/src/quocslib/gradientfreemethods/NelderMead.py
index 61b4c15..e7b1c90 100644
--- a/src/quocslib/gradientfreemethods/NelderMead.py
+++ b/src/quocslib/gradientfreemethods/NelderMead.py
@@ -165,6 +165,7 @@ class NelderMead(DirectSearchMethod):
                 drift_comp_timer = (current_time - self.last_drift_compensation_time).total_seconds() / 60.0
                 if drift_comp_timer >= drift_comp_minutes:
                     prev_FoM = fsim[0]
+                    prev_fsim = fsim.copy()
 
                     ### old
                     # fsim[0] = func(sim[0], iterations)
@@ -191,6 +192,13 @@ class NelderMead(DirectSearchMethod):
                             # the same constant change as the current best!
                             fsim[i] = fsim[i] + (fsim[0] - prev_FoM)
                     new_FoM = fsim[0]
+                    # The optimization was stopped during the compensation, i.e. the average is not complete
+                    if self.callback is not None and not self.callback():
+                        fsim = prev_fsim
+                        self.sc_obj.is_converged = True
+                        self.sc_obj.terminate_reason = "User stopped the optimization or higher order " \
+                                                       "stopping criterion has been reached"
+                        break
 
                     self.last_drift_compensation_time = datetime.now()
                     message = f"Previous best FoM: {prev_FoM}, Current best FoM after drift " \
diff --git a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
index 05e2725..c4658e5 100644
--- a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
@@ -229,10 +229,17 @@ class dCRABAlgorithm(OptimizationAlgorithm):
         x0 = self.controls.get_mean_value()
         # Evaluate the FoM with the standard routine call and set the FoM as the current record
         iteration, self.is_record, self.step_number = 0, True, 0
-        new_FoM = 0
+        new_FoM_list = []
         for _ in range(self.compensate_drift_num_average):
-            new_FoM += self._routine_call(x0, iteration)
-        self.best_FoM = new_FoM / self.compensate_drift_num_average
+            new_FoM = self._routine_call(x0, iteration)
+            # No evaluation was made, because the optimization has to stop
+            if new_FoM == self.FoM_maximum:
+                break
+            new_FoM_list.append(new_FoM)
+        # Keep the previous figure of merit if the optimization stopped before the first evaluation
+        if len(new_FoM_list) == 0:
+            return
+        self.best_FoM = sum(new_FoM_list) / len(new_FoM_list)
         # Info message
         message = f"Previous best FoM: {self.FoM_factor*previous_best_FoM}, Current best FoM after drift " \
                   f"compensation ({mode}): {self.FoM_factor*self.best_FoM}"
-- 
2.43.0


From db6fb7c1237985ff1c17bb240c2c4133285f1a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:23 +0000
Subject: [PATCH 07/36] fix: a re-evaluation interrupted by a stop does not
 promote the candidate

---
 .../optimizationalgorithms/DirectSearchAlgorithm.py         | 6 +++++-
 src/quocslib/optimizationalgorithms/dCRABAlgorithm.py       | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
index bac91f2..9d5b650 100644
--- a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
@@ -174,7 +174,11 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
                     if probability < p_level:
                         return mu_1
                     # else: go on with further re-evaluations
-                    self.FoM_test[ii + 1] = self._routine_call(optimized_control_parameters, iterations)
+                    FoM = self._routine_call(optimized_control_parameters, iterations)
+                    # No evaluation was made, because the optimization has to stop: there are not enough statistics
+                    if FoM == self.FoM_maximum:
+                        return mu_1
+                    self.FoM_test[ii + 1] = FoM
                     self.sigma_test[ii + 1] = float(self.FoM_dict.setdefault("std", 1.0))
                     # Increase step number after function evaluation
                     self.step_number += 1
diff --git a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
index c4658e5..26f374f 100644
--- a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
@@ -354,7 +354,11 @@ class dCRABAlgorithm(OptimizationAlgorithm):
                     if probability < p_level:
                         return mu_1
                     # else: go on with further re-evaluations
-                    self.FoM_test[ii + 1] = self._routine_call(optimized_control_parameters, iterations)
+                    FoM = self._routine_call(optimized_control_parameters, iterations)
+                    # No evaluation was made, because the optimization has to stop: there are not enough statistics
+                    if FoM == self.FoM_maximum:
+                        return mu_1
+                    self.FoM_test[ii + 1] = FoM
                     self.sigma_test[ii + 1] = float(self.FoM_dict.setdefault("std", 1.0))
                     # Increase step number after function evaluation
                     self.step_number += 1
-- 
2.43.0


From d1fa77d01826e90567192d428bb4081f9904753c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:26 +0000
Subject: [PATCH 08/36] fix: the seed of a dCRAB run covers the CMA-ES samples

---
 src/quocslib/gradientfreemethods/CMAES.py             |  7 ++++++-
 src/quocslib/optimizationalgorithms/dCRABAlgorithm.py |  1 +
 src/quocslib/tools/randomgenerator.py                 | 11 +++++++++++
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/quocslib/gradientfreemethods/CMAES.py b/src/quocslib/gradientfreemethods/CMAES.py
index 8e3f380..729a66d 100644
--- a/src/quocslib/gradientfreemethods/CMAES.py
+++ b/src/quocslib/gradientfreemethods/CMAES.py
@@ -52,6 +52,7 @@ class CMAES(DirectSearchMethod):
                 initial_simplex=None,
                 drift_comp_minutes=0.0,
                 drift_comp_num_average=1,
+                rng=None,
                 **kwargs) -> dict:
         """
         Function to run the direct search method
@@ -62,6 +63,7 @@ class CMAES(DirectSearchMethod):
         :param np.array initial_simplex: Starting population for CMA-ES
         :param float drift_comp_minutes: Compensate for drift after this number of minutes
         :param int drift_comp_num_average: Number of times the measurement for drift compensation is repeated
+        :param RandomNumberGenerator rng: Random number generator for the samples, the numpy global one is the default
         :return dict: A dictionary with information about the search run
         """
 
@@ -73,6 +75,9 @@ class CMAES(DirectSearchMethod):
 
         N = len(x0)
 
+        # Generator of the normal distributed samples
+        randn = np.random.randn if rng is None else rng.get_normal_random_numbers
+
         xmean = x0
         # Sigma
         sigma = 1.0
@@ -139,7 +144,7 @@ class CMAES(DirectSearchMethod):
                 # TR 2020_04_15: Hansen (2016) here also has arz: arz[:,k] = randn(N,)  standard normally
                 # distributed vector TR 2020_04_15: here we should make sigma dependent on the reasonable amplitude
                 # variation, right?
-                arx[:, k] = xmean + sigma * B.dot(D * np.random.randn(N, ))
+                arx[:, k] = xmean + sigma * B.dot(D * randn(N))
                 # Starting point at the beginning of the SI
                 if counteval == 0:
                     arx[:, k] = xmean
diff --git a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
index 26f374f..deb9d9e 100644
--- a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
@@ -269,6 +269,7 @@ class dCRABAlgorithm(OptimizationAlgorithm):
                                         x0,
                                         initial_simplex=start_simplex,
                                         sigma_v=self.controls.get_sigma_variation(),
+                                        rng=self.rng,
                                         drift_comp_minutes=self.compensate_drift_after_minutes,
                                         drift_comp_num_average=self.compensate_drift_num_average)
         # Update the results
diff --git a/src/quocslib/tools/randomgenerator.py b/src/quocslib/tools/randomgenerator.py
index 0f02e2c..2a4ea1a 100644
--- a/src/quocslib/tools/randomgenerator.py
+++ b/src/quocslib/tools/randomgenerator.py
@@ -74,6 +74,17 @@ class RandomNumberGenerator:
             else:
                 return self.rng.random_sample(n)
 
+    def get_normal_random_numbers(self, n: int):
+        """
+        Return an array of random numbers with standard normal distribution
+
+        :param n: Number of random numbers to generate
+        :return: Array of random numbers
+        """
+        if self.rng is None:
+            return np.random.randn(n)
+        return self.rng.standard_normal(n)
+
 
 # def get_random_numbers(n: int, rng: np.random.Generator = None):
 #     """ Return an array of random numbers between 0 and 1 based on the random generator """
-- 
2.43.0


From 6f39b81bb3fe76f4f52d1ba5131b756a0da498a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:26 +0000
Subject: [PATCH 09/36] fix: the time limit of a direct search counts from the
 start of the run

---
 src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
index 9d5b650..05de0d8 100644
--- a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
@@ -294,6 +294,8 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
         """
         Runs the optimization algorithm
         """
+        # The time limit of the direct search starts with the run
+        self.dsm_obj.sc_obj.reset_direct_search_start_time()
         # Direct search method
         self._dsm_build()
         # Update the controls with the best ones found during the search
-- 
2.43.0


From 2072804f59985816777d56293f812db34e2aa574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:21 +0000
Subject: [PATCH 10/36] fix: the reported termination reason is the one that
 ended the last search

---
 src/quocslib/gradientfreemethods/CMAES.py                | 4 ++--
 src/quocslib/gradientfreemethods/NelderMead.py           | 4 ++--
 src/quocslib/stoppingcriteria/CMAESStoppingCriteria.py   | 9 ++++++---
 .../stoppingcriteria/NelderMeadStoppingCriteria.py       | 9 ++++++---
 src/quocslib/stoppingcriteria/StoppingCriteria.py        | 9 ++++++++-
 5 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/quocslib/gradientfreemethods/CMAES.py b/src/quocslib/gradientfreemethods/CMAES.py
index 729a66d..d568235 100644
--- a/src/quocslib/gradientfreemethods/CMAES.py
+++ b/src/quocslib/gradientfreemethods/CMAES.py
@@ -70,8 +70,8 @@ class CMAES(DirectSearchMethod):
         # Creation of the communication function for the OptimizationAlgorithm object
         calls_number, func = self._get_wrapper(args, func)
 
-        # Set to false is_converged
-        self.sc_obj.is_converged = False
+        # Set to false is_converged and forget the terminate reason of the last search
+        self.sc_obj.reset_convergence()
 
         N = len(x0)
 
diff --git a/src/quocslib/gradientfreemethods/NelderMead.py b/src/quocslib/gradientfreemethods/NelderMead.py
index e7b1c90..27c0e14 100644
--- a/src/quocslib/gradientfreemethods/NelderMead.py
+++ b/src/quocslib/gradientfreemethods/NelderMead.py
@@ -56,8 +56,8 @@ class NelderMead(DirectSearchMethod):
         """
         # Creation of the communication function for the OptimizationAlgorithm object
         calls_number, func = self._get_wrapper(args, func)
-        # Set to false is_converged
-        self.sc_obj.is_converged = False
+        # Set to false is_converged and forget the terminate reason of the last search
+        self.sc_obj.reset_convergence()
         # Initialize the iteration number
         iterations = 0
         # Landscape dimension
diff --git a/src/quocslib/stoppingcriteria/CMAESStoppingCriteria.py b/src/quocslib/stoppingcriteria/CMAESStoppingCriteria.py
index 9594298..baf9bb7 100644
--- a/src/quocslib/stoppingcriteria/CMAESStoppingCriteria.py
+++ b/src/quocslib/stoppingcriteria/CMAESStoppingCriteria.py
@@ -64,13 +64,15 @@ class CMAESStoppingCriteria(StoppingCriteria):
         # self.is_converged, self.terminate_reason = self.check_func_eval_total(func_evaluations_single_direct_search)
         # if self.is_converged: return
 
-        self.is_converged, self.terminate_reason = self.check_func_eval_single_direct_search(
+        self.is_converged, terminate_reason = self.check_func_eval_single_direct_search(
             func_evaluations_single_direct_search)
         if self.is_converged:
+            self.terminate_reason = terminate_reason
             return
 
-        self.is_converged, self.terminate_reason = self.check_f_size(fsim)
+        self.is_converged, terminate_reason = self.check_f_size(fsim)
         if self.is_converged:
+            self.terminate_reason = terminate_reason
             return
 
         # self.is_converged, self.terminate_reason = self.check_goal_reached(fsim[0])
@@ -79,6 +81,7 @@ class CMAESStoppingCriteria(StoppingCriteria):
         # self.is_converged, self.terminate_reason = self.check_total_time_out()
         # if self.is_converged: return
 
-        self.is_converged, self.terminate_reason = self.check_direct_search_time_out()
+        self.is_converged, terminate_reason = self.check_direct_search_time_out()
         if self.is_converged:
+            self.terminate_reason = terminate_reason
             return
diff --git a/src/quocslib/stoppingcriteria/NelderMeadStoppingCriteria.py b/src/quocslib/stoppingcriteria/NelderMeadStoppingCriteria.py
index d8499d6..c1eaecd 100644
--- a/src/quocslib/stoppingcriteria/NelderMeadStoppingCriteria.py
+++ b/src/quocslib/stoppingcriteria/NelderMeadStoppingCriteria.py
@@ -52,17 +52,20 @@ class NelderMeadStoppingCriteria(StoppingCriteria):
         # self.is_converged, self.terminate_reason = self.check_func_eval_total(func_evaluations_single_direct_search)
         # if self.is_converged: return
 
-        self.is_converged, self.terminate_reason = self.check_func_eval_single_direct_search(
+        self.is_converged, terminate_reason = self.check_func_eval_single_direct_search(
             func_evaluations_single_direct_search)
         if self.is_converged:
+            self.terminate_reason = terminate_reason
             return
 
-        self.is_converged, self.terminate_reason = self.check_simplex_criterion(sim)
+        self.is_converged, terminate_reason = self.check_simplex_criterion(sim)
         if self.is_converged:
+            self.terminate_reason = terminate_reason
             return
 
-        self.is_converged, self.terminate_reason = self.check_f_size(fsim)
+        self.is_converged, terminate_reason = self.check_f_size(fsim)
         if self.is_converged:
+            self.terminate_reason = terminate_reason
             return
 
         # self.is_converged, self.terminate_reason = self.check_goal_reached(fsim[0])
diff --git a/src/quocslib/stoppingcriteria/StoppingCriteria.py b/src/quocslib/stoppingcriteria/StoppingCriteria.py
index 662f17a..8f33a69 100644
--- a/src/quocslib/stoppingcriteria/StoppingCriteria.py
+++ b/src/quocslib/stoppingcriteria/StoppingCriteria.py
@@ -49,6 +49,13 @@ class StoppingCriteria:
         #     self.change_based_stop["cbs_funct_evals"] = 1
         self.curr_FoM_track: list = []
 
+    def reset_convergence(self) -> None:
+        """
+        Resets the state and the reason of the termination at the beginning of a new direct search
+        """
+        self.is_converged = False
+        self.terminate_reason = "Global Stopping Criterion reached."
+
     @abstractmethod
     def check_stopping_criteria(self, **kwargs) -> None:
         """
@@ -145,7 +152,6 @@ class StoppingCriteria:
         """
         Check the change-based stopping criterion
         """
-        self.terminate_reason = "Change-based stopping criterion reached."
         cbs_funct_evals = self.change_based_stop["cbs_funct_evals"]
         cbs_change = self.change_based_stop["cbs_change"]
         if len(self.curr_FoM_track) >= cbs_funct_evals:
@@ -155,6 +161,7 @@ class StoppingCriteria:
             # check if the trend of changes is smaller than defined
             if current_change < cbs_change:
                 self.is_converged = True
+                self.terminate_reason = "Change-based stopping criterion reached."
 
     def check_advanced_stopping_criteria(self) -> None:
         """
-- 
2.43.0


From d97d5d90505803b4b5c1e44b3249cc36019b9007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:53 +0000
Subject: [PATCH 11/36] fix: the default Nelder-Mead simplex contains the start
 point

---
 src/quocslib/gradientfreemethods/GradientFreeTemplate.py | 1 +
 src/quocslib/gradientfreemethods/NelderMead.py           | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/quocslib/gradientfreemethods/GradientFreeTemplate.py b/src/quocslib/gradientfreemethods/GradientFreeTemplate.py
index e589f0a..dbb66c9 100644
--- a/src/quocslib/gradientfreemethods/GradientFreeTemplate.py
+++ b/src/quocslib/gradientfreemethods/GradientFreeTemplate.py
@@ -80,6 +80,7 @@ class GradientFreeTemplate(DirectSearchMethod):
             nonzdelt = 0.05
             zdelt = 0.00025
             sim = np.zeros((dim + 1, dim), dtype=x0.dtype)
+            sim[0] = x0
             for k in range(dim):
                 y = np.array(x0, copy=True)
                 if y[k] != 0:
diff --git a/src/quocslib/gradientfreemethods/NelderMead.py b/src/quocslib/gradientfreemethods/NelderMead.py
index 27c0e14..b09c720 100644
--- a/src/quocslib/gradientfreemethods/NelderMead.py
+++ b/src/quocslib/gradientfreemethods/NelderMead.py
@@ -81,6 +81,7 @@ class NelderMead(DirectSearchMethod):
             nonzdelt = 0.05
             zdelt = 0.00025
             sim = np.zeros((dim + 1, dim), dtype=x0.dtype)
+            sim[0] = x0
             for k in range(dim):
                 y = np.array(x0, copy=True)
                 if y[k] != 0:
-- 
2.43.0


From db334807dc21936247780b647b4cfbce1ea5a0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:56 +0000
Subject: [PATCH 12/36] fix: the notification of a drift compensation does not
 count as an evaluation

---
 src/quocslib/gradientfreemethods/NelderMead.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/quocslib/gradientfreemethods/NelderMead.py b/src/quocslib/gradientfreemethods/NelderMead.py
index b09c720..2e8c246 100644
--- a/src/quocslib/gradientfreemethods/NelderMead.py
+++ b/src/quocslib/gradientfreemethods/NelderMead.py
@@ -210,6 +210,8 @@ class NelderMead(DirectSearchMethod):
 
                     # let the OptimizationAlgorithm know we have a new FoM due to drift compensation
                     func(sim[0], iterations, fsim[0])
+                    # this is only a notification and not a function evaluation
+                    calls_number[0] -= 1
 
             # Increase the NM iteration
             iterations += 1
-- 
2.43.0


From 800d39f3273ac0401a42bba0d0cf7a4d92f3470f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:17 +0000
Subject: [PATCH 13/36] fix: the history of a run with re-evaluations holds the
 averages over all measurements

---
 src/quocslib/optimizationalgorithms/dCRABAlgorithm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
index deb9d9e..917eecc 100644
--- a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
@@ -402,8 +402,10 @@ class dCRABAlgorithm(OptimizationAlgorithm):
         # the FoM_test array and the current FoM in the FoM dict
         if mu_sum is None:
             curr_FoM, curr_std = self.FoM_dict["FoM"], self.FoM_dict.setdefault("std", 1.0)
-            mu_sum = np.mean(self.FoM_test[:step_number]) * (step_number - 1) + curr_FoM
-            sigma_sum = (np.mean(self.sigma_test[:step_number]) * (step_number - 1) + curr_std)
+            # The current measurement is not yet in the arrays
+            mu_sum = np.sum(self.FoM_test[:step_number]) + curr_FoM
+            sigma_sum = np.sum(self.sigma_test[:step_number]) + curr_std
+            step_number += 1
         # If it is called inside the _inner_routine_call()
         average_FoM, average_std = mu_sum / step_number, sigma_sum / step_number
         return average_FoM, average_std
-- 
2.43.0


From d5ad5b307424f130fcc0d272b2520cbb574fed0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:29 +0000
Subject: [PATCH 14/36] fix: no control is lost in the best controls file when
 names repeat or look alike

---
 src/quocslib/utils/BestDump.py | 45 ++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/src/quocslib/utils/BestDump.py b/src/quocslib/utils/BestDump.py
index d318456..efff0c2 100644
--- a/src/quocslib/utils/BestDump.py
+++ b/src/quocslib/utils/BestDump.py
@@ -15,6 +15,7 @@
 # ++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++
 import os
 import time
+import zipfile
 import numpy as np
 import json
 
@@ -88,29 +89,39 @@ class BestDump(AbstractDump):
         # else:
         #     time_names = ["time_grid_{}".format(index + 1) for index in range(len(timegrids))]
 
-        for pulse, time_grid in zip(pulses, timegrids):
-            pulse_name = pulse_names[pulse_index]
-            if pulse_name in controls_dict:
-                pulse_name = pulse_name + str(pulse_index + 1)
-            time_name = "time_grid_for_" + pulse_name
-            controls_dict[pulse_name] = pulse
-            controls_dict[time_name] = time_grid
-            pulse_index += 1
-
-        parameter_index = 0
-        parameter_names = []
         if "parameter_names" in {**kwargs}:
             parameter_names = {**kwargs}["parameter_names"]
         else:
             parameter_names = ["parameter_{}".format(index+1) for index in range(len(parameters))]
 
+        # The first control with a certain name keeps it, the names of the additional information are reserved
+        given_names = {*pulse_names, *parameter_names, *kwargs, *("time_grid_for_" + name for name in pulse_names)}
+
+        def get_unique_name(name: str, suffix: int) -> str:
+            """Return the name if it is still available, or add the suffix until it is a new one"""
+            if name not in controls_dict and name not in kwargs:
+                return name
+            name = name + str(suffix)
+            while name in controls_dict or name in given_names:
+                name = name + "_" + str(suffix)
+            return name
+
+        time_grids_dict = {}
+        for pulse, time_grid in zip(pulses, timegrids):
+            pulse_name = get_unique_name(pulse_names[pulse_index], pulse_index + 1)
+            controls_dict[pulse_name] = pulse
+            time_grids_dict[pulse_name] = (time_grid, pulse_index + 1)
+            pulse_index += 1
+
+        parameter_index = 0
         for parameter in parameters:
-            param_name = parameter_names[parameter_index]
-            if param_name in controls_dict:
-                param_name = param_name + str(parameter_index + 1)
+            param_name = get_unique_name(parameter_names[parameter_index], parameter_index + 1)
             controls_dict[param_name] = parameter
             parameter_index += 1
 
+        for pulse_name, (time_grid, suffix) in time_grids_dict.items():
+            controls_dict[get_unique_name("time_grid_for_" + pulse_name, suffix)] = time_grid
+
         # Full dictionary
         full_dict = {**controls_dict, **kwargs}
 
@@ -119,7 +130,11 @@ class BestDump(AbstractDump):
             self.dump_dict("best_controls", full_dict)
         else:
             controls_path = os.path.join(self.results_path, self.date_time + "_best_controls.npz")
-            np.savez(controls_path, **full_dict)
+            # Same as np.savez, which does not accept all the names (e.g. "file")
+            with zipfile.ZipFile(controls_path, "w") as controls_file:
+                for name, value in full_dict.items():
+                    with controls_file.open(name + ".npy", "w", force_zip64=True) as array_file:
+                        np.lib.format.write_array(array_file, np.asanyarray(value))
 
         # if "iteration_number" in full_dict:
         #     iteration_path = os.path.join(self.results_path, self.date_time + "_funct_eval_of_best_controls.txt")
-- 
2.43.0


From 24ae2c760d2f3a86ce47a86bf949249b5b74e3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:32 +0000
Subject: [PATCH 15/36] fix: numpy scalars and callables in the optimization
 dictionary do not truncate its file

---
 src/quocslib/utils/inputoutput.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/quocslib/utils/inputoutput.py b/src/quocslib/utils/inputoutput.py
index a3c41a4..988b4fb 100644
--- a/src/quocslib/utils/inputoutput.py
+++ b/src/quocslib/utils/inputoutput.py
@@ -49,12 +49,12 @@ class ObjectEncoder(json.JSONEncoder):
         """
         Default method to encode objects into json format.
         """
-        if isinstance(obj, np.ndarray):
-            return obj.tolist()
-        if obj is callable:
-            return None
-        if inspect.isclass(obj):
+        if inspect.isclass(obj) or callable(obj):
             return None
+        if isinstance(obj, np.longdouble):
+            return float(obj)
+        if isinstance(obj, (np.ndarray, np.generic)):
+            return obj.tolist()
         return json.JSONEncoder.default(self, obj)
 
 
-- 
2.43.0


From 219548bc256cd1fc40c1806d8db00c59f4eefe63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:49 +0000
Subject: [PATCH 16/36] fix: the file exchange waits for the whole maximum time
 and never discards a value that is there

---
 src/quocslib/utils/FilesUpdateFom.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/quocslib/utils/FilesUpdateFom.py b/src/quocslib/utils/FilesUpdateFom.py
index da90269..4bfa92b 100644
--- a/src/quocslib/utils/FilesUpdateFom.py
+++ b/src/quocslib/utils/FilesUpdateFom.py
@@ -86,14 +86,13 @@ class FilesUpdateFoM(AbstractFoM):
         """
         # Read the FoM
         FoM = None
-        time_counter = 0
-        time_counter_max = self.max_time
+        start_time = time.monotonic()
         # Check if figure of merit file exists
         while not os.path.exists(self.FoM_path):
-            time_counter += 1
-            time.sleep(0.5)
-            if time_counter >= time_counter_max:
+            remaining_time = self.max_time - (time.monotonic() - start_time)
+            if remaining_time <= 0:
                 return {"FoM": FoM, "status_code": -2}
+            time.sleep(min(0.5, remaining_time))
         # Sleep to be sure the file is correctly close
         time.sleep(0.01)
         try:
-- 
2.43.0


From 444637d7eaa298a328c4730818dd59fc5b039292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:51 +0000
Subject: [PATCH 17/36] fix: GRAPE gradients of states given as real arrays

---
 src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py b/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
index 3f7941f..4b1bade 100644
--- a/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
@@ -93,10 +93,11 @@ class GRAPEAlgorithm(OptimizationAlgorithm):
         ###########################################################################################
         # Get the bins number of the first pulse
         self.n_slices = n_slices = self.controls.pulse_objs_list[0].bins_number
-        self.propagator_storage = np.array([np.zeros_like(self.drift_Hamiltonian) for _ in range(n_slices)])
-        self.rho_storage = np.array([np.zeros_like(self.target_state) for _ in range(n_slices + 1)])
+        # The evolved states are complex, also if the initial and target state are given as arrays of real numbers
+        self.propagator_storage = np.array([np.zeros_like(self.drift_Hamiltonian, dtype=complex) for _ in range(n_slices)])
+        self.rho_storage = np.array([np.zeros_like(self.target_state, dtype=complex) for _ in range(n_slices + 1)])
         self.rho_storage[0] = self.initial_state
-        self.corho_storage = np.array([np.zeros_like(self.target_state) for _ in range(n_slices + 1)])
+        self.corho_storage = np.array([np.zeros_like(self.target_state, dtype=complex) for _ in range(n_slices + 1)])
         self.corho_storage[-1] = self.target_state
         ###########################################################################################
         # Other useful variables
-- 
2.43.0


From f928483d1ad462a56388a9d04a0577e36c0cee4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:05 +0000
Subject: [PATCH 18/36] fix: the jax version of the piecewise evolution returns
 the propagators

---
 src/quocslib/timeevolution/piecewise_integrator_AD.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quocslib/timeevolution/piecewise_integrator_AD.py b/src/quocslib/timeevolution/piecewise_integrator_AD.py
index 41728d0..2d91ec9 100644
--- a/src/quocslib/timeevolution/piecewise_integrator_AD.py
+++ b/src/quocslib/timeevolution/piecewise_integrator_AD.py
@@ -58,7 +58,7 @@ def pw_evolution_AD(U_store, drive, A, B, n_slices, dt):
         H = A
         for k in range(K):
             H = H + drive[k, i] * B[k]
-        U_store.at[i].set(jsp.linalg.expm(-1j * dt * H))
+        U_store = U_store.at[i].set(jsp.linalg.expm(-1j * dt * H))
     return U_store
 
 
-- 
2.43.0


From 4c4dfb07273493f7f01294c31fdb2bcdd434794d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:42 +0000
Subject: [PATCH 19/36] fix: the matrix square root of a rank deficient density
 matrix is not NaN

---
 src/quocslib/tools/operations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/quocslib/tools/operations.py b/src/quocslib/tools/operations.py
index fb8777a..58750bb 100644
--- a/src/quocslib/tools/operations.py
+++ b/src/quocslib/tools/operations.py
@@ -26,7 +26,8 @@ def state_to_dm(state: jnp.array):
 def _sqrtm(a):
     eig_vals, V = jnp.linalg.eigh(a)
     # eig_vals = jnp.linalg.eigvals(a)
-    sqrt_eig_vals = jnp.sqrt(eig_vals)
+    # Rounding can make the zero eigenvalues of a positive semi-definite matrix slightly negative
+    sqrt_eig_vals = jnp.sqrt(jnp.where(eig_vals > 0.0, eig_vals, 0.0))
     V_inv = jnp.linalg.inv(V)
     return jnp.matmul(jnp.matmul(V, jnp.diag(sqrt_eig_vals)), V_inv)
 
-- 
2.43.0


From 0784c22cbcc1fca2ae93d2f3b61a0e60a144c8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:42 +0000
Subject: [PATCH 20/36] fix: the partial trace over all subsystems

---
 src/quocslib/tools/partial_trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quocslib/tools/partial_trace.py b/src/quocslib/tools/partial_trace.py
index 59b5906..ec50151 100644
--- a/src/quocslib/tools/partial_trace.py
+++ b/src/quocslib/tools/partial_trace.py
@@ -46,7 +46,7 @@ def jax_partial_trace_transform(subsystem_dims, trace_over_positions):
     mask = create_mask(trace_over_positions, num_subsystems)
 
     # Final reshape
-    remaining_dims = jnp.array([subsystem_dims[i] for i in range(num_subsystems) if i not in trace_over_positions])
+    remaining_dims = jnp.array([subsystem_dims[i] for i in range(num_subsystems) if i not in trace_over_positions], dtype=int)
     remaining_dim = jnp.prod(remaining_dims)
     @jax.jit
     def partial_trace(state: jnp.ndarray):
-- 
2.43.0


From 61c69319002d51b8ad0625519ad808f5dec8a31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:42 +0000
Subject: [PATCH 21/36] fix: Gram-Schmidt of complex vectors

---
 src/quocslib/tools/linearalgebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quocslib/tools/linearalgebra.py b/src/quocslib/tools/linearalgebra.py
index 769f4af..10a88c8 100644
--- a/src/quocslib/tools/linearalgebra.py
+++ b/src/quocslib/tools/linearalgebra.py
@@ -44,7 +44,7 @@ def gram_schmidt(A):
         # each of the previous vectors.
         for k in range(j):
             u_k = A[:, k]
-            A[:, j] -= np.dot(u_k, A[:, j]) * u_k / np.linalg.norm(u_k)**2
+            A[:, j] -= np.vdot(u_k, A[:, j]) * u_k / np.linalg.norm(u_k)**2
         A[:, j] = A[:, j] / np.linalg.norm(A[:, j])
     return A
 
-- 
2.43.0


From 5c292a908811e5d8297941a7d2da29134ddbc23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:42 +0000
Subject: [PATCH 22/36] fix: the Liouvillian of a complex Hamiltonian and the
 vectorisation that belongs to it

---
 src/quocslib/tools/linearalgebra.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/quocslib/tools/linearalgebra.py b/src/quocslib/tools/linearalgebra.py
index 10a88c8..090fb90 100644
--- a/src/quocslib/tools/linearalgebra.py
+++ b/src/quocslib/tools/linearalgebra.py
@@ -118,11 +118,11 @@ def to_sup_op(H):
     """
     dim = np.size(H, 1)
     idm = np.eye(dim)
-    return np.kron(idm, H) - np.kron(H.T.conj(), idm)
+    return np.kron(idm, H) - np.kron(H.T, idm)
 
 
 def to_vec(rho):
     """
-    Take an input rho vector and flatten it into a column
+    Take an input rho matrix and flatten it into a column, i.e. stack its columns as assumed in to_sup_op
     """
-    return rho.flatten()
+    return rho.flatten(order="F")
-- 
2.43.0


From 3956cc0755bed66d3060a6548a6c748a53f5538a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:34 +0000
Subject: [PATCH 23/36] fix: the fidelity of the one qubit problems does not
 depend on the norm of the states

---
 src/quocslib/optimalcontrolproblems/OneQubitProblem.py         | 2 +-
 src/quocslib/optimalcontrolproblems/OneQubitProblem_2fields.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quocslib/optimalcontrolproblems/OneQubitProblem.py b/src/quocslib/optimalcontrolproblems/OneQubitProblem.py
index 907a6ea..920a74a 100644
--- a/src/quocslib/optimalcontrolproblems/OneQubitProblem.py
+++ b/src/quocslib/optimalcontrolproblems/OneQubitProblem.py
@@ -142,4 +142,4 @@ class OneQubit(AbstractFoM):
         :param psi2: state 2
         :return float: Fidelity between psi1 and psi2
         """
-        return np.abs(np.dot(psi1.conj().T, psi2))**2 / (norm(psi1) * norm(psi2))
+        return np.abs(np.dot(psi1.conj().T, psi2))**2 / (norm(psi1) * norm(psi2))**2
diff --git a/src/quocslib/optimalcontrolproblems/OneQubitProblem_2fields.py b/src/quocslib/optimalcontrolproblems/OneQubitProblem_2fields.py
index 4a877f4..3ca1ab7 100644
--- a/src/quocslib/optimalcontrolproblems/OneQubitProblem_2fields.py
+++ b/src/quocslib/optimalcontrolproblems/OneQubitProblem_2fields.py
@@ -112,4 +112,4 @@ class OneQubit2Fields(AbstractFoM):
         :param psi2:
         :return float: Fidelity between psi1 and psi2
         """
-        return np.abs(np.dot(psi1.conj().T, psi2))**2 / (norm(psi1) * norm(psi2))
+        return np.abs(np.dot(psi1.conj().T, psi2))**2 / (norm(psi1) * norm(psi2))**2
-- 
2.43.0


From 38bcaab5476c329c02ff199e624fd6716d06cc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:34 +0000
Subject: [PATCH 24/36] fix: the Rosenbrock problem can be created without
 arguments

---
 src/quocslib/optimalcontrolproblems/RosenbrockProblem.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/quocslib/optimalcontrolproblems/RosenbrockProblem.py b/src/quocslib/optimalcontrolproblems/RosenbrockProblem.py
index 84ae653..aaac300 100644
--- a/src/quocslib/optimalcontrolproblems/RosenbrockProblem.py
+++ b/src/quocslib/optimalcontrolproblems/RosenbrockProblem.py
@@ -29,6 +29,8 @@ class Rosenbrock(AbstractFoM):
         Initialize useful arguments
         :param args_dict: dictionary of arguments
         """
+        if args_dict is None:
+            args_dict = {}
         # Noise in the figure of merit
         self.is_noisy = args_dict.setdefault("is_noisy", False)
         self.noise_factor = args_dict.setdefault("noise_factor", 0.05)
-- 
2.43.0


From 12eb6fff4f32ba8b2bc32f35852b9fcb706c8341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:34 +0000
Subject: [PATCH 25/36] fix: the Ising problem does not use the propagators of
 other controls

---
 src/quocslib/optimalcontrolproblems/IsingModelProblem.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/quocslib/optimalcontrolproblems/IsingModelProblem.py b/src/quocslib/optimalcontrolproblems/IsingModelProblem.py
index 7d25513..432e168 100644
--- a/src/quocslib/optimalcontrolproblems/IsingModelProblem.py
+++ b/src/quocslib/optimalcontrolproblems/IsingModelProblem.py
@@ -194,6 +194,8 @@ class IsingModel(AbstractFoM):
         # Compute the time evolution
         self.prop_store = pw_evolution(self.prop_store, drive, self.H_drift, [self.H_control], n_slices, dt)
         self.propagators_are_computed = True
+        # Remember which controls the propagators belong to
+        self.propagators_controls = (np.array(pulses_list[0]), np.array(time_grid))
         return self.prop_store
 
     def get_FoM(self, pulses: list = [], parameters: list = [], timegrids: list = []) -> dict:
@@ -204,8 +206,9 @@ class IsingModel(AbstractFoM):
         :param timegrids: List of time grids
         :return dict: Figure of merit in a dictionary
         """
-        # Check if the propagator list is computed before compute the final propagator
-        if not self.propagators_are_computed:
+        # Check if the propagator list is computed for these controls before compute the final propagator
+        if not self.propagators_are_computed or not (np.array_equal(self.propagators_controls[0], pulses[0])
+                                                     and np.array_equal(self.propagators_controls[1], timegrids[0])):
             self.get_propagator(pulses_list=pulses, time_grids_list=timegrids, parameters_list=parameters)
         self.propagators_are_computed = False
         # Compute the final propagator
-- 
2.43.0


From 1f6be3772a7eec4ee312b56ce6f8dffd2171aa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:23 +0000
Subject: [PATCH 26/36] fix: the best bare controls contain the pulses found so
 far instead of zeros

---
 src/quocslib/pulses/BasePulse.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/quocslib/pulses/BasePulse.py b/src/quocslib/pulses/BasePulse.py
index 733d1aa..6f28965 100644
--- a/src/quocslib/pulses/BasePulse.py
+++ b/src/quocslib/pulses/BasePulse.py
@@ -376,11 +376,12 @@ class BasePulse:
 
         :param optimized_parameters_vector: The optimized control parameters
         :param final_time: The final time of the pulse
-        :return np.ndarray: The OC update pulse without guess, scaling and constraints
+        :return np.ndarray: The base pulse plus the OC update pulse without guess, scaling and constraints
         """
         self._set_control_parameters(optimized_parameters_vector)
         self._set_time_grid(final_time)
-        return self._get_shaped_pulse()
+        # The pulses of the previous super-iterations belong to the bare pulse
+        return self.base_pulse + self._get_shaped_pulse()
 
     def set_base_pulse(self, optimized_control_parameters: np.ndarray, final_time: float = 1.0) -> None:
         """
-- 
2.43.0


From 2c96dbe9ff88bf66c5ff1e48db1ce6857ebf7fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:22 +0000
Subject: [PATCH 27/36] fix: the history of a direct search with re-evaluations
 holds the averages over all measurements

---
 .../optimizationalgorithms/DirectSearchAlgorithm.py         | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
index 05de0d8..6439f51 100644
--- a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
@@ -221,8 +221,10 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
         # the FoM_test array and the current FoM in the FoM dict
         if mu_sum is None:
             curr_FoM, curr_std = self.FoM_dict["FoM"], self.FoM_dict.setdefault("std", 1.0)
-            mu_sum = np.mean(self.FoM_test[:step_number]) * (step_number - 1) + curr_FoM
-            sigma_sum = (np.mean(self.sigma_test[:step_number]) * (step_number - 1) + curr_std)
+            # The current measurement is not yet in the arrays
+            mu_sum = np.sum(self.FoM_test[:step_number]) + curr_FoM
+            sigma_sum = np.sum(self.sigma_test[:step_number]) + curr_std
+            step_number += 1
         # If it is called inside the _inner_routine_call()
         average_FoM, average_std = mu_sum / step_number, sigma_sum / step_number
         return average_FoM, average_std
-- 
2.43.0


From 1d6accddc6d2d820fc92523faeab0f8b02e2f2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:39 +0000
Subject: [PATCH 28/36] fix: keep the covariance matrix of CMA-ES positive
 definite

Rounding errors of the eigenvalue decomposition made it indefinite for controls
on very different scales, and the run ended with a ValueError.
---
 src/quocslib/gradientfreemethods/CMAES.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/quocslib/gradientfreemethods/CMAES.py b/src/quocslib/gradientfreemethods/CMAES.py
index d568235..c8e19a6 100644
--- a/src/quocslib/gradientfreemethods/CMAES.py
+++ b/src/quocslib/gradientfreemethods/CMAES.py
@@ -199,6 +199,8 @@ class CMAES(DirectSearchMethod):
                     C = np.triu(C) + np.triu(C, 1).T
                     # (lv, B) = np.linalg.eig(C)
                     (lv, B) = linalg.eigh(C)
+                    # Rounding errors should not make the covariance matrix indefinite
+                    lv = np.maximum(lv, np.finfo(float).eps * np.max(lv))
                     D = np.sqrt(lv)
                     invsqrtC = B.dot(np.diag(1 / D).dot(B.T))
 
-- 
2.43.0


From 5094047f535f41d6dc264969485cd07ae0a7fa2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:15 +0000
Subject: [PATCH 29/36] fix: ctrl + c stops the running optimization when
 another optimizer was created after it

---
 src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
index 2497380..b31b2a1 100644
--- a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
@@ -125,6 +125,9 @@ class OptimizationAlgorithm:
         """
         Initialize the communication with the client
         """
+        # Another optimizer may have been created since, ctrl + c stops the one which is running
+        if threading.current_thread() is threading.main_thread():
+            signal.signal(signal.SIGINT, self.handle_user_cancellation)
         # Open the log with the QuOCS version number
         self.comm_obj.print_logger("QuOCS version number: {0}".format(QUOCSLIB_VERSION))
         # Send starting message to the interface
-- 
2.43.0


From 3809eb566d02ee750f6c4077e3127a30dbaa5535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:52 +0000
Subject: [PATCH 30/36] fix: a stop just before an evaluation does not count
 this evaluation

---
 src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
index b31b2a1..4c72152 100644
--- a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
@@ -189,8 +189,6 @@ class OptimizationAlgorithm:
             return self.FoM_maximum
         # Update parameter array and iteration number
         self.xx, self.alg_iteration_number = optimized_control_parameters, iterations
-        # Update iteration number
-        self.iteration_number += 1
         # General workflow
         # Check interface update
         self.comm_obj.check_msg_client()
@@ -205,6 +203,8 @@ class OptimizationAlgorithm:
         is_running = self.comm_obj.get_user_running()
         if not is_running:
             return self.FoM_maximum
+        # Update iteration number
+        self.iteration_number += 1
         # Get the figure of merit and update it to the main algorithm
         self.FoM_dict = self.comm_obj.get_data()["FoM_values"]
         # The figure of merit of a failed evaluation cannot be used, notify the interruption and finish the optimization
-- 
2.43.0


From 1abbcaa29c93b3781174dd2240641e0726481f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:25 +0000
Subject: [PATCH 31/36] fix: the best-controls file has the evaluated controls
 also if the figure of merit changes its arguments

---
 src/quocslib/communication/AllInOneCommunication.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/quocslib/communication/AllInOneCommunication.py b/src/quocslib/communication/AllInOneCommunication.py
index cfa21b2..f1daac9 100644
--- a/src/quocslib/communication/AllInOneCommunication.py
+++ b/src/quocslib/communication/AllInOneCommunication.py
@@ -14,6 +14,7 @@
 #  limitations under the License.
 # ++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++
 
+import copy
 import os
 import time
 import datetime
@@ -157,8 +158,10 @@ class AllInOneCommunication:
         :return dict: {"FoM_values": {"FoM": float, ...}}
         """
         self.logger.debug("User running: {0}".format(self.he_obj.is_user_running))
+        # The user gets a copy of the controls, since they are also dumped after the evaluation
+        controls_dict = copy.deepcopy(self.controls_dict)
         # Work on a copy, the dictionary belongs to the user
-        FoM_dict = dict(self.FoM_obj.get_FoM(**self.controls_dict))
+        FoM_dict = dict(self.FoM_obj.get_FoM(**controls_dict))
         # set the status of the FoM to 0 if it does not exist already
         status_code = FoM_dict.setdefault("status_code", 0)
         # if the user passes a different status code than zero, stop the optimization
-- 
2.43.0


From c2509af44b49e94defdd87aeb56ba687233e0c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:05 +0000
Subject: [PATCH 32/36] fix: a prepared run keeps its change-based stop when
 the dictionary is changed for the next one

---
 src/quocslib/stoppingcriteria/StoppingCriteria.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/quocslib/stoppingcriteria/StoppingCriteria.py b/src/quocslib/stoppingcriteria/StoppingCriteria.py
index 8f33a69..e93caae 100644
--- a/src/quocslib/stoppingcriteria/StoppingCriteria.py
+++ b/src/quocslib/stoppingcriteria/StoppingCriteria.py
@@ -14,6 +14,7 @@
 #  limitations under the License.
 # ++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++
 from abc import abstractmethod
+from copy import copy
 import numpy as np
 from datetime import datetime
 import logging
@@ -41,10 +42,11 @@ class StoppingCriteria:
         self.max_eval = stopping_criteria.setdefault("max_eval", 10**10)
         self.time_lim = stopping_criteria.setdefault("time_lim", 10**10)
         self.direct_search_start_time = datetime.now()
-        self.change_based_stop = stopping_criteria.setdefault("change_based_stop", {
+        # Work on a copy, the dictionary can be used again with other settings
+        self.change_based_stop = copy(stopping_criteria.setdefault("change_based_stop", {
             "cbs_funct_evals": 1,
             "cbs_change": 0
-        })
+        }))
         # if "cbs_funct_evals" not in self.change_based_stop:
         #     self.change_based_stop["cbs_funct_evals"] = 1
         self.curr_FoM_track: list = []
-- 
2.43.0


From 9ffbbb0692fcf9a78e8418cf7ce843796317028e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:44 +0000
Subject: [PATCH 33/36] fix: a prepared run keeps its list functions and
 re-evaluation steps when the arrays they came from are changed

---
 src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py | 2 +-
 src/quocslib/optimizationalgorithms/dCRABAlgorithm.py        | 2 +-
 src/quocslib/pulses/BasePulse.py                             | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
index 6439f51..0be2fe5 100644
--- a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
@@ -82,7 +82,7 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
         if "re_evaluation" in alg_parameters:
             re_evaluation_parameters = alg_parameters["re_evaluation"]
             if "re_evaluation_steps" in re_evaluation_parameters:
-                self.re_evaluation_steps = np.asarray(re_evaluation_parameters["re_evaluation_steps"], dtype=float)
+                self.re_evaluation_steps = np.array(re_evaluation_parameters["re_evaluation_steps"], dtype=float)
             else:
                 self.re_evaluation_steps = np.asarray([0.3, 0.5, 0.501], dtype=float)
                 message = "Steps not found. The default will be used in the optimization: {0}".format(
diff --git a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
index 917eecc..ef17f28 100644
--- a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
@@ -93,7 +93,7 @@ class dCRABAlgorithm(OptimizationAlgorithm):
         if "re_evaluation" in alg_parameters:
             re_evaluation_parameters = alg_parameters["re_evaluation"]
             if "re_evaluation_steps" in re_evaluation_parameters:
-                self.re_evaluation_steps = np.asarray(re_evaluation_parameters["re_evaluation_steps"], dtype=float)
+                self.re_evaluation_steps = np.array(re_evaluation_parameters["re_evaluation_steps"], dtype=float)
             else:
                 self.re_evaluation_steps = np.asarray([0.3, 0.5, 0.501], dtype=float)
                 message = "Steps not found. The default will be used in the optimization: {0}".format(
diff --git a/src/quocslib/pulses/BasePulse.py b/src/quocslib/pulses/BasePulse.py
index 6f28965..7a74d87 100644
--- a/src/quocslib/pulses/BasePulse.py
+++ b/src/quocslib/pulses/BasePulse.py
@@ -118,7 +118,7 @@ class BasePulse:
         if function_type == "lambda_function":
             initial_guess_pulse = eval(initial_guess["lambda_function"])
         elif function_type == "list_function":
-            initial_guess_pulse = np.asarray(initial_guess["list_function"])
+            initial_guess_pulse = np.array(initial_guess["list_function"])
         elif function_type == "python_file":
             guess_file_path = initial_guess.setdefault("file_path", "")
             # check if filename ends with .py and if not, add it
@@ -154,7 +154,7 @@ class BasePulse:
         if function_type == "lambda_function":
             scaling_function = eval(scaling_function["lambda_function"])
         elif function_type == "list_function":
-            scaling_function = np.asarray(scaling_function["list_function"])
+            scaling_function = np.array(scaling_function["list_function"])
         elif function_type == "python_file":
             scaling_file_path = scaling_function.setdefault("file_path", "")
             # check if filename ends with .py and if not, add it
-- 
2.43.0


From 5e670828476306eaa5f6f6648495cad2ab0813f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:44 +0000
Subject: [PATCH 34/36] fix: a guess or scaling function which changes its
 times in place does not change the time grid of the pulse

---
 src/quocslib/pulses/BasePulse.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/quocslib/pulses/BasePulse.py b/src/quocslib/pulses/BasePulse.py
index 7a74d87..24a0369 100644
--- a/src/quocslib/pulses/BasePulse.py
+++ b/src/quocslib/pulses/BasePulse.py
@@ -410,7 +410,7 @@ class BasePulse:
     def _get_scaling_function(self) -> np.ndarray:
         """ Get the array scaling function """
         if isinstance(self.scaling_function, Callable):
-            scaling_function_t = self.scaling_function(self.time_grid)
+            scaling_function_t = self.scaling_function(self.time_grid.copy())
         elif isinstance(self.scaling_function, self.array_type):
             scaling_function_t = self.scaling_function
         else:
@@ -426,7 +426,7 @@ class BasePulse:
         :return np.ndarray: The initial guess pulse
         """
         if isinstance(self.initial_guess_pulse, Callable):
-            initial_guess_t = self.initial_guess_pulse(self.time_grid)
+            initial_guess_t = self.initial_guess_pulse(self.time_grid.copy())
         elif isinstance(self.initial_guess_pulse, self.array_type):
             initial_guess_t = self.initial_guess_pulse
         else:
@@ -472,7 +472,7 @@ class BasePulse:
         if isinstance(self.scaling_function, Callable):
             sig = signature(self.scaling_function)
             if len(sig.parameters) == 2:
-                return self.scaling_function(self.time_grid, pulse)
+                return self.scaling_function(self.time_grid.copy(), pulse)
             else:
                 return self._get_scaling_function() * pulse
         else:
-- 
2.43.0


From 53de898362cc836f957c34100cf42886da51860e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:44 +0000
Subject: [PATCH 35/36] fix: the names of controls and the bins of a piecewise
 pulse can be left out, as documented

---
 src/quocslib/Controls.py                                    | 2 +-
 .../optimizationalgorithms/OptimizationAlgorithm.py         | 6 +++---
 src/quocslib/pulses/basis/PiecewiseBasis.py                 | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/quocslib/Controls.py b/src/quocslib/Controls.py
index 8e8481d..e3bc912 100644
--- a/src/quocslib/Controls.py
+++ b/src/quocslib/Controls.py
@@ -76,7 +76,7 @@ class Controls:
         ###############################################
         self.times_number = len(times_list)
         for time in times_list:
-            self.times_obj_dictionary[time["time_name"]] = TimeParameter(**time)
+            self.times_obj_dictionary[time.get("time_name", "time")] = TimeParameter(**time)
             # TODO Implement the time optimization here
 
         # Custom get control functions for AD
diff --git a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
index 4c72152..2af54fc 100644
--- a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
@@ -320,13 +320,13 @@ class OptimizationAlgorithm:
         """Return the names of the pulses, parameters and times"""
         pulse_name_list = []
         for pulse_dict in self.optimization_dict["pulses"]:
-            pulse_name_list.append(pulse_dict["pulse_name"])
+            pulse_name_list.append(pulse_dict.get("pulse_name", "pulse"))
         parameter_name_list = []
         for param_dict in self.optimization_dict["parameters"]:
-            parameter_name_list.append(param_dict["parameter_name"])
+            parameter_name_list.append(param_dict.get("parameter_name", "parameter"))
         time_name_list = []
         for time_dict in self.optimization_dict["times"]:
-            time_name_list.append(time_dict["time_name"])
+            time_name_list.append(time_dict.get("time_name", "time"))
         return {"pulse_names": pulse_name_list, "parameter_names": parameter_name_list, "time_names": time_name_list}
 
     def end(self) -> None:
diff --git a/src/quocslib/pulses/basis/PiecewiseBasis.py b/src/quocslib/pulses/basis/PiecewiseBasis.py
index 2b0336a..8af39be 100644
--- a/src/quocslib/pulses/basis/PiecewiseBasis.py
+++ b/src/quocslib/pulses/basis/PiecewiseBasis.py
@@ -38,7 +38,7 @@ class PiecewiseBasis(BasePulse):
         :param RandomNumberGenerator rng: The random number generator object.
         :param bool is_AD: Flag to indicate if the pulse is used in the AD optimization.
         """
-        self.control_parameters_number = pulse_dictionary["bins_number"]
+        self.control_parameters_number = pulse_dictionary.setdefault("bins_number", 101)
         super().__init__(map_index=map_index, rng=rng, is_AD=is_AD, **pulse_dictionary)
         #################
         # Basis dependent settings
-- 
2.43.0


From 6b47e6d7b66f0364fa4cd21945b1f305043d9720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:56 +0000
Subject: [PATCH 36/36] fix: document the default initial value of a parameter
 that is used

---
 Documentation/Settings_in_Optimization_Dict.md | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Documentation/Settings_in_Optimization_Dict.md b/Documentation/Settings_in_Optimization_Dict.md
index f7a7468..3c12904 100644
--- a/Documentation/Settings_in_Optimization_Dict.md
+++ b/Documentation/Settings_in_Optimization_Dict.md
@@ -336,7 +336,7 @@ Parameters are values that are constant during the application of a pulse (or se
 |**"parameter_name"** |*string*| A name that can be assigned to the parameter. *(Default: "parameter")* |
 |**"lower_limit"** |*float*| Lower limit of the parameter. *(Default: 0.1)* |
 |**"upper_limit"** |*float*| Upper limit of the parameter. *(Default: 1.1)* |
-|**"initial_value"** |*float*| Initial value of the parameter. *(Default: 0.1)* |
+|**"initial_value"** |*float*| Initial value of the parameter. *(Default: 1.0)* |
 |**"amplitude_variation"** *(optional)* |*float*| Reasonable initial variation of the parameter during optimization. *(Default: 0.1)* |
 
 
-- 
2.43.0

