From ce1367cb53c2fc0a9c159c9425e35eacd14abab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:54 +0000
Subject: [PATCH 01/33] fix: do not reuse placeholder zeros as saved
 starting-model metrics

---
 src/pymars/sampling.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/pymars/sampling.py b/src/pymars/sampling.py
index 2b22cf8..3516263 100644
--- a/src/pymars/sampling.py
+++ b/src/pymars/sampling.py
@@ -406,8 +406,6 @@ def sample_metrics(
 
     ignition_delays = np.array([])
     if ignition_conditions:
-        ignition_delays = np.zeros(len(ignition_conditions))
-
         exists_output = os.path.isfile(data_files["output_ignition"])
         if reuse_saved and exists_output:
             ignition_delays = np.atleast_1d(
@@ -465,8 +463,6 @@ def sample_metrics(
 
     flame_speeds = np.array([])
     if flame_conditions:
-        flame_speeds = np.zeros(len(flame_conditions))
-
         exists_output = os.path.isfile(data_files["output_flame"])
         if reuse_saved and exists_output:
             flame_speeds = np.atleast_1d(
-- 
2.43.0


From fb10d37a1c064b1a993452488acc03b487322cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:54 +0000
Subject: [PATCH 02/33] fix: honour the arguments passed to the command-line
 entry points

---
 src/pymars/__main__.py | 2 +-
 src/pymars/pymars.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymars/__main__.py b/src/pymars/__main__.py
index 6de4472..c518a12 100644
--- a/src/pymars/__main__.py
+++ b/src/pymars/__main__.py
@@ -8,7 +8,7 @@ from .pymars import pymars
 def main(args=None):
     if args is None:
         args = sys.argv[1:]
-        pymars(args)
+    pymars(args)
 
 
 if __name__ == "__main__":
diff --git a/src/pymars/pymars.py b/src/pymars/pymars.py
index 12302a3..aa9e109 100644
--- a/src/pymars/pymars.py
+++ b/src/pymars/pymars.py
@@ -350,7 +350,7 @@ def pymars(argv):
         parser.print_help()
         sys.exit(1)
 
-    args = parser.parse_args()
+    args = parser.parse_args(argv)
 
     if args.version:
         from ._version import __version__
-- 
2.43.0


From 02dbeebe3c30841cac4bf50c073eddd99631fda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:54 +0000
Subject: [PATCH 03/33] fix: write the final reduced model when the loop ends
 within the error limit

---
 src/pymars/drg.py   | 7 +++++--
 src/pymars/drgep.py | 7 +++++--
 src/pymars/pfa.py   | 7 +++++--
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/pymars/drg.py b/src/pymars/drg.py
index e40cf5d..41cd541 100644
--- a/src/pymars/drg.py
+++ b/src/pymars/drg.py
@@ -390,9 +390,12 @@ def run_drg(
             path=path,
         )
     else:
-        soln2yaml.write(
-            reduced_model, f"reduced_{reduced_model.model.n_species}.yaml", path=path
+        reduced_model_filename = soln2yaml.write(
+            reduced_model.model,
+            f"reduced_{reduced_model.model.n_species}.yaml",
+            path=path,
         )
+        reduced_model = reduced_model._replace(filename=reduced_model_filename)
 
     logging.info(45 * "-")
     logging.info("DRG reduction complete.")
diff --git a/src/pymars/drgep.py b/src/pymars/drgep.py
index 6fe0849..10d5646 100644
--- a/src/pymars/drgep.py
+++ b/src/pymars/drgep.py
@@ -525,9 +525,12 @@ def run_drgep(
             path=path,
         )
     else:
-        soln2yaml.write(
-            reduced_model, f"reduced_{reduced_model.model.n_species}.yaml", path=path
+        reduced_model_filename = soln2yaml.write(
+            reduced_model.model,
+            f"reduced_{reduced_model.model.n_species}.yaml",
+            path=path,
         )
+        reduced_model = reduced_model._replace(filename=reduced_model_filename)
 
     if threshold_upper:
         for sp in reduced_model.model.species_names:
diff --git a/src/pymars/pfa.py b/src/pymars/pfa.py
index b1862ce..3f4fee3 100644
--- a/src/pymars/pfa.py
+++ b/src/pymars/pfa.py
@@ -416,9 +416,12 @@ def run_pfa(
             path=path,
         )
     else:
-        soln2yaml.write(
-            reduced_model, f"reduced_{reduced_model.model.n_species}.yaml", path=path
+        reduced_model_filename = soln2yaml.write(
+            reduced_model.model,
+            f"reduced_{reduced_model.model.n_species}.yaml",
+            path=path,
         )
+        reduced_model = reduced_model._replace(filename=reduced_model_filename)
 
     logging.info(45 * "-")
     logging.info("PFA reduction complete.")
-- 
2.43.0


From bb018b7c79112987a7481298c0f273eed84e0344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:06 +0000
Subject: [PATCH 04/33] fix: never remove target species in DRGEP when the
 threshold exceeds one

---
 src/pymars/drgep.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymars/drgep.py b/src/pymars/drgep.py
index 10d5646..b833d5a 100644
--- a/src/pymars/drgep.py
+++ b/src/pymars/drgep.py
@@ -425,6 +425,9 @@ def run_drgep(
     solution = ct.Solution(model_file, phase_name)
     assert species_targets, "Need to specify at least one target species."
 
+    # target species are always retained, whatever the threshold
+    species_safe = list(species_safe) + list(species_targets)
+
     # first, sample thermochemical data and generate metrics for measuring error
     # (e.g, ignition delays). Also produce adjacency matrices for graphs, which
     # will be used to produce graphs for any threshold value.
-- 
2.43.0


From 34df3f3c41e0ce34c92bbb084ba623dc2f9050c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:06 +0000
Subject: [PATCH 05/33] fix: end the reduction loop once no further species can
 be removed

---
 src/pymars/drg.py   | 6 ++++++
 src/pymars/drgep.py | 6 ++++++
 src/pymars/pfa.py   | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/src/pymars/drg.py b/src/pymars/drg.py
index 41cd541..cde5841 100644
--- a/src/pymars/drg.py
+++ b/src/pymars/drg.py
@@ -322,6 +322,8 @@ def run_drg(
     error_current = 0.0
     threshold = 0.01
     threshold_increment = 0.01
+    # beyond the largest coefficient, raising the threshold cannot remove more species
+    threshold_max = max(np.max(matrix) for matrix in matrices)
     while error_current <= error_limit:
         reduced_model = reduce_drg(
             model_file,
@@ -357,6 +359,7 @@ def run_drg(
 
         logging.info(f"{threshold:^9.2e} | {num_species:^17} | {error_current:^.2f}")
 
+        threshold_reached = threshold
         threshold += threshold_increment
         first = False
 
@@ -371,6 +374,9 @@ def run_drg(
             limbo_species=reduced_model.limbo_species,
         )
 
+        if threshold_reached > threshold_max:
+            break
+
     if error_current > error_limit:
         threshold -= 2 * threshold_increment
         reduced_model = reduce_drg(
diff --git a/src/pymars/drgep.py b/src/pymars/drgep.py
index b833d5a..e2db051 100644
--- a/src/pymars/drgep.py
+++ b/src/pymars/drgep.py
@@ -464,6 +464,8 @@ def run_drgep(
     error_current = 0.0
     threshold = 0.01
     threshold_increment = 0.01
+    # beyond the largest coefficient, raising the threshold cannot remove more species
+    threshold_max = max(importance_coeffs.values())
     while error_current <= error_limit:
         reduced_model = reduce_drgep(
             model_file,
@@ -497,6 +499,7 @@ def run_drgep(
 
         logging.info(f"{threshold:^9.2e} | {num_species:^17} | {error_current:^.2f}")
 
+        threshold_reached = threshold
         threshold += threshold_increment
         first = False
 
@@ -511,6 +514,9 @@ def run_drgep(
             limbo_species=reduced_model.limbo_species,
         )
 
+        if threshold_reached > threshold_max:
+            break
+
     if reduced_model.error > error_limit:
         threshold -= 2 * threshold_increment
         reduced_model = reduce_drgep(
diff --git a/src/pymars/pfa.py b/src/pymars/pfa.py
index 3f4fee3..afac0b0 100644
--- a/src/pymars/pfa.py
+++ b/src/pymars/pfa.py
@@ -348,6 +348,8 @@ def run_pfa(
     error_current = 0.0
     threshold = 0.01
     threshold_increment = 0.01
+    # beyond the largest coefficient, raising the threshold cannot remove more species
+    threshold_max = max(np.max(matrix) for matrix in matrices)
     while error_current <= error_limit:
         reduced_model = reduce_pfa(
             model_file,
@@ -383,6 +385,7 @@ def run_pfa(
 
         logging.info(f"{threshold:^9.2e} | {num_species:^17} | {error_current:^.2f}")
 
+        threshold_reached = threshold
         threshold += threshold_increment
         first = False
 
@@ -397,6 +400,9 @@ def run_pfa(
             limbo_species=reduced_model.limbo_species,
         )
 
+        if threshold_reached > threshold_max:
+            break
+
     if reduced_model.error > error_limit:
         threshold -= 2 * threshold_increment
         reduced_model = reduce_pfa(
-- 
2.43.0


From 3ad49024751aa5c798f90b89ee3e37ffdf5851e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:47 +0000
Subject: [PATCH 06/33] fix: remove every intermediate candidate model file

---
 src/pymars/drg.py   | 8 ++++----
 src/pymars/drgep.py | 8 ++++----
 src/pymars/pfa.py   | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/pymars/drg.py b/src/pymars/drg.py
index cde5841..3eb6b6f 100644
--- a/src/pymars/drg.py
+++ b/src/pymars/drg.py
@@ -345,6 +345,10 @@ def run_drg(
         error_current = reduced_model.error
         num_species = reduced_model.model.n_species
 
+        # cleanup files
+        if reduced_model is not previous_model and reduced_model.filename != model_file:
+            os.remove(reduced_model.filename)
+
         # reduce threshold if past error limit on first iteration
         if first and error_current > error_limit:
             error_current = 0.0
@@ -363,10 +367,6 @@ def run_drg(
         threshold += threshold_increment
         first = False
 
-        # cleanup files
-        if previous_model.model.n_species != reduced_model.model.n_species:
-            os.remove(reduced_model.filename)
-
         previous_model = ReducedModel(
             model=reduced_model.model,
             filename=reduced_model.filename,
diff --git a/src/pymars/drgep.py b/src/pymars/drgep.py
index e2db051..4335d1e 100644
--- a/src/pymars/drgep.py
+++ b/src/pymars/drgep.py
@@ -485,6 +485,10 @@ def run_drgep(
         error_current = reduced_model.error
         num_species = reduced_model.model.n_species
 
+        # cleanup files
+        if reduced_model is not previous_model and reduced_model.filename != model_file:
+            os.remove(reduced_model.filename)
+
         # reduce threshold if past error limit on first iteration
         if first and error_current > error_limit:
             error_current = 0.0
@@ -503,10 +507,6 @@ def run_drgep(
         threshold += threshold_increment
         first = False
 
-        # cleanup files
-        if previous_model.model.n_species != reduced_model.model.n_species:
-            os.remove(reduced_model.filename)
-
         previous_model = ReducedModel(
             model=reduced_model.model,
             filename=reduced_model.filename,
diff --git a/src/pymars/pfa.py b/src/pymars/pfa.py
index afac0b0..4dab33d 100644
--- a/src/pymars/pfa.py
+++ b/src/pymars/pfa.py
@@ -371,6 +371,10 @@ def run_pfa(
         error_current = reduced_model.error
         num_species = reduced_model.model.n_species
 
+        # cleanup files
+        if reduced_model is not previous_model and reduced_model.filename != model_file:
+            os.remove(reduced_model.filename)
+
         # reduce threshold if past error limit on first iteration
         if first and error_current > error_limit:
             error_current = 0.0
@@ -389,10 +393,6 @@ def run_pfa(
         threshold += threshold_increment
         first = False
 
-        # cleanup files
-        if previous_model.model.n_species != reduced_model.model.n_species:
-            os.remove(reduced_model.filename)
-
         previous_model = ReducedModel(
             model=reduced_model.model,
             filename=reduced_model.filename,
-- 
2.43.0


From 8ec3c25722c3789292ec2071a4e223c146793d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:57 +0000
Subject: [PATCH 07/33] fix: keep limbo and retained species lists of separate
 runs apart

---
 src/pymars/drgep.py  | 9 ++++++---
 src/pymars/pymars.py | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pymars/drgep.py b/src/pymars/drgep.py
index 4335d1e..300c765 100644
--- a/src/pymars/drgep.py
+++ b/src/pymars/drgep.py
@@ -542,9 +542,12 @@ def run_drgep(
         reduced_model = reduced_model._replace(filename=reduced_model_filename)
 
     if threshold_upper:
-        for sp in reduced_model.model.species_names:
-            if importance_coeffs[sp] < threshold_upper and (sp not in species_safe):
-                reduced_model.limbo_species.append(sp)
+        limbo_species = [
+            sp
+            for sp in reduced_model.model.species_names
+            if importance_coeffs[sp] < threshold_upper and (sp not in species_safe)
+        ]
+        reduced_model = reduced_model._replace(limbo_species=limbo_species)
 
     logging.info(45 * "-")
     logging.info("DRGEP reduction complete.")
diff --git a/src/pymars/pymars.py b/src/pymars/pymars.py
index aa9e109..3477f1e 100644
--- a/src/pymars/pymars.py
+++ b/src/pymars/pymars.py
@@ -89,7 +89,7 @@ def parse_inputs(input_dict):
         upper_threshold = 0.1
     sensitivity_type = input_dict.get("sensitivity-type", "initial")
 
-    safe_species = input_dict.get("retained-species", [])
+    safe_species = list(input_dict.get("retained-species", []))
 
     phase_name = input_dict.get("phase-name", "")
 
-- 
2.43.0


From 51ef03465d4e919cfd1121d81b445a76f40b6cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:28 +0000
Subject: [PATCH 08/33] fix: end greedy sensitivity analysis cleanly when no
 candidate is left

---
 src/pymars/sensitivity_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymars/sensitivity_analysis.py b/src/pymars/sensitivity_analysis.py
index 3eb2bf9..e94d847 100644
--- a/src/pymars/sensitivity_analysis.py
+++ b/src/pymars/sensitivity_analysis.py
@@ -255,7 +255,7 @@ def run_sa(
                     phase_name=phase_name,
                     num_threads=num_threads,
                 )
-                if min(species_errors) > error_limit:
+                if species_limbo and min(species_errors) > error_limit:
                     break
 
     # Final model; may need to rewrite
-- 
2.43.0


From 25b4c1eb62d236da5fb7faeacbc3ff195a3d94c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:28 +0000
Subject: [PATCH 09/33] fix: never remove protected species in sensitivity
 analysis, in model order

---
 src/pymars/sensitivity_analysis.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pymars/sensitivity_analysis.py b/src/pymars/sensitivity_analysis.py
index e94d847..479eeff 100644
--- a/src/pymars/sensitivity_analysis.py
+++ b/src/pymars/sensitivity_analysis.py
@@ -175,10 +175,15 @@ def run_sa(
         path=path,
     )
 
+    # consider all species if none are specified, but never any protected species; use
+    # the order of the model, so that the outcome does not depend on the order given
     if not species_limbo:
-        species_limbo = [
-            sp for sp in current_model.model.species_names if sp not in species_safe
-        ]
+        species_limbo = current_model.model.species_names
+    species_limbo = [
+        sp
+        for sp in current_model.model.species_names
+        if sp in species_limbo and sp not in species_safe
+    ]
 
     logging.info(53 * "-")
     logging.info("Number of species |  Species removed  | Max error (%)")
-- 
2.43.0


From b3775a38476bf379d71fb4490963a770f784ab57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:28 +0000
Subject: [PATCH 10/33] fix: return the path of the model file written by
 sensitivity analysis

---
 src/pymars/sensitivity_analysis.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pymars/sensitivity_analysis.py b/src/pymars/sensitivity_analysis.py
index 479eeff..125aade 100644
--- a/src/pymars/sensitivity_analysis.py
+++ b/src/pymars/sensitivity_analysis.py
@@ -266,10 +266,13 @@ def run_sa(
     # Final model; may need to rewrite
     reduced_model = ReducedModel(
         model=current_model.model,
-        filename=f"reduced_{current_model.model.n_species}.yaml",
+        filename=soln2yaml.write(
+            current_model.model,
+            f"reduced_{current_model.model.n_species}.yaml",
+            path=path,
+        ),
         error=current_model.error,
     )
-    soln2yaml.write(reduced_model.model, reduced_model.filename, path=path)
 
     logging.info(53 * "-")
     logging.info("Sensitivity analysis stage complete.")
-- 
2.43.0


From 16dc0da744bfa09c8b9b1ed84169f08f52d581ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:28 +0000
Subject: [PATCH 11/33] fix: report DRG limbo species in the order of the model

---
 src/pymars/drg.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymars/drg.py b/src/pymars/drg.py
index 3eb6b6f..a1bed75 100644
--- a/src/pymars/drg.py
+++ b/src/pymars/drg.py
@@ -228,7 +228,9 @@ def reduce_drg(
             species_retained += trim_drg(
                 matrix, solution.species_names, species_targets, threshold_upper
             )
-        limbo_species = list(set(species_retained))
+        limbo_species = [
+            sp for sp in solution.species_names if sp in species_retained
+        ]
 
     return ReducedModel(
         model=reduced_model,
-- 
2.43.0


From ae9b8042c672ce900395256f2f7ce62c006704c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:28 +0000
Subject: [PATCH 12/33] fix: reject candidate models whose error is not a
 number

---
 src/pymars/drg.py                  | 4 ++--
 src/pymars/drgep.py                | 4 ++--
 src/pymars/pfa.py                  | 4 ++--
 src/pymars/sensitivity_analysis.py | 2 +-
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pymars/drg.py b/src/pymars/drg.py
index a1bed75..bbd1795 100644
--- a/src/pymars/drg.py
+++ b/src/pymars/drg.py
@@ -352,7 +352,7 @@ def run_drg(
             os.remove(reduced_model.filename)
 
         # reduce threshold if past error limit on first iteration
-        if first and error_current > error_limit:
+        if first and not error_current <= error_limit:
             error_current = 0.0
             threshold /= 10
             threshold_increment /= 10
@@ -379,7 +379,7 @@ def run_drg(
         if threshold_reached > threshold_max:
             break
 
-    if error_current > error_limit:
+    if not error_current <= error_limit:
         threshold -= 2 * threshold_increment
         reduced_model = reduce_drg(
             model_file,
diff --git a/src/pymars/drgep.py b/src/pymars/drgep.py
index 300c765..1974d33 100644
--- a/src/pymars/drgep.py
+++ b/src/pymars/drgep.py
@@ -490,7 +490,7 @@ def run_drgep(
             os.remove(reduced_model.filename)
 
         # reduce threshold if past error limit on first iteration
-        if first and error_current > error_limit:
+        if first and not error_current <= error_limit:
             error_current = 0.0
             threshold /= 10
             threshold_increment /= 10
@@ -517,7 +517,7 @@ def run_drgep(
         if threshold_reached > threshold_max:
             break
 
-    if reduced_model.error > error_limit:
+    if not reduced_model.error <= error_limit:
         threshold -= 2 * threshold_increment
         reduced_model = reduce_drgep(
             model_file,
diff --git a/src/pymars/pfa.py b/src/pymars/pfa.py
index 4dab33d..17c4834 100644
--- a/src/pymars/pfa.py
+++ b/src/pymars/pfa.py
@@ -376,7 +376,7 @@ def run_pfa(
             os.remove(reduced_model.filename)
 
         # reduce threshold if past error limit on first iteration
-        if first and error_current > error_limit:
+        if first and not error_current <= error_limit:
             error_current = 0.0
             threshold /= 10
             threshold_increment /= 10
@@ -403,7 +403,7 @@ def run_pfa(
         if threshold_reached > threshold_max:
             break
 
-    if reduced_model.error > error_limit:
+    if not reduced_model.error <= error_limit:
         threshold -= 2 * threshold_increment
         reduced_model = reduce_pfa(
             model_file,
diff --git a/src/pymars/sensitivity_analysis.py b/src/pymars/sensitivity_analysis.py
index 125aade..45582ca 100644
--- a/src/pymars/sensitivity_analysis.py
+++ b/src/pymars/sensitivity_analysis.py
@@ -240,7 +240,7 @@ def run_sa(
             )
 
             # Ensure new error isn't too high
-            if error > error_limit:
+            if not error <= error_limit:
                 break
             else:
                 current_model = ReducedModel(
-- 
2.43.0


From 7fa7707dc57258fb8fed417288cb5dddb48a6673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:28 +0000
Subject: [PATCH 13/33] fix: do not lower errors above 100 percent when a
 simulation failed

---
 src/pymars/sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymars/sampling.py b/src/pymars/sampling.py
index 3516263..593fe0d 100644
--- a/src/pymars/sampling.py
+++ b/src/pymars/sampling.py
@@ -298,9 +298,9 @@ def calculate_error(metrics_original, metrics_test):
 
     """
     error = 100 * np.max(np.abs(metrics_original - metrics_test) / metrics_original)
-    # if any zero ignition delays or flame speeds, set error to 100
+    # if any zero ignition delays or flame speeds, error is at least 100
     if any(metrics_test == 0.0):
-        error = 100.0
+        error = np.fmax(error, 100.0)
 
     return error
 
-- 
2.43.0


From 474a437df9a56a310e40447d39b933d5a772e5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:23 +0000
Subject: [PATCH 14/33] fix: convert a Chemkin model before reading the
 reduction inputs

---
 src/pymars/pymars.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pymars/pymars.py b/src/pymars/pymars.py
index 3477f1e..92afd01 100644
--- a/src/pymars/pymars.py
+++ b/src/pymars/pymars.py
@@ -379,12 +379,15 @@ def pymars(argv):
         with open(args.input, "r") as the_file:
             input_dict = yaml.safe_load(the_file)
 
-        inputs = parse_inputs(input_dict)
-
         # Check for Chemkin format and convert if needed
-        if os.path.splitext(inputs.model)[1] not in (".yaml", ".yml"):
+        model = input_dict.get("model", "")
+        if model and os.path.splitext(model)[1] not in (".yaml", ".yml"):
             logging.info("Chemkin file detected; converting before reduction.")
-            inputs.model = convert(inputs.model, args.thermo, args.transport, args.path)
+            input_dict["model"] = convert(
+                model, args.thermo, args.transport, args.path
+            )
+
+        inputs = parse_inputs(input_dict)
 
         main(
             inputs.model,
-- 
2.43.0


From 8f1ceab7668fdfd6bf897a4a3d4855c3d769f75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:23 +0000
Subject: [PATCH 15/33] fix: write Troe falloff parameters without the optional
 fourth one

---
 src/pymars/soln2ck.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index a40128d..f8813a9 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -128,9 +128,9 @@ def build_falloff(parameters, falloff_function):
 
     """
     if falloff_function == "Troe":
+        # the fourth Troe parameter (T2) is optional
         falloff_string = (
-            "TROE / " + f"{parameters[0]}  {parameters[1]}  "
-            f"{parameters[2]}  {parameters[3]} /\n"
+            "TROE / " + "  ".join([f"{value}" for value in parameters]) + " /\n"
         )
     elif falloff_function == "SRI":
         falloff_string = (
-- 
2.43.0


From 06208359823cada640843d3ad5c2a898a375b4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:23 +0000
Subject: [PATCH 16/33] fix: convert the units of Chebyshev rates written to
 Chemkin files

---
 src/pymars/soln2ck.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index f8813a9..9a289b9 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -399,7 +399,10 @@ def write(
                     f"{cheb.pressure_range[1] / ct.one_atm} /\n"
                     + f"CHEB / {cheb.n_temperature}  {cheb.n_pressure} /\n"
                 )
-                for coeffs in cheb.data:
+                # only the constant term, log10 of the rate, depends on the units
+                cheb_data = cheb.data.copy()
+                cheb_data[0, 0] += 3.0 * (sum(reaction.reactants.values()) - 1)
+                for coeffs in cheb_data:
                     coeffs_row = " ".join([f"{c:.6e}" for c in coeffs])
                     reaction_string += f"CHEB / {coeffs_row} /\n"
 
-- 
2.43.0


From 5299cb55531d219f96d8d3c5df7328ed1d5ee7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:07 +0000
Subject: [PATCH 17/33] fix: compare the reversibility of reactions in
 compare_models

---
 src/pymars/tools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymars/tools.py b/src/pymars/tools.py
index 7f244da..2ca8489 100644
--- a/src/pymars/tools.py
+++ b/src/pymars/tools.py
@@ -75,6 +75,9 @@ def compare_models(model1, model2):
         if rxn1.reaction_type != rxn2.reaction_type:
             return False
 
+        if rxn1.reversible != rxn2.reversible:
+            return False
+
         if rxn1.reactants != rxn2.reactants:
             return False
         if rxn1.products != rxn2.products:
-- 
2.43.0


From 91b3d1fcd9370e32efdf7b4e31ef89078054bf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:38 +0000
Subject: [PATCH 18/33] fix: compare_models handles rate tables of different
 sizes

---
 src/pymars/tools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pymars/tools.py b/src/pymars/tools.py
index 2ca8489..b87dce1 100644
--- a/src/pymars/tools.py
+++ b/src/pymars/tools.py
@@ -109,6 +109,8 @@ def compare_models(model1, model2):
                 if hasattr(rate1, "falloff_coeffs") and hasattr(
                     rate2, "falloff_coeffs"
                 ):
+                    if len(rate1.falloff_coeffs) != len(rate2.falloff_coeffs):
+                        return False
                     if not np.allclose(rate1.falloff_coeffs, rate2.falloff_coeffs):
                         return False
 
@@ -140,6 +142,8 @@ def compare_models(model1, model2):
                     return False
                 if not np.allclose(rate1.temperature_range, rate2.temperature_range):
                     return False
+                if np.shape(rate1.data) != np.shape(rate2.data):
+                    return False
                 if not np.allclose(rate1.data, rate2.data):
                     return False
 
-- 
2.43.0


From 3f31cb67e5ed2c29014f52075fe9230fe873491e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:55 +0000
Subject: [PATCH 19/33] fix: accept an ignition case that converges on its last
 allowed step

---
 src/pymars/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymars/simulation.py b/src/pymars/simulation.py
index 2ec2451..429218b 100644
--- a/src/pymars/simulation.py
+++ b/src/pymars/simulation.py
@@ -336,7 +336,7 @@ class IgnitionSimulation(BaseSimulation):
                     if residual < residual_threshold:
                         break
 
-                if step == self.max_steps - 1:
+                else:
                     logging.error(
                         "Maximum number of steps reached before "
                         f"convergence for ignition case {self.idx}"
@@ -403,7 +403,7 @@ class IgnitionSimulation(BaseSimulation):
                     if self.reac.T >= self.properties.temperature + 400.0:
                         self.ignition_delay = self.sim.time
                         break
-                if step == self.max_steps - 1:
+                else:
                     logging.warning(
                         "Maximum number of steps reached before "
                         f"convergence for ignition case {self.idx}"
-- 
2.43.0


From fee753569923c51d07cf641bc8a99e34811e60da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:17 +0000
Subject: [PATCH 20/33] fix: remove the intermediate data file of an
 autoignition case that fails

---
 src/pymars/sampling.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pymars/sampling.py b/src/pymars/sampling.py
index 593fe0d..2900665 100644
--- a/src/pymars/sampling.py
+++ b/src/pymars/sampling.py
@@ -95,9 +95,11 @@ def ignition_sample_worker(sim_tuple):
     sim, idx = sim_tuple
 
     sim.setup_case()
-    sim.run_case()
-    ignition_delay, data = sim.process_results()
-    sim.clean()
+    try:
+        sim.run_case()
+        ignition_delay, data = sim.process_results()
+    finally:
+        sim.clean()
 
     return {idx: (ignition_delay, data)}
 
-- 
2.43.0


From 6bf32d8ef4ee6bcb968170bfdf9c9f0897bdf8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:17 +0000
Subject: [PATCH 21/33] fix: run the simulations anew when saved samples hold a
 single state

---
 src/pymars/sampling.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pymars/sampling.py b/src/pymars/sampling.py
index 2900665..310577c 100644
--- a/src/pymars/sampling.py
+++ b/src/pymars/sampling.py
@@ -560,7 +560,9 @@ def sample(
             ignition_delays = np.genfromtxt(
                 data_files["output_ignition"], delimiter=","
             )
-            ignition_data = np.genfromtxt(data_files["data_ignition"], delimiter=",")
+            ignition_data = np.atleast_2d(
+                np.genfromtxt(data_files["data_ignition"], delimiter=",")
+            )
             # need to check that saved data at least matches the number of cases
             matches_number = ignition_delays.size == len(
                 ignition_conditions
@@ -612,7 +614,9 @@ def sample(
             psr_metrics = np.atleast_1d(
                 np.genfromtxt(data_files["output_psr"], delimiter=",")
             )
-            psr_data = np.genfromtxt(data_files["data_psr"], delimiter=",")
+            psr_data = np.atleast_2d(
+                np.genfromtxt(data_files["data_psr"], delimiter=",")
+            )
             matches_number = psr_metrics.size == n_psr_metrics and psr_data.shape[
                 0
             ] / n_rows == len(psr_conditions)
@@ -657,7 +661,9 @@ def sample(
             flame_speeds = np.atleast_1d(
                 np.genfromtxt(data_files["output_flame"], delimiter=",")
             )
-            flame_data = np.genfromtxt(data_files["data_flame"], delimiter=",")
+            flame_data = np.atleast_2d(
+                np.genfromtxt(data_files["data_flame"], delimiter=",")
+            )
             # need to check that saved data at least matches the number of cases
             matches_number = flame_speeds.size == len(
                 flame_conditions
-- 
2.43.0


From c1d3db525110b6e65f902afc2de9ee8a663e342a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:17 +0000
Subject: [PATCH 22/33] fix: remove stale saved samples before writing new ones

---
 src/pymars/sampling.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/pymars/sampling.py b/src/pymars/sampling.py
index 310577c..e8922a0 100644
--- a/src/pymars/sampling.py
+++ b/src/pymars/sampling.py
@@ -283,6 +283,20 @@ def _run_metric_jobs(simulations, worker, num_threads):
     return np.concatenate(metrics) if metrics else np.array([])
 
 
+def _remove_saved(kind):
+    """Remove saved samples, so that new data cannot be paired with a stale output.
+
+    Parameters
+    ----------
+    kind : str
+        Kind of simulation: ``ignition``, ``psr``, or ``flame``
+
+    """
+    for key in (f"output_{kind}", f"data_{kind}"):
+        if os.path.isfile(data_files[key]):
+            os.remove(data_files[key])
+
+
 def calculate_error(metrics_original, metrics_test):
     """Calculates error of global metrics between test and original model.
 
@@ -594,6 +608,7 @@ def sample(
                 simulations, ignition_sample_worker, num_threads
             )
 
+            _remove_saved("ignition")
             np.savetxt(data_files["data_ignition"], ignition_data, delimiter=",")
             np.savetxt(data_files["output_ignition"], ignition_delays, delimiter=",")
 
@@ -643,6 +658,7 @@ def sample(
                 simulations, psr_sample_worker, num_threads
             )
 
+            _remove_saved("psr")
             np.savetxt(data_files["data_psr"], psr_data, delimiter=",")
             np.savetxt(data_files["output_psr"], psr_metrics, delimiter=",")
 
@@ -700,6 +716,7 @@ def sample(
                 simulations, flame_sample_worker, num_threads
             )
 
+            _remove_saved("flame")
             np.savetxt(data_files["data_flame"], flame_data, delimiter=",")
             np.savetxt(data_files["output_flame"], flame_speeds, delimiter=",")
 
-- 
2.43.0


From 7207d4995b41bae6581d6626b5d892e212e3698c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:19 +0000
Subject: [PATCH 23/33] fix: compare_models treats missing transport data alike
 in either argument

---
 src/pymars/tools.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/pymars/tools.py b/src/pymars/tools.py
index b87dce1..a747810 100644
--- a/src/pymars/tools.py
+++ b/src/pymars/tools.py
@@ -51,22 +51,18 @@ def compare_models(model1, model2):
             if not np.isclose(sp1.thermo.s(T_ref), sp2.thermo.s(T_ref), rtol=1e-5):
                 return False
 
-        if hasattr(sp1, "transport") or hasattr(sp2, "transport"):
-            if hasattr(sp1, "transport") and hasattr(sp2, "transport"):
-                # iterate over transport parameters
-                params = [
-                    a
-                    for a in dir(sp1.transport)
-                    if not a.startswith("__")
-                    and not callable(getattr(sp1.transport, a))
-                ]
-                for attr in params:
-                    if getattr(sp1.transport, attr) != getattr(
-                        sp2.transport, attr, 0.0
-                    ):
-                        return False
-            else:
-                return False
+        # compare transport parameters only when both models have them
+        if sp1.transport is not None and sp2.transport is not None:
+            # iterate over transport parameters
+            params = [
+                a
+                for a in dir(sp1.transport)
+                if not a.startswith("__")
+                and not callable(getattr(sp1.transport, a))
+            ]
+            for attr in params:
+                if getattr(sp1.transport, attr) != getattr(sp2.transport, attr, 0.0):
+                    return False
 
     for rxn1, rxn2 in zip(
         sorted(model1.reactions(), key=attrgetter("equation")),
-- 
2.43.0


From 6c57e03a508408025d749ab753d64dedc41622e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:21 +0000
Subject: [PATCH 24/33] fix: hand the upper threshold on to the PFA stage

---
 src/pymars/pymars.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pymars/pymars.py b/src/pymars/pymars.py
index 92afd01..ecd8a0a 100644
--- a/src/pymars/pymars.py
+++ b/src/pymars/pymars.py
@@ -255,6 +255,7 @@ def main(
             target_species,
             safe_species,
             phase_name=phase_name,
+            threshold_upper=upper_threshold,
             num_threads=num_threads,
             path=path,
             min_flame_speed=min_flame_speed,
-- 
2.43.0


From 606762f1f81a1744e1a42ef39eb2ea46224980d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:21 +0000
Subject: [PATCH 25/33] fix: identify limbo species of PFA with the upper
 threshold over all sampled states

---
 src/pymars/pfa.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pymars/pfa.py b/src/pymars/pfa.py
index 17c4834..23da558 100644
--- a/src/pymars/pfa.py
+++ b/src/pymars/pfa.py
@@ -247,9 +247,11 @@ def reduce_pfa(
     # If desired, now identify limbo species for future sensitivity analysis
     limbo_species = []
     if threshold_upper:
-        species_retained += trim_pfa(
-            matrix, solution.species_names, species_targets, threshold_upper
-        )
+        species_retained = []
+        for matrix in matrices:
+            species_retained += trim_pfa(
+                matrix, solution.species_names, species_targets, threshold_upper
+            )
         limbo_species = [
             sp
             for sp in solution.species_names
-- 
2.43.0


From 6bf6b1c67dc842cee8f5c46c8b1e596b7c43875c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:45 +0000
Subject: [PATCH 26/33] fix: stop sensitivity analysis when a simulation of the
 starting model fails

---
 src/pymars/sensitivity_analysis.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pymars/sensitivity_analysis.py b/src/pymars/sensitivity_analysis.py
index 45582ca..07b0d28 100644
--- a/src/pymars/sensitivity_analysis.py
+++ b/src/pymars/sensitivity_analysis.py
@@ -175,6 +175,11 @@ def run_sa(
         path=path,
     )
 
+    # a zero metric marks a failed simulation, which for the starting model is an error
+    if np.any(initial_metrics == 0.0):
+        logging.error("A simulation of the starting model failed")
+        raise RuntimeError("A simulation of the starting model failed")
+
     # consider all species if none are specified, but never any protected species; use
     # the order of the model, so that the outcome does not depend on the order given
     if not species_limbo:
-- 
2.43.0


From 81494e36d875752845e52998e2ffb728daaee6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:55 +0000
Subject: [PATCH 27/33] fix: compare model data relative to their size and
 alike in either order

np.isclose takes all numbers below 1e-8 as equal, so differing small rate
parameters went unnoticed, and measures differences against its second
argument only, so the answer could depend on the order of the models.
---
 src/pymars/tools.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/pymars/tools.py b/src/pymars/tools.py
index a747810..6755b42 100644
--- a/src/pymars/tools.py
+++ b/src/pymars/tools.py
@@ -1,5 +1,6 @@
 """Module with miscellanous tools."""
 
+import math
 import os
 from operator import attrgetter
 import logging
@@ -11,6 +12,14 @@ from cantera import ck2yaml
 from . import soln2ck
 
 
+def _is_close(values1, values2):
+    """Checks whether numbers, or tables of equal size, agree relative to their size."""
+    return all(
+        math.isclose(value1, value2, rel_tol=1e-5)
+        for value1, value2 in zip(np.ravel(values1), np.ravel(values2))
+    )
+
+
 def compare_models(model1, model2):
     """Checks whether two Cantera models are equivalent.
 
@@ -44,11 +53,11 @@ def compare_models(model1, model2):
             return False
 
         for T_ref in (500.0, 1000.0, 2000.0):
-            if not np.isclose(sp1.thermo.cp(T_ref), sp2.thermo.cp(T_ref), rtol=1e-5):
+            if not _is_close(sp1.thermo.cp(T_ref), sp2.thermo.cp(T_ref)):
                 return False
-            if not np.isclose(sp1.thermo.h(T_ref), sp2.thermo.h(T_ref), rtol=1e-5):
+            if not _is_close(sp1.thermo.h(T_ref), sp2.thermo.h(T_ref)):
                 return False
-            if not np.isclose(sp1.thermo.s(T_ref), sp2.thermo.s(T_ref), rtol=1e-5):
+            if not _is_close(sp1.thermo.s(T_ref), sp2.thermo.s(T_ref)):
                 return False
 
         # compare transport parameters only when both models have them
@@ -97,9 +106,9 @@ def compare_models(model1, model2):
                     "temperature_exponent",
                     "activation_energy",
                 ):
-                    if not np.isclose(getattr(lo1, attr, 0.0), getattr(lo2, attr, 0.0)):
+                    if not _is_close(getattr(lo1, attr, 0.0), getattr(lo2, attr, 0.0)):
                         return False
-                    if not np.isclose(getattr(hi1, attr, 0.0), getattr(hi2, attr, 0.0)):
+                    if not _is_close(getattr(hi1, attr, 0.0), getattr(hi2, attr, 0.0)):
                         return False
                 # falloff parameters (Troe, SRI, …)
                 if hasattr(rate1, "falloff_coeffs") and hasattr(
@@ -107,7 +116,7 @@ def compare_models(model1, model2):
                 ):
                     if len(rate1.falloff_coeffs) != len(rate2.falloff_coeffs):
                         return False
-                    if not np.allclose(rate1.falloff_coeffs, rate2.falloff_coeffs):
+                    if not _is_close(rate1.falloff_coeffs, rate2.falloff_coeffs):
                         return False
 
             # Plog: compare pressure-dependent rate table
@@ -120,27 +129,27 @@ def compare_models(model1, model2):
                     sorted(table1, key=lambda x: x[0]),
                     sorted(table2, key=lambda x: x[0]),
                 ):
-                    if not np.isclose(p1, p2):
+                    if not _is_close(p1, p2):
                         return False
                     for attr in (
                         "pre_exponential_factor",
                         "temperature_exponent",
                         "activation_energy",
                     ):
-                        if not np.isclose(
+                        if not _is_close(
                             getattr(r1, attr, 0.0), getattr(r2, attr, 0.0)
                         ):
                             return False
 
             # Chebyshev: compare polynomial coefficients and ranges
             elif hasattr(rate1, "data") and hasattr(rate2, "data"):
-                if not np.allclose(rate1.pressure_range, rate2.pressure_range):
+                if not _is_close(rate1.pressure_range, rate2.pressure_range):
                     return False
-                if not np.allclose(rate1.temperature_range, rate2.temperature_range):
+                if not _is_close(rate1.temperature_range, rate2.temperature_range):
                     return False
                 if np.shape(rate1.data) != np.shape(rate2.data):
                     return False
-                if not np.allclose(rate1.data, rate2.data):
+                if not _is_close(rate1.data, rate2.data):
                     return False
 
             # Simple Arrhenius (Arrhenius / three-body-Arrhenius)
@@ -150,7 +159,7 @@ def compare_models(model1, model2):
                     "temperature_exponent",
                     "activation_energy",
                 ):
-                    if not np.isclose(
+                    if not _is_close(
                         getattr(rate1, attr, 0.0), getattr(rate2, attr, 0.0)
                     ):
                         return False
-- 
2.43.0


From 6a4bb66ce106b742a1138adac88b6dcb904892c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:56 +0000
Subject: [PATCH 28/33] fix: refuse to export thermodynamic data that are not
 NASA polynomials

---
 src/pymars/soln2ck.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index 9a289b9..b55509a 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -161,6 +161,12 @@ def write_thermo_data(species_list, filename="generated_thermo.dat"):
 
         # write data for each species in the Solution object
         for species in species_list:
+            # the format holds a pair of 7-coefficient NASA polynomials only
+            if not isinstance(species.thermo, ct.NasaPoly2):
+                raise NotImplementedError(
+                    f"Unsupported thermodynamic model of species {species.name}: "
+                    f"{type(species.thermo).__name__}"
+                )
 
             composition_string = "".join(
                 [f"{s:2}{int(v):>3}" for s, v in species.composition.items()]
-- 
2.43.0


From d834961da480b8a2a2b525c33ebabc7019eff519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:47 +0000
Subject: [PATCH 29/33] fix: export third-body efficiencies of species that are
 not listed

---
 src/pymars/soln2ck.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index b55509a..570796f 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -350,6 +350,11 @@ def write(
                     for s, v in tb.efficiencies.items()
                     if s in solution.species_names
                 }
+                # species that are not listed have an efficiency of one in Chemkin
+                if tb.name == "M" and tb.default_efficiency != 1.0:
+                    reduced_efficiencies = {
+                        s: tb.efficiency(s) for s in solution.species_names
+                    }
                 efficiencies_str = "  ".join(
                     [f"{s}/{v}/" for s, v in reduced_efficiencies.items()]
                 )
-- 
2.43.0


From bd521024a7492499f5a1dedec993eac23d54ca32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:39 +0000
Subject: [PATCH 30/33] fix: export explicit reaction orders

---
 src/pymars/soln2ck.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index 570796f..b86efe6 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -301,20 +301,22 @@ def write(
         for reaction in solution.reactions():
 
             rxn_type = reaction.reaction_type
+            # explicit reaction orders replace the stoichiometric coefficients
+            reaction_order = sum({**reaction.reactants, **reaction.orders}.values())
             reaction_string = f"{reaction.equation:<51}"
 
             # The Arrhenius parameters that follow the equation string on the main line
             # depend on the type of reaction.
             if rxn_type in ("Arrhenius", "three-body-Arrhenius"):
                 arrhenius = build_arrhenius(
-                    reaction.rate, sum(reaction.reactants.values()), rxn_type
+                    reaction.rate, reaction_order, rxn_type
                 )
 
             elif rxn_type.startswith("falloff-"):
                 # high-pressure limit is on the main reaction line
                 arrhenius = build_falloff_arrhenius(
                     reaction.rate.high_rate,
-                    sum(reaction.reactants.values()),
+                    reaction_order,
                     rxn_type,
                     "high",
                 )
@@ -323,7 +325,7 @@ def write(
                 # low-pressure limit is on the main reaction line
                 arrhenius = build_falloff_arrhenius(
                     reaction.rate.low_rate,
-                    sum(reaction.reactants.values()),
+                    reaction_order,
                     rxn_type,
                     "low",
                 )
@@ -334,7 +336,7 @@ def write(
             elif rxn_type == "pressure-dependent-Arrhenius":
                 arrhenius = build_arrhenius(
                     reaction.rate.rates[0][1],
-                    sum(reaction.reactants.values()),
+                    reaction_order,
                     "pressure-dependent-Arrhenius",
                 )
             else:
@@ -365,7 +367,7 @@ def write(
             if rxn_type.startswith("falloff-"):
                 arrhenius = build_falloff_arrhenius(
                     reaction.rate.low_rate,
-                    sum(reaction.reactants.values()),
+                    reaction_order,
                     rxn_type,
                     "low",
                 )
@@ -380,7 +382,7 @@ def write(
             elif rxn_type.startswith("chemically-activated"):
                 arrhenius = build_falloff_arrhenius(
                     reaction.rate.high_rate,
-                    sum(reaction.reactants.values()),
+                    reaction_order,
                     rxn_type,
                     "high",
                 )
@@ -397,7 +399,7 @@ def write(
                     pressure_str = f"{pressure / ct.one_atm}"
                     arrhenius = build_arrhenius(
                         rate,
-                        sum(reaction.reactants.values()),
+                        reaction_order,
                         "pressure-dependent-Arrhenius",
                     )
                     reaction_string += f"PLOG / {pressure_str} {arrhenius} /\n"
@@ -412,11 +414,14 @@ def write(
                 )
                 # only the constant term, log10 of the rate, depends on the units
                 cheb_data = cheb.data.copy()
-                cheb_data[0, 0] += 3.0 * (sum(reaction.reactants.values()) - 1)
+                cheb_data[0, 0] += 3.0 * (reaction_order - 1)
                 for coeffs in cheb_data:
                     coeffs_row = " ".join([f"{c:.6e}" for c in coeffs])
                     reaction_string += f"CHEB / {coeffs_row} /\n"
 
+            for name, order in reaction.orders.items():
+                reaction_string += f"FORD / {name} {order} /\n"
+
             if reaction.duplicate:
                 reaction_string += "DUPLICATE\n"
 
-- 
2.43.0


From 1bfbf71c36278ebba4731d882d34ca4ba581fde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:41 +0000
Subject: [PATCH 31/33] fix: separate a long reaction equation from its rate

---
 src/pymars/soln2ck.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index b86efe6..93a9517 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -303,7 +303,7 @@ def write(
             rxn_type = reaction.reaction_type
             # explicit reaction orders replace the stoichiometric coefficients
             reaction_order = sum({**reaction.reactants, **reaction.orders}.values())
-            reaction_string = f"{reaction.equation:<51}"
+            reaction_string = f"{reaction.equation:<50} "
 
             # The Arrhenius parameters that follow the equation string on the main line
             # depend on the type of reaction.
-- 
2.43.0


From 771901d9cfed168766f17bcf64da5240ad73a241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:20 +0000
Subject: [PATCH 32/33] fix: every sampled row of a profile is a state of that
 profile

Rounding could put the last temperature threshold just above the final
temperature (e.g. flames from 298.15 K in more than a third of cases), and a
step that crosses several thresholds could leave later ones without a point;
the sampled rows then stayed all zeros and the graph stage failed on them.
---
 src/pymars/simulation.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pymars/simulation.py b/src/pymars/simulation.py
index 429218b..76d7f8e 100644
--- a/src/pymars/simulation.py
+++ b/src/pymars/simulation.py
@@ -121,15 +121,17 @@ class BaseSimulation(ABC):
         temperature_initial = temperatures[0]
         temperature_diff = temperatures[-1] - temperature_initial
 
+        # rounding must not put the last threshold above the final temperature
+        thresholds = np.minimum(
+            temperature_initial + deltas * temperature_diff, temperatures[-1]
+        )
+
         sampled_data = np.zeros((len(deltas), 2 + n_species))
 
         idx = 0
         for point in range(len(temperatures)):
-            if idx >= len(deltas):
-                break
-            if temperatures[point] >= temperature_initial + (
-                deltas[idx] * temperature_diff
-            ):
+            # one step along the profile may cross several thresholds
+            while idx < len(deltas) and temperatures[point] >= thresholds[idx]:
                 sampled_data[idx, 0:2] = [temperatures[point], pressures[point]]
                 sampled_data[idx, 2:] = mass_fractions[point]
                 idx += 1
-- 
2.43.0


From 74dd74425efbc15b22aa5b416d28745db5d96bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:31 +0000
Subject: [PATCH 33/33] fix: keep Chemkin thermo columns with many elements or
 long names

The first line of an entry has room for four elements; a fifth one shifted
every later column. Longer compositions now go on a continuation line, and
names that do not fit their columns are refused.
---
 src/pymars/soln2ck.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index 93a9517..f33b423 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -167,10 +167,23 @@ def write_thermo_data(species_list, filename="generated_thermo.dat"):
                     f"Unsupported thermodynamic model of species {species.name}: "
                     f"{type(species.thermo).__name__}"
                 )
+            if len(species.name) > 18:
+                raise NotImplementedError(
+                    f"Species name too long for the Chemkin format: {species.name}"
+                )
 
-            composition_string = "".join(
-                [f"{s:2}{int(v):>3}" for s, v in species.composition.items()]
-            )
+            # the first line has room for four elements only; a longer composition
+            # goes on a continuation line
+            composition = species.composition
+            composition_string = ""
+            continuation = ""
+            if len(composition) <= 4:
+                composition_string = "".join(
+                    [f"{s:2}{int(v):>3}" for s, v in composition.items()]
+                )
+            else:
+                elements = "  ".join([f"{s} {int(v)}" for s, v in composition.items()])
+                continuation = f"&\n{elements}"
 
             species_string = (
                 f"{species.name:<18}"
@@ -181,7 +194,7 @@ def write_thermo_data(species_list, filename="generated_thermo.dat"):
                 + f"{species.thermo.max_temp:10.3f}"
                 + f"{species.thermo.coeffs[0]:8.2f}"
                 + 6 * " "
-                + "1\n"
+                + f"1{continuation}\n"
             )
 
             species_string += (
-- 
2.43.0

