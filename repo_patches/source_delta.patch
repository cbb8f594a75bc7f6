From 47e0304645e7ebb88397ed74e2986d143de6396a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:54:20 +0000
Subject: [PATCH 01/52] fix: collate no more than the requested number of
 samples when they span several files

---
 pibronic/pimc/pimc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index 5873719..a4cc773 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -904,7 +904,7 @@ class BoxResult:
             if start >= desired_number_of_samples:
                 break
             with np.load(path) as data:
-                length = min(data["number_of_samples"], desired_number_of_samples)
+                length = min(data["number_of_samples"], desired_number_of_samples - start)
                 assert not np.any(data["s_rho"][0:length] == 0.0), "Zeros in the denominator"
                 self.scaled_g[start:start+length] = data["s_g"][0:length]
                 self.scaled_rho[start:start+length] = data["s_rho"][0:length]
@@ -1030,7 +1030,7 @@ class BoxResultPM(BoxResult):
             if start >= desired_number_of_samples:
                 break
             with np.load(path) as data:
-                length = min(data["number_of_samples"], desired_number_of_samples)
+                length = min(data["number_of_samples"], desired_number_of_samples - start)
                 assert not np.any(data["s_rho"][0:length] == 0.0), "Zeros in the denominator"
                 self.scaled_g[start:start+length] = data["s_g"][0:length]
                 self.scaled_rho[start:start+length] = data["s_rho"][0:length]
-- 
2.43.0


From 78816f610781e76421533d741fa7ca0c710404b6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:55:33 +0000
Subject: [PATCH 02/52] fix: never expose a partially written pimc result file

---
 pibronic/helper.py    | 18 ++++++++++++++++++
 pibronic/pimc/pimc.py | 43 +++++++++++++++++++++++--------------------
 2 files changed, 41 insertions(+), 20 deletions(-)

diff --git a/pibronic/helper.py b/pibronic/helper.py
index b908777..454f6e5 100755
--- a/pibronic/helper.py
+++ b/pibronic/helper.py
@@ -2,9 +2,11 @@
 # store numerous helper functions
 
 
+from contextlib import contextmanager
 import itertools as it
 # import mmap
 # import sys
+import socket
 import os
 
 # -----------------------------------------------------------
@@ -89,4 +91,20 @@ def verify_file_exists(filePath):
         raise FileNotFoundError(s.format(filePath))
 
 
+@contextmanager
+def atomic_write(path, mode='w', **kwargs):
+    """opens a temporary file next to path for writing, which replaces path only after everything was written
+    this way neither a reader nor an interrupted execution ever leaves a partially written file at path
+    """
+    temp_path = f"{path:s}.{socket.gethostname():s}.{os.getpid():d}.tmp"
+    try:
+        with open(temp_path, mode=mode, **kwargs) as target_file:
+            yield target_file
+        os.replace(temp_path, path)
+    except BaseException:
+        if os.path.isfile(temp_path):
+            os.remove(temp_path)
+        raise
+
+
 # -----------------------------------------------------------
diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index a4cc773..63757f5 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -19,6 +19,7 @@ from numpy import float64 as F64
 from ..log_conf import log
 from .. import constants
 from ..constants import hbar
+from ..helper import atomic_write
 from ..data import file_structure
 from ..data import file_name  # do we need this?
 from ..vibronic import vIO, VMK
@@ -822,16 +823,17 @@ class BoxResult:
 
         assert self.hash_vib is not None and self.hash_rho is not None, "we save hash values if they don't exist!"
         # save raw data points
-        np.savez(path,
-                 # TODO - fix the hash situation - this is hacky
-                 hash_vib=self.hash_vib,
-                 hash_rho=self.hash_rho,
-                 number_of_samples=self.samples,
-                 s_rho=self.scaled_rho,
-                 s_g=self.scaled_g,
-                 # s_g=self.scaled_g[result_view],
-                 # s_rho=self.scaled_rho[result_view],
-                 )
+        with atomic_write(path, mode='wb') as target_file:
+            np.savez(target_file,
+                     # TODO - fix the hash situation - this is hacky
+                     hash_vib=self.hash_vib,
+                     hash_rho=self.hash_rho,
+                     number_of_samples=self.samples,
+                     s_rho=self.scaled_rho,
+                     s_g=self.scaled_g,
+                     # s_g=self.scaled_g[result_view],
+                     # s_rho=self.scaled_rho[result_view],
+                     )
         return
 
     def load_results(self, path):
@@ -951,16 +953,17 @@ class BoxResultPM(BoxResult):
 
         assert self.hash_vib is not None and self.hash_rho is not None, "we save hash values if they don't exist!"
         # save raw data points
-        np.savez(path,
-                 # TODO - fix the hash situation - this is hacky
-                 hash_vib=self.hash_vib,
-                 hash_rho=self.hash_rho,
-                 number_of_samples=self.samples,
-                 s_rho=self.scaled_rho,
-                 s_g=self.scaled_g,
-                 s_gP=self.scaled_gofr_plus,
-                 s_gM=self.scaled_gofr_minus,
-                 )
+        with atomic_write(path, mode='wb') as target_file:
+            np.savez(target_file,
+                     # TODO - fix the hash situation - this is hacky
+                     hash_vib=self.hash_vib,
+                     hash_rho=self.hash_rho,
+                     number_of_samples=self.samples,
+                     s_rho=self.scaled_rho,
+                     s_g=self.scaled_g,
+                     s_gP=self.scaled_gofr_plus,
+                     s_gM=self.scaled_gofr_minus,
+                     )
         return
 
     def load_results(self, path):
-- 
2.43.0


From fe72faf05ba574ec655fd98a62ff935db52e8b5e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:55:33 +0000
Subject: [PATCH 03/52] fix: compare the number of samples by value when
 loading a result file

---
 pibronic/pimc/pimc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index 63757f5..b893e22 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -844,7 +844,7 @@ class BoxResult:
             # BoxResult.verify_hashes_are_valid()
             if self.samples is 0:
                 self.samples = data["number_of_samples"]
-            elif data["number_of_samples"] is not self.samples:
+            elif data["number_of_samples"] != self.samples:
                 raise AssertionError("BoxResult has a different number of samples that the input file - this should not happen")
 
             self.initialize_arrays()
-- 
2.43.0


From 78768ade879a640562a5e276b998f32ce0333846 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:55:34 +0000
Subject: [PATCH 04/52] fix: only store the samples which were computed in a
 result file

---
 pibronic/pimc/pimc.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index b893e22..e4ade94 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -821,6 +821,9 @@ class BoxResult:
         """x"""
         path = self.compute_path_to_file()
 
+        # the samples past number_of_samples have not been computed
+        result_view = slice(0, number_of_samples)
+
         assert self.hash_vib is not None and self.hash_rho is not None, "we save hash values if they don't exist!"
         # save raw data points
         with atomic_write(path, mode='wb') as target_file:
@@ -828,11 +831,9 @@ class BoxResult:
                      # TODO - fix the hash situation - this is hacky
                      hash_vib=self.hash_vib,
                      hash_rho=self.hash_rho,
-                     number_of_samples=self.samples,
-                     s_rho=self.scaled_rho,
-                     s_g=self.scaled_g,
-                     # s_g=self.scaled_g[result_view],
-                     # s_rho=self.scaled_rho[result_view],
+                     number_of_samples=len(self.scaled_g[result_view]),
+                     s_rho=self.scaled_rho[result_view],
+                     s_g=self.scaled_g[result_view],
                      )
         return
 
@@ -951,6 +952,9 @@ class BoxResultPM(BoxResult):
         """x"""
         path = self.compute_path_to_file()
 
+        # the samples past number_of_samples have not been computed
+        result_view = slice(0, number_of_samples)
+
         assert self.hash_vib is not None and self.hash_rho is not None, "we save hash values if they don't exist!"
         # save raw data points
         with atomic_write(path, mode='wb') as target_file:
@@ -958,11 +962,11 @@ class BoxResultPM(BoxResult):
                      # TODO - fix the hash situation - this is hacky
                      hash_vib=self.hash_vib,
                      hash_rho=self.hash_rho,
-                     number_of_samples=self.samples,
-                     s_rho=self.scaled_rho,
-                     s_g=self.scaled_g,
-                     s_gP=self.scaled_gofr_plus,
-                     s_gM=self.scaled_gofr_minus,
+                     number_of_samples=len(self.scaled_g[result_view]),
+                     s_rho=self.scaled_rho[result_view],
+                     s_g=self.scaled_g[result_view],
+                     s_gP=self.scaled_gofr_plus[result_view],
+                     s_gM=self.scaled_gofr_minus[result_view],
                      )
         return
 
-- 
2.43.0


From 5af29349a90d8f257a4d611ac782db1f469eb4f0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:58:25 +0000
Subject: [PATCH 05/52] fix: only analyse results which were generated from the
 current models

---
 pibronic/data/postprocessing.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pibronic/data/postprocessing.py b/pibronic/data/postprocessing.py
index 85b53d7..e929ac2 100755
--- a/pibronic/data/postprocessing.py
+++ b/pibronic/data/postprocessing.py
@@ -291,6 +291,13 @@ def extract_jackknife_parameters(list_pimc, list_coupled, list_sampling):
     return value_dict
 
 
+def retrive_valid_pimc_file_list(FS, P, T):
+    """return a list of the full path to each pimc file with the same P and T,
+    that was generated from the current models, i.e. has the same hashes as the FileStructure object"""
+    path_data_points = FS.template_pimc.format(P=P, T=T, J="*")
+    return prune_results_using_hashes(FS, glob.glob(path_data_points))
+
+
 def load_pimc_data(FS, P, T, pimc_results):
     """ load data from all files with same P and T"""
     """
@@ -302,8 +309,7 @@ def load_pimc_data(FS, P, T, pimc_results):
     currently solved by:
         self.template_pimc = self.path_rho_results + file_name.pimc(J="{J:s}")
     """
-    path_data_points = FS.template_pimc.format(P=P, T=T, J="*")
-    list_of_files = [file for file in glob.glob(path_data_points)]
+    list_of_files = retrive_valid_pimc_file_list(FS, P, T)
     pimc_results.load_multiple_results(list_of_files)
 
     # TODO - add support for passing in the optional desired_number_of_samples paramter to the load_multiple_results method
-- 
2.43.0


From 33729437bb300613f8f5d3075c79439f5829cc5e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:58:29 +0000
Subject: [PATCH 06/52] fix: only analyse the parameter combinations for which
 there are results

---
 pibronic/stats/stats.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pibronic/stats/stats.py b/pibronic/stats/stats.py
index ef21d65..83bd9ca 100755
--- a/pibronic/stats/stats.py
+++ b/pibronic/stats/stats.py
@@ -232,6 +232,7 @@ def statistical_analysis_of_pimc(FS, method="basic", location="local", samples=N
     arg_list = [(FS, P, T)
                 for P in args["pimc_beads"]
                 for T in args["temperatures"]
+                if pp.retrive_valid_pimc_file_list(FS, P, T)
                 ]
 
     # choose what statistical analysis we are going to preform
@@ -349,6 +350,7 @@ def jackknife_analysis_of_pimc(FS, method="basic", location="local", samples=Non
     arg_list = [(FS, P, T)
                 for P in args["pimc_beads"]
                 for T in args["temperatures"]
+                if pp.retrive_valid_pimc_file_list(FS, P, T)
                 ]
     # choose what statistical analysis we are going to preform
     if method is "basic":
-- 
2.43.0


From 94bd794b9ea593ef361215ff4b8cd4baac3dc05c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:58:33 +0000
Subject: [PATCH 07/52] fix: never expose a partially written thermo file

---
 pibronic/stats/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pibronic/stats/stats.py b/pibronic/stats/stats.py
index 83bd9ca..46a69c2 100755
--- a/pibronic/stats/stats.py
+++ b/pibronic/stats/stats.py
@@ -22,6 +22,7 @@ from ..data import postprocessing as pp
 from ..pimc import BoxResultPM
 from .. import constants
 from ..constants import boltzman
+from ..helper import atomic_write
 
 
 __all__ = [
@@ -175,7 +176,7 @@ def starmap_wrapper(FS, P, T, statistical_operation):
     assert pimc_results.samples is not 0, "pimc_results has 0 samples! reading the data failed?!"
     path = FS.template_jackknife.format(P=P, T=T, X=pimc_results.samples)
 
-    with open(path, mode='w', encoding='UTF8') as target_file:
+    with atomic_write(path, mode='w', encoding='UTF8') as target_file:
         target_file.write(json.dumps(output_dict))
 
 
-- 
2.43.0


From b01e1f5e5acfb3878c8a5bec33435b9cb0d6b776 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:58:37 +0000
Subject: [PATCH 08/52] fix: read the parameters of a result file from its name
 and not from the directories it is in

---
 pibronic/data/postprocessing.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pibronic/data/postprocessing.py b/pibronic/data/postprocessing.py
index e929ac2..2a13c1f 100755
--- a/pibronic/data/postprocessing.py
+++ b/pibronic/data/postprocessing.py
@@ -102,7 +102,7 @@ def extract_trotter_paramater_list(list_trotter):
 
 def extract_basis_value_from_sos_file_path(file_path):
     """ does what it says, returns an int """
-    return int(file_path.split("_B")[1].split(".json")[0])
+    return int(os.path.basename(file_path).split("_B")[1].split(".json")[0])
 
 
 def extract_sos_basis_paramater_list(list_vib, list_rho):
@@ -117,7 +117,7 @@ def extract_sos_basis_paramater_list(list_vib, list_rho):
 
 def extract_bead_value_from_pimc_file_path(file_path):
     """ does what it says, returns an int """
-    return int(file_path.split("P")[1].split("_T")[0])
+    return int(os.path.basename(file_path).split("P")[1].split("_T")[0])
 
 
 def extract_bead_paramater_list(list_pimc):
@@ -130,7 +130,7 @@ def extract_bead_paramater_list(list_pimc):
 
 def extract_temperature_value_from_pimc_file_path(file_path):
     """ does what it says, returns a float"""
-    return float(file_path.split("_T")[1].split("_J")[0])
+    return float(os.path.basename(file_path).split("_T")[1].split("_J")[0])
 
 
 def extract_temperature_paramater_list(list_pimc):
@@ -146,7 +146,7 @@ def extract_temperature_paramater_list(list_pimc):
 
 def extract_job_value_from_pimc_file_path(file_path):
     """ does what it says, returns an int"""
-    return int(file_path.split("_J")[1].split("_data_")[0])
+    return int(os.path.basename(file_path).split("_J")[1].split("_data_")[0])
 
 
 def extract_parameter_lists(list_pimc, list_vib, list_rho):
@@ -159,17 +159,17 @@ def extract_parameter_lists(list_pimc, list_vib, list_rho):
 
 def extract_bead_value_from_thermo_file_path(file_path):
     """ does what it says, returns an int """
-    return int(file_path.split("P")[1].split("_T")[0])
+    return int(os.path.basename(file_path).split("P")[1].split("_T")[0])
 
 
 def extract_temperature_value_from_thermo_file_path(file_path):
     """ does what it says, returns a float"""
-    return float(file_path.split("_T")[1].split("_X")[0])
+    return float(os.path.basename(file_path).split("_T")[1].split("_X")[0])
 
 
 def extract_sample_value_from_thermo_file_path(file_path):
     """ does what it says, returns an int"""
-    return int(file_path.split("_X")[1].split("_thermo")[0])
+    return int(os.path.basename(file_path).split("_X")[1].split("_thermo")[0])
 
 
 def prune_results_using_hashes(FS, list_pimc):
-- 
2.43.0


From 181d16f5a9a972c4774279e9353e8704ca5c07bc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:59:39 +0000
Subject: [PATCH 09/52] fix: submit enough jobs to obtain the requested number
 of samples

---
 pibronic/server/job_boss.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pibronic/server/job_boss.py b/pibronic/server/job_boss.py
index 762bf3b..ad6689f 100755
--- a/pibronic/server/job_boss.py
+++ b/pibronic/server/job_boss.py
@@ -562,11 +562,13 @@ class PimcSubmissionClass(SubmissionClass):
         total_samples = self.param_dict["number_of_samples_overall"]
 
         # TODO - HACKY
-        if total_samples is 0:
+        if total_samples == 0:
             total_samples = n_samples
             self.param_dict["number_of_samples_overall"] = n_samples
 
-        self.n_jobs = max(1, total_samples // self.MAX_SAMPLES_PER_JOB)
+        # each job only computes full blocks, the last job might provide more samples than we need
+        samples_computed_per_job = blocks_per_job * block_size
+        self.n_jobs = max(1, -(-total_samples // samples_computed_per_job))
         return
 
     def submit_jobs(self):
-- 
2.43.0


From 81287c62b2eb7024850a95369909ccc36ffb5f50 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:59:45 +0000
Subject: [PATCH 10/52] fix: the parameters of one submission no longer leak
 into the next

---
 pibronic/server/job_boss.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pibronic/server/job_boss.py b/pibronic/server/job_boss.py
index ad6689f..3b75f91 100755
--- a/pibronic/server/job_boss.py
+++ b/pibronic/server/job_boss.py
@@ -5,6 +5,7 @@ assumes the server uses SLURM"""
 import subprocess
 import threading
 import socket
+import copy
 import signal
 import time
 import sys
@@ -464,11 +465,14 @@ class SubmissionClass():
     def __init__(self, input_FS, input_param_dict=None):
         """ takes a FileStructure object and an optional parameter dictionary - no error checking at the moment """
 
+        # each instance has its own parameters, starting from the default values of its class
+        self.param_dict = copy.deepcopy(self.param_dict)
+
         # set the default hostname when initialized
         self.param_dict['hostname'] = get_hostname()
 
         if input_param_dict is not None:
-            self.param_dict.update(input_param_dict)
+            self.param_dict.update(copy.deepcopy(input_param_dict))
 
         self.FS = input_FS
         self.prepare_paths()
@@ -579,7 +583,6 @@ class PimcSubmissionClass(SubmissionClass):
         temperature_list = self.param_dict["temperature_list"]
         bead_list = self.param_dict["bead_list"]
 
-        import copy
         for T in temperature_list:
             for P in bead_list:
 
-- 
2.43.0


From 8fe8fcd83b0af727b866d0656fafeb2066ed1b42 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:59:50 +0000
Subject: [PATCH 11/52] fix: submit the job scripts which exist and run them
 with the current python executable

---
 pibronic/server/job_boss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pibronic/server/job_boss.py b/pibronic/server/job_boss.py
index 3b75f91..3d1841b 100755
--- a/pibronic/server/job_boss.py
+++ b/pibronic/server/job_boss.py
@@ -31,12 +31,12 @@ job_almost_done_flag = False
 
 def get_path_to_python_executable():
     """returns the absolute path to the python executable currently executing this script"""
-    return os.path.abspath(os.__file__)
+    return os.path.abspath(sys.executable)
 
 
 def get_path_of_job_boss_directory():
     """returns the absolute path to the directory holding job_boss.py """
-    return os.path.abspath(__file__)
+    return os.path.dirname(os.path.abspath(__file__))
 
 
 def subprocess_submit_asynch_wrapper(cmd, **kwargs):
-- 
2.43.0


From c67a7af4c7280b3873953c41a70f05f8d71b3253 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 16:00:28 +0000
Subject: [PATCH 12/52] fix: a job moves its own complete result file, and only
 that one, to the results directory

---
 pibronic/server/compute_canada/pimc_job.sh | 12 +++++++-----
 pibronic/server/nlogn_feynman/pimc_job.sh  | 12 +++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/pibronic/server/compute_canada/pimc_job.sh b/pibronic/server/compute_canada/pimc_job.sh
index 0dbbfec..1320a7f 100755
--- a/pibronic/server/compute_canada/pimc_job.sh
+++ b/pibronic/server/compute_canada/pimc_job.sh
@@ -39,11 +39,13 @@ echo "if there are no values it means the job didn't run long enough to record v
 # ls -al "${SCRATCH_DIR}execution_output/"
 # ls -al "${SCRATCH_DIR}results/"
 
-# echo mv --force "${COPY_FROM}"* "${COPY_TO}"
-# mv --force "${COPY_FROM}"* "${COPY_TO}"
-# HACKS
-# echo mv --force "${COPY_FROM}${SLURM_JOBID}"* "${COPY_TO}"
-# mv --force "${COPY_FROM}${SLURM_JOBID}"* "${COPY_TO}"
+# move the result file of this job (and only this job), other jobs might be using the same scratch directory
+# first to a temporary name next to the destination, so that only a complete file has the name of a result file
+for RESULT_FILE in "${SCRATCH_DIR}results/"*"_J${SLURM_JOB_ID}_data_points.npz"; do
+    FINAL_FILE="${ROOT_DIR}results/${RESULT_FILE##*/}"
+    echo mv --force "${RESULT_FILE}" "${FINAL_FILE}"
+    mv --force "${RESULT_FILE}" "${FINAL_FILE}.tmp" && mv --force "${FINAL_FILE}.tmp" "${FINAL_FILE}"
+done
 
 # some user feedback
 # echo "Output file was here: $SLURMD_NODENAME:${SCRATCH_DIR}results/${SLURM_JOB_NAME}"
diff --git a/pibronic/server/nlogn_feynman/pimc_job.sh b/pibronic/server/nlogn_feynman/pimc_job.sh
index 35c0abc..0a3e594 100755
--- a/pibronic/server/nlogn_feynman/pimc_job.sh
+++ b/pibronic/server/nlogn_feynman/pimc_job.sh
@@ -39,11 +39,13 @@ echo "if there are no values it means the job didn't run long enough to record v
 # ls -al "${SCRATCH_DIR}execution_output/"
 ls -al "${SCRATCH_DIR}results/"
 
-echo mv --force "${COPY_FROM}"* "${COPY_TO}"
-mv --force "${COPY_FROM}"* "${COPY_TO}"
-# HACKS
-# echo mv --force "${COPY_FROM}${SLURM_JOBID}"* "${COPY_TO}"
-# mv --force "${COPY_FROM}${SLURM_JOBID}"* "${COPY_TO}"
+# move the result file of this job (and only this job), other jobs might be using the same scratch directory
+# first to a temporary name next to the destination, so that only a complete file has the name of a result file
+for RESULT_FILE in "${SCRATCH_DIR}results/"*"_J${SLURM_JOB_ID}_data_points.npz"; do
+    FINAL_FILE="${ROOT_DIR}results/${RESULT_FILE##*/}"
+    echo mv --force "${RESULT_FILE}" "${FINAL_FILE}"
+    mv --force "${RESULT_FILE}" "${FINAL_FILE}.tmp" && mv --force "${FINAL_FILE}.tmp" "${FINAL_FILE}"
+done
 
 # some user feedback
 echo "Output file was here: $SLURMD_NODENAME:${SCRATCH_DIR}results/${SLURM_JOB_NAME}"
-- 
2.43.0


From 61508cd4693d960aeffd2ebf9340290b092a7a44 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 16:00:33 +0000
Subject: [PATCH 13/52] fix: offset the inverse temperature of the current
 calculation in BoxDataPM.preprocess

---
 pibronic/pimc/pimc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index e4ade94..3bdd379 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -729,6 +729,7 @@ class BoxDataPM(BoxData):
     def preprocess(self):
         """"""
         # compute extra constants
+        self.beta = constants.beta(self.temperature)
         self.beta_plus = self.beta + self.delta_beta
         self.beta_minus = self.beta - self.delta_beta
         self.tau_plus = self.beta_plus / self.beads
-- 
2.43.0


From fd80fa19aa594a17b3c215caf304ea64b0486c35 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 16:00:37 +0000
Subject: [PATCH 14/52] fix: fill every state of the sampling distribution when
 it has a different number of states than the model

---
 pibronic/pimc/pimc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index 3bdd379..1b4f66e 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -1115,10 +1115,12 @@ def build_o_matrix(data, model, state_shift):
 
     np.exp(o_matrix, out=o_matrix)
 
-    for a in range(data.states):
+    # the number of states of the sampling model can be different from that of the vibronic model
+    temp_states = model.omatrix.shape[2]
+
+    for a in range(temp_states):
         model.omatrix[:, :, a, a] = o_matrix[:, :, a]
 
-    temp_states = model.omatrix.shape[2]
     # asserts that the tensor is diagonal along axis (2,3)
     for a, b in it.product(range(temp_states), range(temp_states)):
         if a == b:
-- 
2.43.0


From 784cab5119001f1b3aa690a77c2084ce376cb5c7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 16:01:48 +0000
Subject: [PATCH 15/52] fix: never expose a partially written model file

---
 pibronic/helper.py                     | 3 +++
 pibronic/vibronic/vibronic_model_io.py | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/pibronic/helper.py b/pibronic/helper.py
index 454f6e5..12f433e 100755
--- a/pibronic/helper.py
+++ b/pibronic/helper.py
@@ -6,6 +6,7 @@ from contextlib import contextmanager
 import itertools as it
 # import mmap
 # import sys
+import shutil
 import socket
 import os
 
@@ -100,6 +101,8 @@ def atomic_write(path, mode='w', **kwargs):
     try:
         with open(temp_path, mode=mode, **kwargs) as target_file:
             yield target_file
+        if os.path.isfile(path):  # keep the permissions of the file we replace
+            shutil.copymode(path, temp_path)
         os.replace(temp_path, path)
     except BaseException:
         if os.path.isfile(temp_path):
diff --git a/pibronic/vibronic/vibronic_model_io.py b/pibronic/vibronic/vibronic_model_io.py
index 22fe2c1..d9085e8 100755
--- a/pibronic/vibronic/vibronic_model_io.py
+++ b/pibronic/vibronic/vibronic_model_io.py
@@ -17,6 +17,7 @@ from numpy import float64 as F64
 
 # local imports
 from ..log_conf import log
+from ..helper import atomic_write
 from .vibronic_model_keys import VibronicModelKeys as VMK
 from . import model_op
 from . import model_h
@@ -527,7 +528,7 @@ def _save_to_JSON(path, dictionary):
         else:
             log.debug(f"Value {value} with Key {key} does not appear to be an ndarray")
 
-    with open(path, mode='w', encoding='UTF8') as target_file:
+    with atomic_write(path, mode='w', encoding='UTF8') as target_file:
         target_file.write(json.dumps(dict_copy))
 
     return
-- 
2.43.0


From e4dc7d48c24793bad2211877dba84f06a5a57f39 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 16:01:53 +0000
Subject: [PATCH 16/52] fix: an interrupted creation of a model leaves the
 previous model intact

---
 pibronic/vibronic/vibronic_model_io.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pibronic/vibronic/vibronic_model_io.py b/pibronic/vibronic/vibronic_model_io.py
index d9085e8..e4a4b07 100755
--- a/pibronic/vibronic/vibronic_model_io.py
+++ b/pibronic/vibronic/vibronic_model_io.py
@@ -781,7 +781,8 @@ def create_basic_diagonal_model(FS):
         s = "Sampling model {:s} already exists!"
         log.debug(s.format(dest))
 
-    shutil.copyfile(source, dest)
+    with open(source, mode='rb') as source_file, atomic_write(dest, mode='wb') as target_file:
+        shutil.copyfileobj(source_file, target_file)
 
     s = "Created sampling model {:s} by copying {:s}"
     log.debug(s.format(dest, source))
@@ -863,13 +864,16 @@ def create_fake_coupled_model(FS, tuning_parameter=0.01, transformation_matrix=N
         array[:] = new_values
 
     # backup the old model, i.e. the "original" model
-    shutil.copyfile(FS.path_vib_model,  FS.path_orig_model)
+    with open(FS.path_vib_model, mode='rb') as source_file, atomic_write(FS.path_orig_model, mode='wb') as target_file:
+        shutil.copyfileobj(source_file, target_file)
+
+    # save the orthogonal matrix in case we need to use it later
+    # both of these must be safely stored before we overwrite the only copy of the old model
+    with atomic_write(FS.path_ortho_mat, mode='wb') as target_file:
+        np.save(target_file, U)
 
     # overwrite the old model with the new model
     save_model_to_JSON(FS.path_vib_model, model)
-
-    # save the orthogonal matrix in case we need to use it later
-    np.save(FS.path_ortho_mat, U)
     return
 
 
-- 
2.43.0


From 0aeb63e64fc69bbeea6a710157214cbd157468a3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 16:02:22 +0000
Subject: [PATCH 17/52] fix: don't label results with the hashes of models
 which were changed while they were loaded

---
 pibronic/pimc/pimc.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index 1b4f66e..9c26837 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -690,6 +690,19 @@ class BoxData:
          ) = np.linalg.eigh(self.circulant_matrix, UPLO='L')
 
         self.initialize_models()
+        self.verify_models_have_not_changed()
+        return
+
+    def verify_models_have_not_changed(self):
+        """ raises an exception if the models (that were loaded) are not the ones the hashes were generated from
+        otherwise the results would be stored with hashes of a model which they don't belong to"""
+        if self.hash_vib is not None:
+            new_hash = vIO.create_model_hash(path=self.path_vib_model)
+            assert new_hash == self.hash_vib, f"the model {self.path_vib_model} was changed"
+
+        if self.hash_rho is not None:
+            new_hash = vIO.create_diagonal_model_hash(path=self.path_rho_model)
+            assert new_hash == self.hash_rho, f"the sampling model {self.path_rho_model} was changed"
         return
 
 
-- 
2.43.0


From 041ec8f7c8e36a33c85578102c08033fd145efc2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 16:02:26 +0000
Subject: [PATCH 18/52] fix: load diagonal models whose energies are all zero

---
 pibronic/vibronic/vibronic_model_io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pibronic/vibronic/vibronic_model_io.py b/pibronic/vibronic/vibronic_model_io.py
index e4a4b07..532ea7c 100755
--- a/pibronic/vibronic/vibronic_model_io.py
+++ b/pibronic/vibronic/vibronic_model_io.py
@@ -573,7 +573,7 @@ def _load_inplace_from_JSON(path, dictionary):
     return
 
 
-def _load_from_JSON(path):
+def _load_from_JSON(path, shape_function=model_shape_dict):
     """returns a dictionary filled with the values stored in the .json file located at path"""
 
     with open(path, mode='r', encoding='UTF8') as file:
@@ -589,7 +589,7 @@ def _load_from_JSON(path):
     # special case to always create an array of energies that are 0.0 if not provided in the .json file
     if VMK.E not in input_dictionary:
         A, N = _extract_dimensions_from_dictionary(input_dictionary)
-        shape = model_shape_dict(A, N)
+        shape = shape_function(A, N)
         input_dictionary[VMK.E] = np.zeros(shape[VMK.E], dtype=F64)
 
     # TODO - design decision about which arrays to fill with zeros by default?
@@ -634,7 +634,7 @@ def load_diagonal_model_from_JSON(path, dictionary=None):
 
     # no arrays were provided so return newly created arrays after filling them with the appropriate values
     if not bool(dictionary):
-        new_model_dict = _load_from_JSON(path)
+        new_model_dict = _load_from_JSON(path, diagonal_model_shape_dict)
 
         # TODO - we might want to make sure that none of the values in the dictionary have all zero values or are None
 
-- 
2.43.0


From 006ff9b71af1c7a6968ec505ac27b8f5a6af0d8c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 16:02:30 +0000
Subject: [PATCH 19/52] fix: keep all the members of FileStructure consistent
 with the directories on disk

---
 pibronic/data/file_structure.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pibronic/data/file_structure.py b/pibronic/data/file_structure.py
index bee2162..9e2b00b 100755
--- a/pibronic/data/file_structure.py
+++ b/pibronic/data/file_structure.py
@@ -139,9 +139,7 @@ class FileStructure:
 
     def directories_exist(self):
         """x"""
-        if False in map(os.path.isdir, self.dir_list):
-            return False
-        return True
+        return all(os.path.isdir(getattr(self, directory)) for directory in self.dir_list)
 
     def make_directories(self):
         """x"""
@@ -175,7 +173,12 @@ class FileStructure:
         calls make_rho_directories() to ensure the directories exist
         """
         self.make_rho_directories(id_rho)
+        self.id_rho = id_rho
+        # the hash of the previous sampling model is no longer valid
+        if self._has_rho_hash():
+            del self.hash_rho
         # update all the rho paths
+        self.path_rho = join(self.path_root, self.template_rho.format(self.id_data, id_rho))
         self.path_rho_params = join(self.path_root,
                                     self.template_rho_params.format(self.id_data, id_rho))
         self.path_rho_results = join(self.path_root,
-- 
2.43.0


From e95543f057db2625dd18609a837973078cbe1b25 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 16:03:08 +0000
Subject: [PATCH 20/52] fix: don't store the partial output of a julia script
 which failed

---
 pibronic/julia_wrapper.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pibronic/julia_wrapper.py b/pibronic/julia_wrapper.py
index 819d93c..397e1b2 100755
--- a/pibronic/julia_wrapper.py
+++ b/pibronic/julia_wrapper.py
@@ -103,6 +103,11 @@ def compute(command, path_src, old_dict, input_beta):
         print(f"We ran into an error: {error.decode():s}")
         return False
 
+    # check to make sure that the script didn't fail after printing some of its results
+    if p.returncode != 0:
+        print(f"The Julia script failed (return code {p.returncode}): {error.decode():s}")
+        return False
+
     output_dict = parse_ouput(out)
     # print(output_dict)
 
-- 
2.43.0


From b244285b60b6e79bf4b369a464d1e0badc560670 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 16:03:12 +0000
Subject: [PATCH 21/52] fix: concurrent julia calculations no longer discard
 each others results

---
 pibronic/julia_wrapper.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/pibronic/julia_wrapper.py b/pibronic/julia_wrapper.py
index 397e1b2..f0eea0e 100755
--- a/pibronic/julia_wrapper.py
+++ b/pibronic/julia_wrapper.py
@@ -3,6 +3,7 @@
 # system imports
 import subprocess
 import argparse
+import fcntl
 import json
 import sys
 import os
@@ -13,6 +14,7 @@ from os.path import join, isfile, dirname, realpath
 # local imports
 from pibronic import constants
 from pibronic.log_conf import log
+from pibronic.helper import atomic_write
 from pibronic.data import file_structure as fs
 from pibronic.server.job_boss import subprocess_run_wrapper
 
@@ -158,22 +160,28 @@ def validate_old_model_data(old_dict, FS):
 
 def base_func(FS, beta, path_dst=None, path_src=None, validate=None, command=None):
 
-    old_dict = {}
+    new_dict = {}
 
-    if isfile(path_dst):
-        with open(path_dst, 'r') as file:
-            data = file.read()
-            if len(data) > 1:
-                old_dict = json.loads(data)
+    if not compute(command, path_src, new_dict, beta):
+        raise Exception("Calculation did not complete successfully")
+
+    # other processes might be adding their results to the same file, make sure that we don't discard them
+    with open(path_dst + ".lock", 'w') as lock_file:
+        fcntl.flock(lock_file, fcntl.LOCK_EX)
+
+        old_dict = {}
 
-    validate(old_dict, FS)
+        if isfile(path_dst):
+            with open(path_dst, 'r') as file:
+                data = file.read()
+                if len(data) > 1:
+                    old_dict = json.loads(data)
 
-    if compute(command, path_src, old_dict, beta):
         validate(old_dict, FS)
-        with open(path_dst, 'w') as file:
+        old_dict.update(new_dict)
+
+        with atomic_write(path_dst, 'w') as file:
             json.dump(old_dict, file)
-    else:
-        raise Exception("Calculation did not complete successfully")
 
     return
 
-- 
2.43.0


From fbca9e3b73a0214aa1026f33bc7bbf8de8a69c9f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 16:03:17 +0000
Subject: [PATCH 22/52] fix: don't label julia results with the hash of a model
 they were not calculated from

---
 pibronic/julia_wrapper.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pibronic/julia_wrapper.py b/pibronic/julia_wrapper.py
index f0eea0e..750f263 100755
--- a/pibronic/julia_wrapper.py
+++ b/pibronic/julia_wrapper.py
@@ -16,6 +16,7 @@ from pibronic import constants
 from pibronic.log_conf import log
 from pibronic.helper import atomic_write
 from pibronic.data import file_structure as fs
+from pibronic.vibronic import vIO
 from pibronic.server.job_boss import subprocess_run_wrapper
 
 """ this dictionary is used to map the output of processes running Julia scripts
@@ -165,6 +166,11 @@ def base_func(FS, beta, path_dst=None, path_src=None, validate=None, command=Non
     if not compute(command, path_src, new_dict, beta):
         raise Exception("Calculation did not complete successfully")
 
+    # the results are stored together with these hashes
+    assert FS.hash_vib == vIO.create_model_hash(FS=FS), "the model was changed, generate the hashes again"
+    if validate is validate_old_rho_data:
+        assert FS.hash_rho == vIO.create_diagonal_model_hash(FS=FS), "the sampling model was changed, generate the hashes again"
+
     # other processes might be adding their results to the same file, make sure that we don't discard them
     with open(path_dst + ".lock", 'w') as lock_file:
         fcntl.flock(lock_file, fcntl.LOCK_EX)
-- 
2.43.0


From 0080307ec32fef31d41caecab605d630b7d7abd8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 16:05:29 +0000
Subject: [PATCH 23/52] fix: resume the electronic structure workflow after the
 last completed state

---
 pibronic/vibronic/electronic_structure.py | 37 ++++++++++++-----------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index 842af2e..730a97c 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -1511,32 +1511,33 @@ class VibronExecutionClass:
         with open(self.path_state, 'r') as file_state:
             lines = file_state.readlines()
 
+        # the last line holds the most recent state which was completed
         for line in reversed(lines):
 
-            # I believe there is a cleaner way to do this, should clean this up
-            # low priority
-            if line in ["", "\n"]:
-                continue
-
-            old_state = str(line.strip())
+            old_state = line.strip()
 
-            if old_state == State(State.max()):
-                self.state = State(State.max())
-
-            elif old_state in State:
-                self.state = State(State(old_state).value + 1)
+            if old_state == "":
+                continue
 
-            for member in State:
-                if member.name == str(line.strip()):
-                    self.state = State(member.value + 1)
-                    break
-            else:
+            if old_state not in State.__members__:
                 s = ("State file {:s} contained an invalid state: {:s}"
                      "Defaulting to initial state"
                      )
-                log.debug(s.format(line, self.path_state))
+                log.debug(s.format(self.path_state, old_state))
                 self.state = State(State.min())
-                break
+
+            # there is nothing left to do after the last state
+            elif State[old_state] == State.FINISHED:
+                self.state = State.FINISHED
+
+            else:
+                self.state = State(State[old_state].value + 1)
+
+            break
+
+        # the file only contained blank lines
+        else:
+            self.state = State(State.min())
 
         return
 
-- 
2.43.0


From 112c5064543cca53193c30417e849054f7a69907 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 16:08:50 +0000
Subject: [PATCH 24/52] fix: submit the jobs of the electronic structure
 workflow

---
 pibronic/server/job_boss.py               |  8 +++---
 pibronic/vibronic/electronic_structure.py | 30 +++++++++++------------
 2 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/pibronic/server/job_boss.py b/pibronic/server/job_boss.py
index 3d1841b..110d52c 100755
--- a/pibronic/server/job_boss.py
+++ b/pibronic/server/job_boss.py
@@ -25,9 +25,6 @@ from .. import pimc
 job_state_lock = threading.Lock()
 job_almost_done_flag = False
 
-# this should be redone
-# partition = 'highmem' if hostname == 'feynman' else 'serial'
-
 
 def get_path_to_python_executable():
     """returns the absolute path to the python executable currently executing this script"""
@@ -69,6 +66,11 @@ def get_hostname():
         raise Exception("Did not find ClusterName in the config data from scontrol!?")
 
 
+def get_partition():
+    """returns the name of the partition that jobs should be submitted to by default"""
+    return 'highmem' if get_hostname() == 'feynman' else 'serial'
+
+
 def SIGUSR1_handle(signum, frame):
     """signal handler - uses job_state_lock to record signal using the bool job_almost_done_flag"""
     global job_almost_done_flag
diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index 730a97c..23ef137 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -347,9 +347,9 @@ def submit_job(parameter_dictionary):
     job_id, out, error = job_boss.submit_job(command, parameter_dictionary)
 
     # check for any errors
-    if error.decode('utf-8') is not "":
+    if error != "":
         s = "Failed to execute script \n{:s}\n due to {:s}"
-        raise Exception(s.format(command, error.decode('utf-8')))
+        raise Exception(s.format(command, error))
 
     return job_id
 # -----------------------------------------------------------
@@ -438,14 +438,14 @@ def hartree_fock_calculation(path_root, name, zmat, parameter_dictionary, hf_typ
         "cpus": 1,
         "work_dir": path_root,
         "output": path_output,
-        "partition": job_boss.partition,
+        "partition": job_boss.get_partition(),
         "make_scratch": 0,
         "scratch_in": copy_in,
         "scratch_out": copy_out,
         "pre_amble": "jobaces",
         "job_name": file_name.replace(".in", ""),
         "post_amble": "",
-        "hostname": job_boss.hostname,
+        "hostname": job_boss.get_hostname(),
         "parent_pid": os.getpid(),
     }
 
@@ -712,14 +712,14 @@ def geometry_optimization(path_root, name, zmat, parameter_dictionary):
         "cpus": 1,
         "work_dir": path_root,
         "output": "",
-        "partition": job_boss.partition,
+        "partition": job_boss.get_partition(),
         "make_scratch": "",
         "scratch_in": "",
         "scratch_out": "",
         "pre_amble": "jobaces",
         "job_name": file_name.replace(".in", ""),
         "post_amble": "",
-        "hostname": job_boss.hostname,
+        "hostname": job_boss.get_hostname(),
         "parent_pid": os.getpid(),
     }
 
@@ -850,14 +850,14 @@ def vibrational_frequency(path_root, name, zmat, parameter_dictionary):
         "cpus": 1,
         "work_dir": path_root,
         "output": "",
-        "partition": job_boss.partition,
+        "partition": job_boss.get_partition(),
         "make_scratch": "",
         "scratch_in": "",
         "scratch_out": "",
         "pre_amble": "jobaces",
         "job_name": file_name.replace(".in", ""),
         "post_amble": "fcm",
-        "hostname": job_boss.hostname,
+        "hostname": job_boss.get_hostname(),
         "parent_pid": os.getpid(),
     }
 
@@ -919,14 +919,14 @@ def ip_calculation(path_root, name, zmat, parameter_dictionary):
         "cpus": 1,
         "work_dir": path_root,
         "output": "",
-        "partition": job_boss.partition,
+        "partition": job_boss.get_partition(),
         "make_scratch": "",
         "scratch_in": "",
         "scratch_out": "",
         "pre_amble": "jobaces",
         "job_name": file_name.replace(".in", ""),
         "post_amble": "",
-        "hostname": job_boss.hostname,
+        "hostname": job_boss.get_hostname(),
         "parent_pid": os.getpid(),
     }
 
@@ -1040,7 +1040,7 @@ def _create_template(zmat, memory_size):
     template += "\n\t" + "heff_high=200"
     template += "\n" + "*end"
     template += "\n"
-    return
+    return template
 
 
 def prepVibron_calculation(path_root, name, zmat, parameter_dictionary):
@@ -1068,14 +1068,14 @@ def prepVibron_calculation(path_root, name, zmat, parameter_dictionary):
         "cpus": 2,
         "work_dir": path_root,
         "output": "",
-        "partition": job_boss.partition,
+        "partition": job_boss.get_partition(),
         "make_scratch": "",
         "scratch_in": "",
         "scratch_out": "",
         "pre_amble": "jobaces",
         "job_name": file_name.replace(".in", ""),
         "post_amble": "vibron",
-        "hostname": job_boss.hostname,
+        "hostname": job_boss.get_hostname(),
         "parent_pid": os.getpid(),
     }
 
@@ -1250,14 +1250,14 @@ def vibron_calculation(path_root, name, zmat, parameter_dictionary):
         "cpus": 1,
         "work_dir": path_root,
         "output": "",
-        "partition": job_boss.partition,
+        "partition": job_boss.get_partition(),
         "make_scratch": "",
         "scratch_in": "",
         "scratch_out": "",
         "pre_amble": "jobvibron",
         "job_name": file_name.replace(".in", ""),
         "post_amble": "",
-        "hostname": job_boss.hostname,
+        "hostname": job_boss.get_hostname(),
         "parent_pid": os.getpid(),
     }
 
-- 
2.43.0


From 09f746bd7b350280914053e2f29e0db4f20fade5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 16:08:55 +0000
Subject: [PATCH 25/52] fix: only record the vibron calculation as completed
 after its output is verified

---
 pibronic/vibronic/electronic_structure.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index 23ef137..76e7add 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -1626,7 +1626,8 @@ class VibronExecutionClass:
         """wrapper method"""
         if self.state == State.VIBRON:
             vibron_calculation(self.path_root, self.name, self.zmat, self.parameter_dictionary)
-            self.advance()
+            parse_vibron_output(self)
+            self.advance()  # important to do after parsing vibron_output
         return
 
     def calculate_vibronic_model(self):
@@ -1654,8 +1655,7 @@ class VibronExecutionClass:
             parse_prepVibron_output(self)
 
             self.vibron_calc()
-            parse_vibron_output(self)
-            self.advance()  # important to do after parsing vibron_output
+            self.advance()  # record that we are finished
             log.info("We have reached the end of execution.")
         return
 
-- 
2.43.0


From 919d73073d87f02882a9a1aac9b96a53cc84ee4d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 16:08:59 +0000
Subject: [PATCH 26/52] fix: the parameters of one molecule no longer leak into
 the next

---
 pibronic/vibronic/electronic_structure.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index 76e7add..d769895 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -1441,6 +1441,7 @@ class VibronExecutionClass:
     def __init__(self, name, root, state=None):
         self.name = name
         self.path_root = root
+        self.parameter_dictionary = self.parameter_dictionary.copy()
         self.file_in = default_file_in.copy()
         self.file_out = default_file_out.copy()
         self.path_state = join(self.path_root, name_of_state_file)
-- 
2.43.0


From 1fce8a8acb6ed88e300dbf5b09c8a3658b0432e2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 16:09:04 +0000
Subject: [PATCH 27/52] fix: search the text of the slurm output for errors

---
 pibronic/server/job_boss.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/pibronic/server/job_boss.py b/pibronic/server/job_boss.py
index 110d52c..aece4c6 100755
--- a/pibronic/server/job_boss.py
+++ b/pibronic/server/job_boss.py
@@ -152,19 +152,21 @@ def check_slurm_output(path_root, id_job):
     log.debug(f"Checking slurm output:\n{slurm_path:}\n")
 
     with open(slurm_path, "r") as source_file:
-        if not ("Finished" in source_file):
-            log.debug("We got here too early?")  # should this be an exception?
+        slurm_output = source_file.read()
 
-        elif "SIGSEGV" in source_file:
-            raise MemoryError(f"Job {id_job:d} had a Segmentation fault, see file {slurm_path:s}")
+    if not ("Finished" in slurm_output):
+        log.debug("We got here too early?")  # should this be an exception?
 
-        elif "Killed" in source_file:
-            # most likely cause is that it ran out of memory
-            if "Exceeded step memory limit" in source_file:
-                raise MemoryError(f"Job {id_job:d} ran out of memory, see file {slurm_path:s}")
-            raise Exception(f"Job {id_job:d} failed for an unknown reason, see file {slurm_path:s}")
-        else:
-            log.warning(f"Undefined execution, check file {slurm_path:s} for issues")
+    elif "SIGSEGV" in slurm_output:
+        raise MemoryError(f"Job {id_job:d} had a Segmentation fault, see file {slurm_path:s}")
+
+    elif "Killed" in slurm_output:
+        # most likely cause is that it ran out of memory
+        if "Exceeded step memory limit" in slurm_output:
+            raise MemoryError(f"Job {id_job:d} ran out of memory, see file {slurm_path:s}")
+        raise Exception(f"Job {id_job:d} failed for an unknown reason, see file {slurm_path:s}")
+    else:
+        log.warning(f"Undefined execution, check file {slurm_path:s} for issues")
     return
 
 
-- 
2.43.0


From b74fb5576eef83100e3a19bc71f4e54879d09446 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 16:10:03 +0000
Subject: [PATCH 28/52] fix: stop waiting on jobs which failed or never send a
 signal

---
 pibronic/server/job_boss.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/pibronic/server/job_boss.py b/pibronic/server/job_boss.py
index aece4c6..d6042f9 100755
--- a/pibronic/server/job_boss.py
+++ b/pibronic/server/job_boss.py
@@ -81,11 +81,11 @@ def SIGUSR1_handle(signum, frame):
         log.lock("I was able to acquire the lock")
         job_almost_done_flag = (signum == signal.SIGUSR1)
         job_state_lock.release()
-    # if we can't acquire the lock then set an alarm
+    # if we can't acquire the lock then this thread is about to wait, or was waiting, for the signal
+    # it checks the flag periodically
     else:
-        log.lock("I couldn't aquire the lock so I'm setting an alarm")
+        log.lock("I couldn't aquire the lock")
         job_almost_done_flag = (signum == signal.SIGUSR1)
-        signal.alarm(10)  # set the alarm to wake up this thread
     return
 
 
@@ -103,6 +103,12 @@ def check_running_state(id_job):
     return result.stdout, result.stderr
 
 
+def job_was_unsuccessful(out):
+    """returns True if the running state of the job (from SLURM) shows that it can no longer complete successfully"""
+    states = ("BOOT_FAIL", "CANCELLED", "DEADLINE", "FAILED", "NODE_FAIL", "OUT_OF_MEMORY", "TIMEOUT")
+    return any(f"JobState={state}" in out for state in states)
+
+
 def synchronize_with_job(id_job, job_type="default"):
     """synchronizes with a submitted job """
     log.lock(f"Synchronizing with job (id={id_job:})")
@@ -112,12 +118,17 @@ def synchronize_with_job(id_job, job_type="default"):
     if error_state == '':
         log.lock("About to Enter critical section")
         with job_state_lock:
-            if not job_almost_done_flag:
-                # wait for the signal or the alarm
+            # wait for the signal, if the job is killed then the signal might never arrive
+            # so we periodically check if the job has left the queue
+            while not job_almost_done_flag:
                 log.lock(f"Waiting on \'{job_type:s}\' job (id={id_job:})")
-                signal.sigwait([signal.SIGUSR1, signal.SIGALRM])
-                log.lock("Woke up")
+                if signal.sigtimedwait([signal.SIGUSR1, ], 10) is not None:
+                    break
+                out, error_state = check_running_state(id_job)
+                if error_state != '' or "COMPLETED" in out or job_was_unsuccessful(out):
+                    break
 
+            log.lock("Woke up")
             log.lock("About to leave the critical section")
     else:
         raise Exception(f"Undefined behaviour, the job state was:\n {error_state:s}")
@@ -130,6 +141,10 @@ def synchronize_with_job(id_job, job_type="default"):
         if "COMPLETED" in out:
             break
 
+        # there is nothing left to wait for
+        elif job_was_unsuccessful(out):
+            raise Exception(f"\'{job_type:s}\' job (id={id_job:}) failed, the job state was:\n {out:s}")
+
         # If the "COMPLETED" string is not in the job's state file AND scontrol reports no errors
         # the most likely cause is the state file has not been updated since the job left the queue
         # therefore we should wait until the state file is updated
-- 
2.43.0


From b1997d6be526214a7f9f340fe26f3063defa8fcf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 16:50:52 +0000
Subject: [PATCH 29/52] fix: read the stored sequences with a single character
 delimiter

numpy only accepts a single character as the delimiter of a text file, so no
orthonormal matrix could be created for a tuning parameter other than zero.
---
 pibronic/vibronic/orthonormal/sequences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/vibronic/orthonormal/sequences.py b/pibronic/vibronic/orthonormal/sequences.py
index c54daea..9cb1338 100755
--- a/pibronic/vibronic/orthonormal/sequences.py
+++ b/pibronic/vibronic/orthonormal/sequences.py
@@ -114,7 +114,7 @@ def path_to_sequence_file(order):
     return path
 
 
-def load_sequence(order, delimiter=", "):
+def load_sequence(order, delimiter=","):
     """ returns a list of [y, x] pairs (which are length 2 lists)
     throws an assert error if the file does not exist
     takes a integer parameter which specifies which file to load"""
-- 
2.43.0


From 30b6b49cb9b2ca8a6f4213f18fd0c5bc5b9d0096 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 16:53:16 +0000
Subject: [PATCH 30/52] fix: check that the model is still the same while
 holding the lock

Otherwise a process whose model was changed after the check could throw away
the results which another process had stored for the new model.
---
 pibronic/julia_wrapper.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pibronic/julia_wrapper.py b/pibronic/julia_wrapper.py
index 750f263..a3e74bd 100755
--- a/pibronic/julia_wrapper.py
+++ b/pibronic/julia_wrapper.py
@@ -166,15 +166,15 @@ def base_func(FS, beta, path_dst=None, path_src=None, validate=None, command=Non
     if not compute(command, path_src, new_dict, beta):
         raise Exception("Calculation did not complete successfully")
 
-    # the results are stored together with these hashes
-    assert FS.hash_vib == vIO.create_model_hash(FS=FS), "the model was changed, generate the hashes again"
-    if validate is validate_old_rho_data:
-        assert FS.hash_rho == vIO.create_diagonal_model_hash(FS=FS), "the sampling model was changed, generate the hashes again"
-
     # other processes might be adding their results to the same file, make sure that we don't discard them
     with open(path_dst + ".lock", 'w') as lock_file:
         fcntl.flock(lock_file, fcntl.LOCK_EX)
 
+        # the results are stored together with these hashes
+        assert FS.hash_vib == vIO.create_model_hash(FS=FS), "the model was changed, generate the hashes again"
+        if validate is validate_old_rho_data:
+            assert FS.hash_rho == vIO.create_diagonal_model_hash(FS=FS), "the sampling model was changed, generate the hashes again"
+
         old_dict = {}
 
         if isfile(path_dst):
-- 
2.43.0


From 078c7985b55170797591331eff964cc121699094 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 17:00:42 +0000
Subject: [PATCH 31/52] fix: look for the state of the job only, not anywhere
 in its description

The description also has the job's name and working directory, a job in a
directory whose name has COMPLETED in it was taken to be complete right away.
---
 pibronic/server/job_boss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pibronic/server/job_boss.py b/pibronic/server/job_boss.py
index d6042f9..6e035b1 100755
--- a/pibronic/server/job_boss.py
+++ b/pibronic/server/job_boss.py
@@ -125,7 +125,7 @@ def synchronize_with_job(id_job, job_type="default"):
                 if signal.sigtimedwait([signal.SIGUSR1, ], 10) is not None:
                     break
                 out, error_state = check_running_state(id_job)
-                if error_state != '' or "COMPLETED" in out or job_was_unsuccessful(out):
+                if error_state != '' or "JobState=COMPLETED" in out or job_was_unsuccessful(out):
                     break
 
             log.lock("Woke up")
@@ -138,7 +138,7 @@ def synchronize_with_job(id_job, job_type="default"):
         out, error_state = check_running_state(id_job)
 
         # if this string is in the job's state file then it successfully executed
-        if "COMPLETED" in out:
+        if "JobState=COMPLETED" in out:
             break
 
         # there is nothing left to wait for
-- 
2.43.0


From 5fa5d99e23107328f989e295ef20a1959eb94599 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:10:24 +0000
Subject: [PATCH 32/52] fix: verify the percent singles of every state of an
 ionization potential calculation

---
 pibronic/vibronic/electronic_structure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index d769895..91d07cb 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -965,7 +965,8 @@ def parse_ip_output(vibron):
 
                 # throw away the header lines
                 past_headers = skip_forward_n_lines(memmap_file, 5, memmap_file.tell())
-                memmap_file.seek(past_headers)
+                # past_headers is the location of the newline character at the end of the last header line
+                memmap_file.seek(past_headers + 1)
 
                 # store the lines with the relevant information
                 lines = []
-- 
2.43.0


From 4cc2a63e5bb76deaef0fdf65571b2a3fe71b5a99 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:32:45 +0000
Subject: [PATCH 33/52] fix: the g(R) of the training data is that of the
 stored R values

---
 pibronic/pimc/pimc.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index 9c26837..27854c0 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -602,13 +602,11 @@ class BoxData:
 
     def generate_random_R_values(self, result, storage_array, sample_view):
         """Randomly generates R values that have no relation to the distribution rho or g
-        they only have the correct dimensions BANP and are shifted appropriately """
+        they only have the correct dimensions BANP
+        build_o_matrix() applies the surface dependent shift, and the coupling matrix is a function of R itself """
         # generate sample points in dimensionless co-ordinates R
         storage_array[sample_view, :, :] = np.random.random(size=self.rho.size['BNP'])
         np.copyto(self.qTensor, storage_array[sample_view, NEW, ...])
-
-        # we transform the dimensionless co-ordinates to surface dependent co-ordinates q = R - d
-        self.qTensor -= self.vib.state_shift[NEW, :, :, NEW]
         return
 
     def transform_sampled_coordinates(self, sample_view):
@@ -1345,7 +1343,7 @@ def block_compute_gR_from_raw_samples(data, result):
         end = (block_index + 1) * data.block_size
         sample_view = slice(start, end)
 
-        # generate sample points in surface dependent co-ordinates q = R - d
+        # generate sample points in dimensionless co-ordinates R
         # but which were not sampled from
         data.generate_random_R_values(result, input_view, sample_view)
 
-- 
2.43.0


From 206f7742633cdf358bc24e6be43384970d5eea93 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:32:45 +0000
Subject: [PATCH 34/52] fix: the rho(R) of the training data is that of the
 provided R values

---
 pibronic/pimc/pimc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index 27854c0..7e4ac90 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -1311,9 +1311,9 @@ def block_compute_rhoR_from_input_samples(data, result, input_R_values):
         sample_view = slice(start, end)
 
         # we copy in the data values that we read in from load_R_samples
+        # (build_o_matrix transforms them to surface dependent co-ordinates q = R - d)
         data.qTensor[:] = input_R_view[sample_view, NEW, ...]
-        # we transform the dimensionless co-ordinates to surface dependent co-ordinates q = R - d
-        data.qTensor -= data.vib.state_shift[NEW, :, :, NEW]
+        data.qTempTensor[:] = input_R_view[sample_view, NEW, ...]
 
         # build O matrices for system distribution
         build_o_matrix(data, rho.const, rho.state_shift)
-- 
2.43.0


From 9bf34ff88959eb58bfb5d59b85e2d45849447cb9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:32:45 +0000
Subject: [PATCH 35/52] fix: training data always consists of complete files
 which belong together

---
 pibronic/pimc/pimc.py | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index 7e4ac90..281cb21 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -1273,21 +1273,31 @@ def save_gR_with_samples(data, result, input_R_values):
     don't want to pollute BoxResult with extra functions that might not be necessary in the future
     so this will go here for now"""
 
-    result.partial_name = partial(file_name.training_data_g_output().format, P=data.beads, T=data.temperature)
-    path = result.compute_path_to_file()
+    # the samples past the last block have not been computed
+    number_of_samples = data.blocks * data.block_size
+    result_view = slice(0, number_of_samples)
 
-    np.savez(path,
-             number_of_samples=result.samples,
-             g=result.scaled_g,
-             )
+    result.partial_name = partial(file_name.training_data_g_output().format, P=data.beads, T=data.temperature)
+    path_g = result.compute_path_to_file()
 
     result.partial_name = partial(file_name.training_data_input().format, P=data.beads, T=data.temperature)
-    path = result.compute_path_to_file()
-
-    np.savez(path,
-             number_of_samples=result.samples,
-             input_R_values=input_R_values,
-             )
+    path_R = result.compute_path_to_file()
+
+    # g(R) is stored last, so that a g(R) file always belongs to the R values beside it
+    if os.path.isfile(path_g):
+        os.remove(path_g)
+
+    with atomic_write(path_R, mode='wb') as target_file:
+        np.savez(target_file,
+                 number_of_samples=number_of_samples,
+                 input_R_values=input_R_values[result_view],
+                 )
+
+    with atomic_write(path_g, mode='wb') as target_file:
+        np.savez(target_file,
+                 number_of_samples=number_of_samples,
+                 g=result.scaled_g[result_view],
+                 )
     return
 
 
-- 
2.43.0


From 93cac8c1aaa1e9667ffb9bab62ac5851ea58cb58 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:39:55 +0000
Subject: [PATCH 36/52] fix: don't double the higher order couplings of all but
 the last state of an operator file

---
 pibronic/vibronic/model_op.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pibronic/vibronic/model_op.py b/pibronic/vibronic/model_op.py
index cb01b42..5bdb09a 100755
--- a/pibronic/vibronic/model_op.py
+++ b/pibronic/vibronic/model_op.py
@@ -386,9 +386,9 @@ def read_model_op_file(path_file_op):
     # don't over count the diagonals
     for a in States:
         linear_couplings[:, a, a] /= 2.
-        quadratic_couplings[:, :, a, b] /= 2.
-        cubic_couplings[:, :, :, a, b] /= 2.
-        quartic_couplings[:, :, :, :, a, b] /= 2.
+        quadratic_couplings[:, :, a, a] /= 2.
+        cubic_couplings[:, :, :, a, a] /= 2.
+        quartic_couplings[:, :, :, :, a, a] /= 2.
 
     # check for symmetry in surfaces
     assert np.allclose(excitation_energies, excitation_energies.transpose(1, 0))
-- 
2.43.0


From 4ec76318e8a5bedbfd22ad5ad174c2dd1c55c00b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:39:55 +0000
Subject: [PATCH 37/52] fix: refuse operator files whose parameter section is
 incomplete

---
 pibronic/vibronic/model_op.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pibronic/vibronic/model_op.py b/pibronic/vibronic/model_op.py
index 5bdb09a..9c4bce7 100755
--- a/pibronic/vibronic/model_op.py
+++ b/pibronic/vibronic/model_op.py
@@ -334,6 +334,9 @@ def read_model_op_file(path_file_op):
         # access the file using memory map for efficiency
         with mmap.mmap(source_file.fileno(), 0, prot=mmap.PROT_READ) as mm:
 
+            # the couplings are optional, so make sure that none are missing only because the file is incomplete
+            helper.find_string_in_file(mm, path_file_op, 'end-parameter-section')
+
             frequencies = extract_normal_mode_frequencies(path_file_op, mm)
             excitation_energies = extract_energies(path_file_op, mm)
 
-- 
2.43.0


From 7f511d900481a6390024bff4f8e44031b7dda95a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:03:52 +0000
Subject: [PATCH 38/52] fix: load all arrays of a result file from one opened
 file

---
 pibronic/pimc/pimc.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index 281cb21..3d7a50e 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -861,8 +861,13 @@ class BoxResult:
                 raise AssertionError("BoxResult has a different number of samples that the input file - this should not happen")
 
             self.initialize_arrays()
-            self.scaled_g = data["s_g"]
-            self.scaled_rho = data["s_rho"]
+            self.load_arrays(data)
+        return
+
+    def load_arrays(self, data):
+        """ take all arrays from the one (already opened) file `data`"""
+        self.scaled_g = data["s_g"]
+        self.scaled_rho = data["s_rho"]
         return
 
     def load_multiple_results(self, list_of_paths, desired_number_of_samples=None):
@@ -982,13 +987,11 @@ class BoxResultPM(BoxResult):
                      )
         return
 
-    def load_results(self, path):
+    def load_arrays(self, data):
         """x"""
-        super().load_results(path)
-        # this could be more efficient, since we open the file twice
-        with np.load(path) as data:
-            self.scaled_gofr_plus = data["s_gP"]
-            self.scaled_gofr_minus = data["s_gM"]
+        super().load_arrays(data)
+        self.scaled_gofr_plus = data["s_gP"]
+        self.scaled_gofr_minus = data["s_gM"]
         return
 
     def load_multiple_results(self, list_of_paths, desired_number_of_samples=None):
-- 
2.43.0


From 67789abb1b380a636419224028c71951106816ea Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:06:05 +0000
Subject: [PATCH 39/52] fix: never leave samples unset when a result file is
 replaced while results are collated

---
 pibronic/pimc/pimc.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index 3d7a50e..5fe89da 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -878,6 +878,8 @@ class BoxResult:
         assert not len(list_of_paths) == 0, "list_of_paths cannot be empty"
 
         list_of_bad_paths = []
+        counted = {}
+        requested = (list_of_paths, desired_number_of_samples)
 
         for path in list_of_paths:
             # should verify path is correct?
@@ -893,6 +895,7 @@ class BoxResult:
                 # BoxResult.verify_hashes_are_valid()
                 # should verify file is not empty?
                 if self.__class__.result_keys_are_present_in(data.keys()):
+                    counted[path] = data["number_of_samples"]
                     number_of_samples += data["number_of_samples"]
                 else:
                     list_of_bad_paths.append(path)
@@ -924,6 +927,9 @@ class BoxResult:
             if start >= desired_number_of_samples:
                 break
             with np.load(path) as data:
+                if data["number_of_samples"] != counted[path]:
+                    # the file was replaced after we counted its samples, so start over
+                    return self.load_multiple_results(*requested)
                 length = min(data["number_of_samples"], desired_number_of_samples - start)
                 assert not np.any(data["s_rho"][0:length] == 0.0), "Zeros in the denominator"
                 self.scaled_g[start:start+length] = data["s_g"][0:length]
@@ -1002,6 +1008,8 @@ class BoxResultPM(BoxResult):
         assert not len(list_of_paths) == 0, "list_of_paths cannot be empty"
 
         list_of_bad_paths = []
+        counted = {}
+        requested = (list_of_paths, desired_number_of_samples)
 
         try:
             for path in list_of_paths:
@@ -1018,6 +1026,7 @@ class BoxResultPM(BoxResult):
                     # BoxResult.verify_hashes_are_valid()
                     # should verify file is not empty?
                     if self.__class__.result_keys_are_present_in(data.keys()):
+                        counted[path] = data["number_of_samples"]
                         number_of_samples += data["number_of_samples"]
                     else:
                         list_of_bad_paths.append(path)
@@ -1052,6 +1061,9 @@ class BoxResultPM(BoxResult):
             if start >= desired_number_of_samples:
                 break
             with np.load(path) as data:
+                if data["number_of_samples"] != counted[path]:
+                    # the file was replaced after we counted its samples, so start over
+                    return self.load_multiple_results(*requested)
                 length = min(data["number_of_samples"], desired_number_of_samples - start)
                 assert not np.any(data["s_rho"][0:length] == 0.0), "Zeros in the denominator"
                 self.scaled_g[start:start+length] = data["s_g"][0:length]
-- 
2.43.0


From 96e9e5c54045acc5c46837de4c32b088cdf3a98b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:15:38 +0000
Subject: [PATCH 40/52] fix: don't present the sum-over-states results of one
 data set as those of another

---
 pibronic/plotting/plotting.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pibronic/plotting/plotting.py b/pibronic/plotting/plotting.py
index 2d8d1d9..0103485 100755
--- a/pibronic/plotting/plotting.py
+++ b/pibronic/plotting/plotting.py
@@ -3,7 +3,6 @@
 
 # system imports
 import json
-import os
 from os.path import join
 
 # third party imports
@@ -66,9 +65,8 @@ def load_sos(self, basis_size=80):
     for idx_FS, FS in enumerate(self.FS_lst):
         path = FS.template_sos_vib.format(B=basis_size)
 
-        if os.path.isfile(path):
-            with open(path, 'r') as file:
-                data = json.loads(file.read())
+        with open(path, 'r') as file:
+            data = json.loads(file.read())
 
         for T in self.lst_T[idx_FS]:
             self.sos_list[idx_FS][f"{T:.2f}"] = data[f"{T:.2f}"]
-- 
2.43.0


From e378d6e4e3972ecb685e0ae1a3ec83d169167a83 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:15:38 +0000
Subject: [PATCH 41/52] fix: plots only compare results with references of the
 same models

---
 pibronic/plotting/plotting.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pibronic/plotting/plotting.py b/pibronic/plotting/plotting.py
index 0103485..f97b4c9 100755
--- a/pibronic/plotting/plotting.py
+++ b/pibronic/plotting/plotting.py
@@ -19,6 +19,13 @@ from ..constants import beta
 from ..vibronic import vIO
 
 
+def assert_reference_is_current(FS, path, data, hashes=("hash_vib", "hash_rho")):
+    """ results of other models can't be compared to results of the current models """
+    for key in hashes:
+        assert data.get(key) == getattr(FS, key), f"{key:s} of {path:s} is not the one of the current models"
+    return
+
+
 def load_analytical_original(self):
     """ generic loading function that can be used by multiple plotting classes """
 
@@ -30,6 +37,7 @@ def load_analytical_original(self):
 
         with open(FS.path_analytic_orig, 'r') as file:
             data = json.loads(file.read())
+        assert_reference_is_current(FS, FS.path_analytic_orig, data, ["hash_vib"])
 
         for T in self.lst_T[idx_FS]:
             self.analytical_orig_list[idx_FS][f"{T:.2f}"] = data[f"{T:.2f}"]
@@ -48,6 +56,7 @@ def load_analytical_sampling(self):
 
         with open(FS.path_analytic_rho, 'r') as file:
             data = json.loads(file.read())
+        assert_reference_is_current(FS, FS.path_analytic_rho, data)
 
         for T in self.lst_T[idx_FS]:
             self.analytical_rho_list[idx_FS][f"{T:.2f}"] = data[f"{T:.2f}"]
@@ -67,6 +76,7 @@ def load_sos(self, basis_size=80):
 
         with open(path, 'r') as file:
             data = json.loads(file.read())
+        assert_reference_is_current(FS, path, data, ["hash_vib"])
 
         for T in self.lst_T[idx_FS]:
             self.sos_list[idx_FS][f"{T:.2f}"] = data[f"{T:.2f}"]
@@ -99,6 +109,7 @@ def load_trotter_coupled(self, basis_size=80):
                 try:
                     with open(path, 'r') as file:
                         data = json.loads(file.read())
+                    assert_reference_is_current(FS, path, data, ["hash_vib"])
 
                     for idx, key in enumerate(trotter_key_list):
                         val = data[f"{T:.2f}"].get(key, None)
@@ -310,11 +321,13 @@ class plot_original_Z_test(plotVirtual):
 
         with open(FS.path_analytic_orig, 'r') as file:
             data = json.loads(file.read())
+            assert_reference_is_current(FS, FS.path_analytic_orig, data, ["hash_vib"])
             for T in self.lst_T[0]:
                 self.analytical_orig_dict[f"{T:.2f}"] = data[f"{T:.2f}"]
 
         with open(FS.path_analytic_rho, 'r') as file:
             data = json.loads(file.read())
+            assert_reference_is_current(FS, FS.path_analytic_rho, data)
             for T in self.lst_T[0]:
                 self.analytical_rho_dict[f"{T:.2f}"] = data[f"{T:.2f}"]
 
-- 
2.43.0


From 71db0ca84d91a4ad6a1d736c22dde061900cd225 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:15:38 +0000
Subject: [PATCH 42/52] fix: the plot of the heat capacity raised an
 AttributeError

---
 pibronic/plotting/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/plotting/plotting.py b/pibronic/plotting/plotting.py
index f97b4c9..5decd08 100755
--- a/pibronic/plotting/plotting.py
+++ b/pibronic/plotting/plotting.py
@@ -1110,7 +1110,7 @@ class plot_Z_test(plotVirtual):
         # print Cv values
         for T in self.lst_T[idx_FS]:
             idx_T = self.lst_T[idx_FS].index(T)
-            tau_values = self.generate_tau_values(T)
+            tau_values = generate_tau_values(self, T, idx_FS)
             for X in self.lst_X[idx_FS]:
                 idx_X = self.lst_X[idx_FS].index(X)
 
-- 
2.43.0


From ef3c13fa087b9712ebaa60028c18c56e6a09990f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:17:27 +0000
Subject: [PATCH 43/52] fix: plots don't take values from result files which
 were replaced by those of other models

---
 pibronic/plotting/plotting.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pibronic/plotting/plotting.py b/pibronic/plotting/plotting.py
index 5decd08..f5de608 100755
--- a/pibronic/plotting/plotting.py
+++ b/pibronic/plotting/plotting.py
@@ -225,6 +225,10 @@ class plot_Z_multiple_FS(plotVirtual):
                 with open(path, 'r') as file:
                     data = json.loads(file.read())
 
+                # the file might have been replaced after it was selected
+                if data.get("hash_vib") != FS.hash_vib or data.get("hash_rho") != FS.hash_rho:
+                    continue
+
                 for key in data:
                     if key != "hash_vib" and key != "hash_rho":
                         self.arr[idx_FS][idx_P, idx_T, idx_X][key] = data[key]
@@ -292,6 +296,8 @@ class plot_original_Z_test(plotVirtual):
 
         self.arr = np.full(dims, np.nan, dtype=dicttype)
 
+        FS = self.FS_lst[0]
+
         for path in self.list_jackknife[0]:
             P = pp.extract_bead_value_from_thermo_file_path(path)
             T = pp.extract_temperature_value_from_thermo_file_path(path)
@@ -306,6 +312,10 @@ class plot_original_Z_test(plotVirtual):
             with open(path, 'r') as file:
                 data = json.loads(file.read())
 
+            # the file might have been replaced after it was selected
+            if data.get("hash_vib") != FS.hash_vib or data.get("hash_rho") != FS.hash_rho:
+                continue
+
             for key in data:
                 if key != "hash_vib" and key != "hash_rho":
                     self.arr[idx_P, idx_T, idx_X][key] = data[key]
@@ -1013,6 +1023,8 @@ class plot_Z_test(plotVirtual):
 
         self.arr = np.full(dims, np.nan, dtype=dicttype)
 
+        FS = self.FS_lst[0]
+
         for path in self.list_jackknife[0]:
             P = pp.extract_bead_value_from_thermo_file_path(path)
             T = pp.extract_temperature_value_from_thermo_file_path(path)
@@ -1027,6 +1039,10 @@ class plot_Z_test(plotVirtual):
             with open(path, 'r') as file:
                 data = json.loads(file.read())
 
+            # the file might have been replaced after it was selected
+            if data.get("hash_vib") != FS.hash_vib or data.get("hash_rho") != FS.hash_rho:
+                continue
+
             for key in data:
                 if key != "hash_vib" and key != "hash_rho":
                     self.arr[idx_P, idx_T, idx_X][key] = data[key]
-- 
2.43.0


From e64de976547ed26dc24de34ee601440de0364cdf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:45:55 +0000
Subject: [PATCH 44/52] fix: the weights of the oscillators don't underflow for
 high energies or low temperatures

---
 pibronic/pimc/pimc.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index 5fe89da..17677b0 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -341,11 +341,14 @@ class ModelSampling(ModelClass):
 
     def compute_weight_for_each_state(self):
         """these are the weights for the oscillators associated with each state"""
-        self.state_weight = np.exp(-self.beta * (self.energy + self.delta_weight))
+        self.state_weight = -self.beta * (self.energy + self.delta_weight)
+        # only their ratios matter, and without this all of them can underflow (or overflow)
+        self.state_weight -= self.state_weight.max()
+        self.state_weight = np.exp(self.state_weight)
         # self.state_weight /= 2. * np.prod(np.sinh((self.beta * self.omega) / 2.))
 
         # we believe the factor of 2 on the outside cancels out in equation 49.
-        self.state_weight /= np.prod(np.sinh((self.beta * self.omega) / 2.))
+        # The product of the sinh() is the same for every state, and can overflow, it cancels out as well.
 
         # normalize the weights
         self.state_weight /= self.state_weight.sum()
-- 
2.43.0


From 5a36749f2dbbd70985c6f54d38ec36a979f9b080 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:14:28 +0000
Subject: [PATCH 45/52] fix: the inset of a comparison of Z shows the
 temperature and the samples of the plot

InsetPosition is gone from current matplotlib, so that no comparison of a
data set >= 10 could be drawn; the temperature was always taken to be 300 K
and the label named other samples than were shown.
---
 pibronic/plotting/plotting.py | 61 ++++++++++++++---------------------
 1 file changed, 25 insertions(+), 36 deletions(-)

diff --git a/pibronic/plotting/plotting.py b/pibronic/plotting/plotting.py
index f5de608..d4f04a5 100755
--- a/pibronic/plotting/plotting.py
+++ b/pibronic/plotting/plotting.py
@@ -560,15 +560,15 @@ class plot_original_Z_vs_diagonal_test(plot_Z_multiple_FS):
         # Add an inset to the plot!
         if self.FS_lst[0].id_data >= 10:
             from mpl_toolkits.axes_grid1.inset_locator import mark_inset
-            from mpl_toolkits.axes_grid1.inset_locator import InsetPosition
+            from mpl_toolkits.axes_grid1.inset_locator import inset_axes
 
             # Build and manually place the inset (for the rho_1 case )
 
             # ax[0].xaxis.set_minor_formatter(LogFormatterSciNotation(minor_thresholds=(11, 10)))
 
-            ax_ins = fig.add_axes([0, 0, 1, 1], label='inset 1')
-            ip = InsetPosition(ax[0], [0.1, 0.3, 0.5, 0.6])  # [%left, %up, %width, %height]
-            ax_ins.set_axes_locator(ip)
+            ax_ins = inset_axes(ax[0], width="100%", height="100%", borderpad=0,
+                                bbox_to_anchor=(0.1, 0.3, 0.5, 0.6),  # [%left, %up, %width, %height]
+                                bbox_transform=ax[0].transAxes)
             # Connect the inset to its respective region
             mark_inset(ax[0], ax_ins, loc1=3, loc2=4, fc="none", ec="0.5")
 
@@ -582,45 +582,34 @@ class plot_original_Z_vs_diagonal_test(plot_Z_multiple_FS):
             # F_index = -1
             idx_T = 0
             idx_X = -1
-            T = 300.00
             # dataView = self.arr[F_index, R_index, T_index, 0, :].view()
             slice_insert = np.s_[-1:-2:-1]
             # if np.any(np.isnan(dataView)):
             #     first_Finite = np.where(np.isfinite(self.arr[F_index, R_index, T_index, 0, :]))[0][-1]
             #     slice_insert = np.s_[first_Finite:first_Finite-10:-1]
             # --------------------------------------------------------------------------------
-            # Plot the first FS
-            idx_FS = 0
-            tau_values = self.generate_tau_values(T, idx_FS)
-            x = tau_values[slice_insert].view()
-            y = self.arr[idx_FS][slice_insert, idx_T, idx_X]["Z"].view()
-            yerr = self.arr[idx_FS][slice_insert, idx_T, idx_X]["Z error"].view()
-            label = labels[idx_FS].format(self.FS_lst[idx_FS].id_rho, self.lst_X[idx_FS][0])
-            ax_ins.errorbar(x, y, xerr=None, yerr=yerr,
-                            marker='o' if idx_FS == 0 else 'x',
-                            markerfacecolor="None",
-                            label=label)
-            # --------------------------------------------------------------------------------
-            # Plot the second FS
-            idx_FS = 1
-            tau_values = self.generate_tau_values(T, idx_FS)
-            x = tau_values[slice_insert].view()
-            y = self.arr[idx_FS][slice_insert, idx_T, idx_X]["Z"].view()
-            yerr = self.arr[idx_FS][slice_insert, idx_T, idx_X]["Z error"].view()
-            label = labels[idx_FS].format(self.FS_lst[idx_FS].id_rho, self.lst_X[idx_FS][0])
-            ax_ins.errorbar(x, y, xerr=None, yerr=yerr,
-                            marker='o' if idx_FS == 0 else 'x',
-                            markerfacecolor="None",
-                            label=label)
-            # --------------------------------------------------------------------------------
-            # REFERENCE / EXACT ANSWER
-            true_answer = self.analytical_orig_list[0][f"{T:.2f}"]["Z_coupled"]
-            if self.percent_error:
-                true_answer = 0.0
+            # Plot each FS
+            for idx_FS, FS in enumerate(self.FS_lst):
+                if len(self.lst_T[idx_FS]) == 0:
+                    continue
+                T = self.lst_T[idx_FS][idx_T]
+                tau_values = self.generate_tau_values(T, idx_FS)
+                x = tau_values[slice_insert].view()
+                y = self.arr[idx_FS][slice_insert, idx_T, idx_X]["Z"].view()
+                yerr = self.arr[idx_FS][slice_insert, idx_T, idx_X]["Z error"].view()
+                label = labels[FS.id_rho].format(FS.id_rho, self.lst_X[idx_FS][idx_X])
+                ax_ins.errorbar(x, y, xerr=None, yerr=yerr,
+                                marker='o' if idx_FS == 0 else 'x',
+                                markerfacecolor="None",
+                                label=label)
+                # REFERENCE / EXACT ANSWER
+                true_answer = self.analytical_orig_list[idx_FS][f"{T:.2f}"]["Z_coupled"]
+                if self.percent_error:
+                    true_answer = 0.0
 
-            ax_ins.axhline(y=true_answer, linewidth=2, color='r',
-                           label='Analytically derived Z from original model'
-                           )
+                ax_ins.axhline(y=true_answer, linewidth=2, color='r',
+                               label='Analytically derived Z from original model'
+                               )
             # --------------------------------------------------------------------------------
 
         #
-- 
2.43.0


From 1dd9a0f85a5767b541c02b6e6d6f22bead56fee3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:14:46 +0000
Subject: [PATCH 46/52] fix: a comparison with the sum over states uses the
 values that were loaded

sos_params does not exist, the values are in sos_list; the inset had the
same problems as the one of the comparison with the original model.
---
 pibronic/plotting/plotting.py | 76 +++++++++++++----------------------
 1 file changed, 29 insertions(+), 47 deletions(-)

diff --git a/pibronic/plotting/plotting.py b/pibronic/plotting/plotting.py
index d4f04a5..0b90df1 100755
--- a/pibronic/plotting/plotting.py
+++ b/pibronic/plotting/plotting.py
@@ -691,7 +691,7 @@ class plot_sos_Z_vs_rho_n(plot_Z_multiple_FS):
                     idx_T = self.lst_T[idx_FS].index(T)
 
                     view = self.arr[idx_FS][:, idx_T, idx_X].view()
-                    sos = self.sos_params[f"{T:.2f}"]["Z_coupled"]
+                    sos = self.sos_list[idx_FS][f"{T:.2f}"]["Z_coupled"]
 
                     view["Z"] -= sos
                     view["Z"] *= 100.0
@@ -743,7 +743,7 @@ class plot_sos_Z_vs_rho_n(plot_Z_multiple_FS):
                                    label=label)
                 ax[idx_T].legend()
 
-                true_answer = self.sos_params[f"{T:.2f}"]["Z_coupled"]
+                true_answer = self.sos_list[idx_FS][f"{T:.2f}"]["Z_coupled"]
                 if self.percent_error:
                     true_answer = 0.0
 
@@ -753,17 +753,16 @@ class plot_sos_Z_vs_rho_n(plot_Z_multiple_FS):
 
         # Add an inset to the plot!
         if self.FS_lst[0].id_data >= 100:
-            print("index A")
             from mpl_toolkits.axes_grid1.inset_locator import mark_inset
-            from mpl_toolkits.axes_grid1.inset_locator import InsetPosition
+            from mpl_toolkits.axes_grid1.inset_locator import inset_axes
 
             # Build and manually place the inset (for the rho_1 case )
 
             # ax[0].xaxis.set_minor_formatter(LogFormatterSciNotation(minor_thresholds=(11, 10)))
 
-            ax_ins = fig.add_axes([0, 0, 1, 1], label='inset 1')
-            ip = InsetPosition(ax[0], [0.1, 0.3, 0.5, 0.6])  # [%left, %up, %width, %height]
-            ax_ins.set_axes_locator(ip)
+            ax_ins = inset_axes(ax[0], width="100%", height="100%", borderpad=0,
+                                bbox_to_anchor=(0.1, 0.3, 0.5, 0.6),  # [%left, %up, %width, %height]
+                                bbox_transform=ax[0].transAxes)
             # Connect the inset to its respective region
             mark_inset(ax[0], ax_ins, loc1=3, loc2=4, fc="none", ec="0.5")
 
@@ -777,53 +776,36 @@ class plot_sos_Z_vs_rho_n(plot_Z_multiple_FS):
             # F_index = -1
             idx_T = 0
             # idx_X = 0
-            T = 300.00
             # dataView = self.arr[F_index, R_index, T_index, 0, :].view()
             slice_insert = np.s_[-1:-2:-1]
             # if np.any(np.isnan(dataView)):
             #     first_Finite = np.where(np.isfinite(self.arr[F_index, R_index, T_index, 0, :]))[0][-1]
             #     slice_insert = np.s_[first_Finite:first_Finite-10:-1]
             # --------------------------------------------------------------------------------
-            # Plot the first FS
-            print("index B")
-            idx_FS = 0
-            X = int(1E4)
-            idx_X = self.lst_X[idx_FS].index(X)
-            tau_values = self.generate_tau_values(T, idx_FS)
-            x = tau_values[slice_insert].view()
-            y = self.arr[idx_FS][slice_insert, idx_T, idx_X]["Z"].view()
-            yerr = self.arr[idx_FS][slice_insert, idx_T, idx_X]["Z error"].view()
-            label = labels[idx_FS].format(self.FS_lst[idx_FS].id_rho, self.lst_X[idx_FS][idx_X])
-            ax_ins.errorbar(x, y, xerr=None, yerr=yerr,
-                            marker='o' if idx_FS == 0 else 'x',
-                            markerfacecolor="None",
-                            label=label)
-            # --------------------------------------------------------------------------------
-            # Plot the second FS
-            print(self.arr[idx_FS].shape)
-            idx_FS = 1
-            X = int(1E4)
-            idx_X = self.lst_X[idx_FS].index(X)
-            tau_values = self.generate_tau_values(T, idx_FS)
-            print(self.lst_P[idx_FS])
-            print("tau", tau_values)
-            x = tau_values[slice_insert].view()
-            y = self.arr[idx_FS][slice_insert, idx_T, idx_X]["Z"].view()
-            yerr = self.arr[idx_FS][slice_insert, idx_T, idx_X]["Z error"].view()
-            label = labels[idx_FS].format(self.FS_lst[idx_FS].id_rho, self.lst_X[idx_FS][idx_X])
-            ax_ins.errorbar(x, y, xerr=None, yerr=yerr,
-                            marker='o' if idx_FS == 0 else 'x',
-                            markerfacecolor="None",
-                            label=label)
-            # --------------------------------------------------------------------------------
-            # REFERENCE / EXACT ANSWER
-            true_answer = self.sos_params[f"{T:.2f}"]["Z_coupled"]
-            if self.percent_error:
-                true_answer = 0.0
+            # Plot each FS
+            for idx_FS, FS in enumerate(self.FS_lst):
+                if len(self.lst_T[idx_FS]) == 0:
+                    continue
+                T = self.lst_T[idx_FS][idx_T]
+                X = int(1E4)
+                idx_X = self.lst_X[idx_FS].index(X)
+                tau_values = generate_tau_values(self, T, idx_FS)
+                x = tau_values[slice_insert].view()
+                y = self.arr[idx_FS][slice_insert, idx_T, idx_X]["Z"].view()
+                yerr = self.arr[idx_FS][slice_insert, idx_T, idx_X]["Z error"].view()
+                label = labels[FS.id_rho].format(FS.id_rho, X)
+                ax_ins.errorbar(x, y, xerr=None, yerr=yerr,
+                                marker='o' if idx_FS == 0 else 'x',
+                                markerfacecolor="None",
+                                label=label)
+                # REFERENCE / EXACT ANSWER
+                true_answer = self.sos_list[idx_FS][f"{T:.2f}"]["Z_coupled"]
+                if self.percent_error:
+                    true_answer = 0.0
 
-            ax_ins.axhline(y=true_answer, linewidth=2, color='r',
-                           label='SOS derived Z from coupled model'
-                           )
+                ax_ins.axhline(y=true_answer, linewidth=2, color='r',
+                               label='SOS derived Z from coupled model'
+                               )
             # --------------------------------------------------------------------------------
 
         #
-- 
2.43.0


From 5e325b4ca0183a56fc6e7a8f233b7cb0fd9afb84 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:39:53 +0000
Subject: [PATCH 47/52] fix: a result file which is listed twice is only
 counted once

the arrays were made large enough for the samples of both entries, but
only filled once, and the rest stayed NaN
---
 pibronic/pimc/pimc.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index 17677b0..fa42f99 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -880,6 +880,9 @@ class BoxResult:
         number_of_samples = 0
         assert not len(list_of_paths) == 0, "list_of_paths cannot be empty"
 
+        # the samples of each file are only counted once
+        list_of_paths = list(dict.fromkeys(list_of_paths))
+
         list_of_bad_paths = []
         counted = {}
         requested = (list_of_paths, desired_number_of_samples)
@@ -1010,6 +1013,9 @@ class BoxResultPM(BoxResult):
         number_of_samples = 0
         assert not len(list_of_paths) == 0, "list_of_paths cannot be empty"
 
+        # the samples of each file are only counted once
+        list_of_paths = list(dict.fromkeys(list_of_paths))
+
         list_of_bad_paths = []
         counted = {}
         requested = (list_of_paths, desired_number_of_samples)
-- 
2.43.0


From d34529a2d75275e51a0f1d1a59bde47fec4184d6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:50:50 +0000
Subject: [PATCH 48/52] fix: the sequences are replaced as a whole, a reader or
 an interruption never meets part of one

---
 pibronic/vibronic/orthonormal/sequences.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pibronic/vibronic/orthonormal/sequences.py b/pibronic/vibronic/orthonormal/sequences.py
index 9cb1338..33a75dd 100755
--- a/pibronic/vibronic/orthonormal/sequences.py
+++ b/pibronic/vibronic/orthonormal/sequences.py
@@ -71,6 +71,7 @@ from numpy.linalg import norm
 from scipy.linalg import expm
 
 # local imports
+from pibronic.helper import atomic_write
 
 
 sequence_filename = "sequence_{:d}.data"
@@ -129,7 +130,8 @@ def save_sequence(order, sequence, fmt="%.18e", delimiter=", "):
     pickles them to a file named using the string sequence_filename, in the directory that
     this module is located in"""
     check_minimum_length_of_sequence(sequence)
-    np.savetxt(path_to_sequence_file(order), sequence, fmt=fmt, delimiter=delimiter)
+    with atomic_write(path_to_sequence_file(order)) as target_file:
+        np.savetxt(target_file, sequence, fmt=fmt, delimiter=delimiter)
     return
 
 
@@ -219,7 +221,8 @@ def generate_and_save_x_pairs(order, p_list):
     for idx in range(1, len(p_list), 2):
         x_pairs.append((p_list[idx].x, p_list[idx+1].x))
 
-    np.savetxt(path_to_x_pair_file(order), x_pairs, fmt="%.18e", delimiter=", ")
+    with atomic_write(path_to_x_pair_file(order)) as target_file:
+        np.savetxt(target_file, x_pairs, fmt="%.18e", delimiter=", ")
     return x_pairs
 
 
-- 
2.43.0


From 14a4971be2e865f265bb37d0d978812497bb9d6f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:12:57 +0000
Subject: [PATCH 49/52] fix: the energies of a generated diagonal model can be
 written, e.g. loaded in place

---
 pibronic/vibronic/vibronic_model_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/vibronic/vibronic_model_io.py b/pibronic/vibronic/vibronic_model_io.py
index 532ea7c..9d86b9a 100755
--- a/pibronic/vibronic/vibronic_model_io.py
+++ b/pibronic/vibronic/vibronic_model_io.py
@@ -402,7 +402,7 @@ def generate_vibronic_model_data(input_parameters=None):
     if paramDict['diagonal']:
         d_model = diagonal_model_zeros_template_json_dict(numStates, numModes)
 
-        d_model[VMK.E] = np.diag(model[VMK.E])
+        d_model[VMK.E] = np.diag(model[VMK.E]).copy()
         d_model[VMK.w] = model[VMK.w]
         for i in Modes:
             d_model[VMK.G1][i, ...] = np.diag(model[VMK.G1][i, ...])
-- 
2.43.0


From 360b15920e22935f340e68a51dc3bdb3ace6e1f7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:13:01 +0000
Subject: [PATCH 50/52] fix: beads and basis sizes of trotter files can be
 extracted, a basis size selects sos files

---
 pibronic/data/postprocessing.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/pibronic/data/postprocessing.py b/pibronic/data/postprocessing.py
index 2a13c1f..7ca7d1f 100755
--- a/pibronic/data/postprocessing.py
+++ b/pibronic/data/postprocessing.py
@@ -37,11 +37,11 @@ from ..data import file_name
 #     return glob.glob(globPath)
 # def retrive_a_sos_coupled_file(files):
 #     """verify that a specific sos(coupled) file exists and retrives the path to it"""
-#     globPath = FS.path_vib_params + file_name.sos("*")
+#     globPath = FS.path_vib_params + file_name.sos(B)
 #     return glob.glob(globPath)
 # def retrive_a_sos_sampling_file(files):
 #     """verify that a specific sos(sampling) file exists and retrives the path to it"""
-#     globPath = FS.path_rho_params + file_name.sos("*")
+#     globPath = FS.path_rho_params + file_name.sos(B)
 #     return glob.glob(globPath)
 
 
@@ -59,13 +59,13 @@ def retrive_jackknife_file_list(FS):
 
 def retrive_sos_coupled_file_list(FS, B="*"):
     """return a list of the full path to each sos(coupled) file that might be used"""
-    globPath = FS.path_vib_params + file_name.sos("*")
+    globPath = FS.path_vib_params + file_name.sos(B)
     return [file for file in glob.glob(globPath)]
 
 
 def retrive_sos_sampling_file_list(FS, B="*"):
     """return a list of the full path to each sos(sampling) file that might be used"""
-    globPath = FS.path_rho_params + file_name.sos("*")
+    globPath = FS.path_rho_params + file_name.sos(B)
     return [file for file in glob.glob(globPath)]
 
 
@@ -86,16 +86,21 @@ def retrive_all_file_paths(FS):
 
 def extract_bead_value_from_trotter_file_path(file_path):
     """ does what it says, returns an int """
-    return int(file_path.split("trotter_P")[1].split("_B"))
+    return int(os.path.basename(file_path).split("trotter_P")[1].split("_B")[0])
+
+
+def extract_basis_value_from_trotter_file_path(file_path):
+    """ does what it says, returns an int """
+    return int(os.path.basename(file_path).split("_B")[1].split(".json")[0])
 
 
 def extract_trotter_paramater_list(list_trotter):
     """ takes a list of file-paths to results from trotter calculations and return a dictionary with integer keys representing possible basis sizes, whose corresponding values are lists of all possible bead values for that given basis size. """
-    tL = map(extract_bead_value_from_trotter_file_path, list_trotter)
-
     trotterDict = collections.defaultdict(list)
-    for path in tL:
-        trotterDict[int(path[1].split(".json")[0])].append(int(path[0]))
+    for path in list_trotter:
+        P = extract_bead_value_from_trotter_file_path(path)
+        B = extract_basis_value_from_trotter_file_path(path)
+        trotterDict[B].append(P)
 
     return trotterDict
 
-- 
2.43.0


From 22b35d9d24310a0a4b54949dbf1a7982aa826f98 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:30:46 +0000
Subject: [PATCH 51/52] fix: waiting for a preempted or revoked job went on
 until its record was purged

---
 pibronic/server/job_boss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/server/job_boss.py b/pibronic/server/job_boss.py
index 6e035b1..157b915 100755
--- a/pibronic/server/job_boss.py
+++ b/pibronic/server/job_boss.py
@@ -105,7 +105,7 @@ def check_running_state(id_job):
 
 def job_was_unsuccessful(out):
     """returns True if the running state of the job (from SLURM) shows that it can no longer complete successfully"""
-    states = ("BOOT_FAIL", "CANCELLED", "DEADLINE", "FAILED", "NODE_FAIL", "OUT_OF_MEMORY", "TIMEOUT")
+    states = ("BOOT_FAIL", "CANCELLED", "DEADLINE", "FAILED", "NODE_FAIL", "OUT_OF_MEMORY", "PREEMPTED", "REVOKED", "TIMEOUT")
     return any(f"JobState={state}" in out for state in states)
 
 
-- 
2.43.0


From 11a07d7dfa765cee5fe5ca6ac6223110c6a541f3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:29:56 +0000
Subject: [PATCH 52/52] fix: a model of other dimensions was loaded into arrays
 it does not fit

---
 pibronic/vibronic/vibronic_model_io.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pibronic/vibronic/vibronic_model_io.py b/pibronic/vibronic/vibronic_model_io.py
index 9d86b9a..cf043ae 100755
--- a/pibronic/vibronic/vibronic_model_io.py
+++ b/pibronic/vibronic/vibronic_model_io.py
@@ -562,6 +562,10 @@ def _load_inplace_from_JSON(path, dictionary):
 
     VMK.change_dictionary_keys_from_strings_to_enum_members(input_dictionary)
 
+    # the arrays have to have the dimensions of the stored model, numpy would silently broadcast some smaller ones
+    A, N = _extract_dimensions_from_dictionary(input_dictionary)
+    assert (A, N) == _extract_dimensions_from_dictionary(dictionary), f"the model {path:s} has {A:d} surfaces and {N:d} modes"
+
     for key, value in dictionary.items():
         if isinstance(value, (np.ndarray, np.generic)):
             # this is a safer way of forcing the input arrays that have no corresponding key in the input_dictionary to have zero values
-- 
2.43.0

