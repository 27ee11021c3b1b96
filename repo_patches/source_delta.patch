From c42707b995556dbf9de9e4a5ab31d08c067b5fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:38 +0000
Subject: [PATCH 01/16] fix: perturb a copy of the emissions, not the data sent
 in by the caller

perturb_emissions changed the emissions_data DataFrame of the caller in
place, so a second instance (or a second member of a serial ensemble run)
made from the same scenario data had the perturbation applied twice.
---
 src/ciceroscm/concentrations_emissions_handler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index dbf05f9..57eeb7a 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -193,7 +193,8 @@ class ConcentrationsEmissionsHandler:
         self.emis = input_handler.get_data("emissions")
         self.pamset["conc_run"] = input_handler.conc_run()
         if input_handler.optional_pam("perturb_em"):
-            perturb_emissions(input_handler, self.emis)
+            # Perturb a copy, so that data sent in by the user is left unchanged
+            self.emis = perturb_emissions(input_handler, self.emis.copy())
         if input_handler.optional_pam("perturb_forc"):
             self.pamset["forc_pert"] = ForcingPerturbation(input_handler, self.years[0])
         self.pamset["cl_dict"], self.pamset["br_dict"] = make_cl_and_br_dictionaries(
-- 
2.43.0


From 6df77bcfbafe35b42ee4cc1bf5baeb22f2f19137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:38 +0000
Subject: [PATCH 02/16] fix: do not write yearly natural emissions into the gas
 parameter data

The CH4 and N2O natural emissions of each year were stored in the
gaspam_data DataFrame sent in by the caller. A later instance made from
the same gaspam_data took the last year's value as its flat natural
emissions, and instances sharing it in different threads could read each
other's value.
---
 src/ciceroscm/concentrations_emissions_handler.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index 57eeb7a..c945351 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -791,15 +791,16 @@ class ConcentrationsEmissionsHandler:
                 conc_local = self.conc_in[tracer][yr]
 
             q = 1.0 / self.df_gas["TAU1"][tracer]
+            # natural emissions, from gasspamfile
+            nat_em = self.df_gas["NAT_EM"][tracer]
 
             if tracer == "CH4":
-                self.df_gas.at[tracer, "NAT_EM"] = self.nat_emis_ch4["CH4"][yr]
+                nat_em = self.nat_emis_ch4["CH4"][yr]
                 q = self.methane_lifetime(q, conc_local, yr)
             if tracer == "N2O":
-                self.df_gas.at[tracer, "NAT_EM"] = self.nat_emis_n2o["N2O"][yr]
+                nat_em = self.nat_emis_n2o["N2O"][yr]
 
-            # natural emissions, from gasspamfile
-            emis = self.emis[tracer][yr] + self.df_gas["NAT_EM"][tracer]
+            emis = self.emis[tracer][yr] + nat_em
 
             point_conc = emis / self.df_gas["BETA"][tracer]
             # Rewrote this quite a bit from an original loop,
-- 
2.43.0


From 0a0c9edee9c7c52d0187329f4810531c2239fe83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:41 +0000
Subject: [PATCH 03/16] fix: start a run from the preindustrial CO2
 concentration of that run

reset_co2_hold set the start concentration before it updated the
parameters, so a run with a new preindustrial_co2_conc started from the
value of the previous run on the same instance.
---
 .../carbon_cycle/carbon_cycle_mod.py          | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/ciceroscm/carbon_cycle/carbon_cycle_mod.py b/src/ciceroscm/carbon_cycle/carbon_cycle_mod.py
index f95ad8f..13336de 100644
--- a/src/ciceroscm/carbon_cycle/carbon_cycle_mod.py
+++ b/src/ciceroscm/carbon_cycle/carbon_cycle_mod.py
@@ -187,15 +187,6 @@ class CarbonCycleModel(AbstractCarbonCycleModel):
             Optional dictionary of new values for a subset of the free
             carbon cycle parameters
         """
-        self.co2_hold = {
-            "yCO2": 0.0,
-            "xCO2": self.pamset["preindustrial_co2_conc"],
-            "sCO2": np.zeros(self.pamset["idtm"] * self.pamset["years_tot"]),
-            "emCO2_prev": 0.0,
-            "dfnpp": np.zeros(self.pamset["idtm"] * self.pamset["years_tot"]),
-            "ss1": 0.0,
-            "sums": 0.0,
-        }
         if pamset_carbon is not None:
             # Process flat carbon cycle parameters first
             pamset_carbon = _process_flat_carbon_parameters(pamset_carbon)
@@ -218,6 +209,16 @@ class CarbonCycleModel(AbstractCarbonCycleModel):
             # Recompute r_functions if we updated any function parameters
             if needs_rfunction_recompute:
                 self.precalc_r_functions()
+        # Has to come after the update, as the start concentration can be updated
+        self.co2_hold = {
+            "yCO2": 0.0,
+            "xCO2": self.pamset["preindustrial_co2_conc"],
+            "sCO2": np.zeros(self.pamset["idtm"] * self.pamset["years_tot"]),
+            "emCO2_prev": 0.0,
+            "dfnpp": np.zeros(self.pamset["idtm"] * self.pamset["years_tot"]),
+            "ss1": 0.0,
+            "sums": 0.0,
+        }
 
     def _set_co2_hold(
         self, hold_dict=None
-- 
2.43.0


From ff1695d269936be290f7bcd45e80c6ddb0b4d37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:16 +0000
Subject: [PATCH 04/16] fix: do not carry carbon cycle parameters over between
 ensemble members

Carbon cycle parameters given in one configuration stayed in use for the
later configurations of the same batch that did not set them, so the
results of a member depended on the other members and on max_workers.
---
 src/ciceroscm/carbon_cycle/carbon_cycle_abstract.py | 11 +++++++++++
 src/ciceroscm/carbon_cycle/carbon_cycle_mod.py      | 10 ++++++++++
 src/ciceroscm/parallel/cscmparwrapper.py            |  4 ++++
 3 files changed, 25 insertions(+)

diff --git a/src/ciceroscm/carbon_cycle/carbon_cycle_abstract.py b/src/ciceroscm/carbon_cycle/carbon_cycle_abstract.py
index a75f473..c93b38a 100644
--- a/src/ciceroscm/carbon_cycle/carbon_cycle_abstract.py
+++ b/src/ciceroscm/carbon_cycle/carbon_cycle_abstract.py
@@ -57,8 +57,19 @@ class AbstractCarbonCycleModel(ABC):
         )
         self.pamset = {**pamset, **pamset_carbon}
         self.pamset["years_tot"] = pamset["nyend"] - pamset["nystart"] + 1
+        self.pamset_start = self.pamset.copy()
         self.reset_co2_hold(pamset_carbon)
 
+    def restore_start_pamset(self):
+        """
+        Set all parameters back to the values the model was initialised with
+
+        The free parameters sent for a run stay in use for later runs with the
+        same instance. Call this before a run that should not depend on the
+        parameters of the runs before it
+        """
+        self.pamset = self.pamset_start.copy()
+
     def reset_co2_hold(self, pamset_carbon=None):
         """
         Reset values of CO2_hold for new run
diff --git a/src/ciceroscm/carbon_cycle/carbon_cycle_mod.py b/src/ciceroscm/carbon_cycle/carbon_cycle_mod.py
index 13336de..43dd95b 100644
--- a/src/ciceroscm/carbon_cycle/carbon_cycle_mod.py
+++ b/src/ciceroscm/carbon_cycle/carbon_cycle_mod.py
@@ -166,6 +166,7 @@ class CarbonCycleModel(AbstractCarbonCycleModel):
         )
         self.pamset = {**pamset, **pamset_carbon}
         self.pamset["years_tot"] = pamset["nyend"] - pamset["nystart"] + 1
+        self.pamset_start = self.pamset.copy()
         self.reset_co2_hold(pamset_carbon)
         self.precalc_r_functions()
         self.temp_feedbacks = {
@@ -173,6 +174,15 @@ class CarbonCycleModel(AbstractCarbonCycleModel):
             "mixed_layer_temp_feedback": self.pamset["mixed_carbon"],
         }
 
+    def restore_start_pamset(self):
+        """
+        Set all parameters back to the values the model was initialised with
+
+        This includes the response functions calculated from them
+        """
+        super().restore_start_pamset()
+        self.precalc_r_functions()
+
     def reset_co2_hold(self, pamset_carbon=None):
         """
         Reset values of CO2_hold for new run
diff --git a/src/ciceroscm/parallel/cscmparwrapper.py b/src/ciceroscm/parallel/cscmparwrapper.py
index f7a6073..61e3651 100644
--- a/src/ciceroscm/parallel/cscmparwrapper.py
+++ b/src/ciceroscm/parallel/cscmparwrapper.py
@@ -188,6 +188,10 @@ class CSCMParWrapper:  # pylint: disable=too-few-public-methods
         """
         runs = []
         for pamset in cfgs:
+            if not self.cscm.cfg["rf_run"]:
+                # Carbon cycle parameters of one configuration
+                # should not be used for the next ones
+                self.cscm.ce_handler.carbon_cycle.restore_start_pamset()
             self.cscm._run(  # pylint: disable=protected-access
                 {"results_as_dict": True, "carbon_cycle_outputs": carbon_cycle_outputs},
                 pamset_udm=pamset.get("pamset_udm", None),
-- 
2.43.0


From 85965d930acde9c750bbead5db9599c79bb7164b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:16 +0000
Subject: [PATCH 05/16] fix: start each run with an empty results dictionary

Results of an earlier run that a later run on the same instance did not
produce (such as the carbon cycle output) stayed in results, and the
dictionary a caller kept from the earlier run was changed.
---
 src/ciceroscm/ciceroscm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ciceroscm/ciceroscm.py b/src/ciceroscm/ciceroscm.py
index f0c6a9b..b3a4cb5 100644
--- a/src/ciceroscm/ciceroscm.py
+++ b/src/ciceroscm/ciceroscm.py
@@ -151,6 +151,8 @@ class CICEROSCM:
             list(self.thermal_model_class.get_output_dict_thermal().keys())
             + FORC_OUTPUT_LIST
         )
+        # New dictionary, so results from earlier runs are neither kept nor changed
+        self.results = {}
         for output in output_variables:
             self.results[output] = np.zeros(self.cfg["nyend"] - self.cfg["nystart"] + 1)
 
-- 
2.43.0


From 79238e8b4255b72ba7de44d9cc0402a00d47d77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:16 +0000
Subject: [PATCH 06/16] fix: keep the order of the configurations when no pool
 is used

_parallel_process put the results of the front serial runs last when it
was called without a pool.
---
 src/ciceroscm/parallel/_parallel_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ciceroscm/parallel/_parallel_process.py b/src/ciceroscm/parallel/_parallel_process.py
index be9a4f7..3a1ddf8 100644
--- a/src/ciceroscm/parallel/_parallel_process.py
+++ b/src/ciceroscm/parallel/_parallel_process.py
@@ -165,7 +165,7 @@ def _parallel_process(  # pylint:disable=too-many-arguments,too-many-positional-
             desc="Serial runs",
         )
 
-        return rest + front_serial_res
+        return front_serial_res + rest
 
     front_parallel_res = []
     if front_parallel > 0:
-- 
2.43.0


From e4ed4f86bbbd3280b155ad1bf4214c3b0cfbeadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:16 +0000
Subject: [PATCH 07/16] fix: write the meta information read from json back to
 json

write_configs_to_json wrote null for the meta_info that was read in with
the configurations, unless it was sent again.
---
 src/ciceroscm/parallel/distributionrun.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/parallel/distributionrun.py b/src/ciceroscm/parallel/distributionrun.py
index 0cdb749..79c7aa3 100644
--- a/src/ciceroscm/parallel/distributionrun.py
+++ b/src/ciceroscm/parallel/distributionrun.py
@@ -89,7 +89,9 @@ class DistributionRun:
         meta_info: dict, optional
             dictionary with meta optional information to add to the json file
         """
-        if meta_info is None and self.meta_info is None:
+        if meta_info is None:
+            meta_info = self.meta_info
+        if meta_info is None:
             with open(json_file_name, "w", encoding="utf-8") as wfile:
                 json.dump(self.cfgs, wfile)
         else:
-- 
2.43.0


From 1e63cbe91fc26855a5de932e6aa9b267192e25cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:16 +0000
Subject: [PATCH 08/16] fix: do not keep just_one from the previous run

A just_one parameter stayed in use for all later runs of the same
instance that did not send it.
---
 src/ciceroscm/concentrations_emissions_handler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index c945351..b71da3a 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -215,6 +215,7 @@ class ConcentrationsEmissionsHandler:
             model_type, self.pamset, pamset_carbon
         )
         # not really needed, but I guess the linter will complain...
+        self.pamset_start = self.pamset.copy()
         self.reset_with_new_pams(pamset, pamset_carbon, preexisting=False)
 
     def _precalculate_vanilla_gases(self):
@@ -359,7 +360,7 @@ class ConcentrationsEmissionsHandler:
         """
         if preexisting:
             new_pamset = check_pamset(pamset)
-            self.pamset = check_pamset_consistency(self.pamset, new_pamset)
+            self.pamset = check_pamset_consistency(self.pamset_start, new_pamset)
 
         self.avoid_regional_double_counting()
         self.carbon_cycle.reset_co2_hold(pamset_carbon)
-- 
2.43.0


From 65f40fb13e0d4caa8daa7a7fb85ea31c8821fd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:09 +0000
Subject: [PATCH 09/16] fix: write the output files of a run with the two-layer
 thermal model

write_data_to_file raised a KeyError, as the two-layer model has no
hemispheric output. Write the variables that the model has.
---
 src/ciceroscm/ciceroscm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ciceroscm/ciceroscm.py b/src/ciceroscm/ciceroscm.py
index b3a4cb5..a2adce8 100644
--- a/src/ciceroscm/ciceroscm.py
+++ b/src/ciceroscm/ciceroscm.py
@@ -368,7 +368,9 @@ class CICEROSCM:
         list_rib = ["RIB_glob", "RIB_N", "RIB_S"]
         df_rib = pd.DataFrame(data={"Year": indices})
         for vari in list_rib:
-            df_rib[vari] = self.results[vari]
+            # Not all thermal models give hemispheric output
+            if vari in self.results:
+                df_rib[vari] = self.results[vari]
         list_temp = [
             "dT_glob",
             "dT_NH",
@@ -386,7 +388,8 @@ class CICEROSCM:
         else:
             filename_start = "output"
         for vari in list_temp:
-            df_temp[vari] = self.results[vari]
+            if vari in self.results:
+                df_temp[vari] = self.results[vari]
 
         df_ohc.to_csv(
             os.path.join(outdir, f"{filename_start}_ohc.txt"),
-- 
2.43.0


From 52927f67bde5b79520e558f0a32015d93f752e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:59 +0000
Subject: [PATCH 10/16] fix: send set values of the decay function parameters
 to the carbon cycle

Set values for rb_ and rs_ parameters were put in pamset_emiconc, where
they are ignored, while sampled ones are put in pamset_carbon.
---
 src/ciceroscm/parallel/_configdistro.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/parallel/_configdistro.py b/src/ciceroscm/parallel/_configdistro.py
index fb91c0d..b6919b4 100644
--- a/src/ciceroscm/parallel/_configdistro.py
+++ b/src/ciceroscm/parallel/_configdistro.py
@@ -200,7 +200,9 @@ class _ConfigDistro:
         for pam, value in self.setvalues.items():
             if pam in ordering_standard_forc:
                 self.pamset_udm_start[pam] = value
-            elif pam in CARBON_CYCLE_MODEL_REQUIRED_PAMSET:
+            elif pam in CARBON_CYCLE_MODEL_REQUIRED_PAMSET or pam.startswith(
+                ("rb_", "rs_")
+            ):
                 self.pamset_carbon_start[pam] = value
             else:
                 self.pamset_emiconc_start[pam] = value
-- 
2.43.0


From becf13d4ca486f91aa4d28d5252a20ae55b6a7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:40 +0000
Subject: [PATCH 11/16] fix: send parameters of all thermal and carbon cycle
 models to the right model

A distribution over, or a set value of, parameters of the two-layer or the box
model, or foan, foas and ebbeta, was put with the emission parameters, where
it has no effect.
---
 src/ciceroscm/parallel/_configdistro.py | 31 +++++++++++++++++--------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/ciceroscm/parallel/_configdistro.py b/src/ciceroscm/parallel/_configdistro.py
index b6919b4..050e166 100644
--- a/src/ciceroscm/parallel/_configdistro.py
+++ b/src/ciceroscm/parallel/_configdistro.py
@@ -9,6 +9,9 @@ import numpy as np
 from scipy.stats import qmc
 
 from ..carbon_cycle.carbon_cycle_mod import CARBON_CYCLE_MODEL_REQUIRED_PAMSET
+from ..carbon_cycle.carbon_cycle_mod_box import CarbonCycleModel as BoxCarbonCycleModel
+from ..thermal_model.two_layer_ocean import TwoLayerOceanModel
+from ..thermal_model.upwelling_diffusion_model import UpwellingDiffusionModel
 
 LOGGER = logging.getLogger(__name__)
 
@@ -98,6 +101,19 @@ set_values_default = {
 options_default = {"forc": False, "method": "latin"}
 """dict: Containing default options for making parameter distributions"""
 
+thermal_model_pams = {
+    *ordering_standard_forc,
+    *UpwellingDiffusionModel.get_thermal_model_required_pamset(),
+    *TwoLayerOceanModel.get_thermal_model_required_pamset(),
+}
+"""set: Names of the parameters of all available thermal models"""
+
+carbon_cycle_pams = {
+    *CARBON_CYCLE_MODEL_REQUIRED_PAMSET,
+    *BoxCarbonCycleModel.get_carbon_cycle_required_pamset(),
+}
+"""set: Names of the parameters of all available carbon cycle models"""
+
 
 class _ConfigDistro:
     """
@@ -149,7 +165,7 @@ class _ConfigDistro:
             ordering = [
                 o
                 for o in sorted(distro_dict.keys())
-                if (o in ordering_standard_forc) and (o not in set(setvalues))
+                if (o in thermal_model_pams) and (o not in set(setvalues))
             ]
         else:
             ordering = [
@@ -198,11 +214,9 @@ class _ConfigDistro:
         self.pamset_emiconc_start = {}
         self.pamset_carbon_start = {}
         for pam, value in self.setvalues.items():
-            if pam in ordering_standard_forc:
+            if pam in thermal_model_pams:
                 self.pamset_udm_start[pam] = value
-            elif pam in CARBON_CYCLE_MODEL_REQUIRED_PAMSET or pam.startswith(
-                ("rb_", "rs_")
-            ):
+            elif pam in carbon_cycle_pams or pam.startswith(("rb_", "rs_")):
                 self.pamset_carbon_start[pam] = value
             else:
                 self.pamset_emiconc_start[pam] = value
@@ -354,12 +368,9 @@ class _ConfigDistro:
             pamset_emiconc = self.pamset_emiconc_start.copy()
             pamset_carbon = self.pamset_carbon_start.copy()
             for j, pam in enumerate(self.ordering):
-                if pam in ordering_standard_forc:
+                if pam in thermal_model_pams:
                     pamset_udm[pam] = samples[i, j]
-                elif (
-                    not self.options["forc"]
-                    and pam in CARBON_CYCLE_MODEL_REQUIRED_PAMSET
-                ):
+                elif not self.options["forc"] and pam in carbon_cycle_pams:
                     pamset_carbon[pam] = samples[i, j]
                 elif not self.options["forc"] and pam.startswith(("rb_", "rs_")):
                     pamset_carbon[pam] = samples[i, j]
-- 
2.43.0


From 069031f6c377435529a36bea382c3c5d90efd9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:40 +0000
Subject: [PATCH 12/16] fix: write each chunk of configurations to its own file

With a file name that does not end in .json all chunks were written to the same
file, so only the last one was kept.
---
 src/ciceroscm/parallel/_configdistro.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/parallel/_configdistro.py b/src/ciceroscm/parallel/_configdistro.py
index 050e166..4db6f93 100644
--- a/src/ciceroscm/parallel/_configdistro.py
+++ b/src/ciceroscm/parallel/_configdistro.py
@@ -4,6 +4,7 @@ Module to make parameter distributions
 
 import json
 import logging
+import os
 
 import numpy as np
 from scipy.stats import qmc
@@ -325,7 +326,8 @@ class _ConfigDistro:
             start_num = config_num * max_chunk_size
             json_fname_now = None
             if json_fname is not None:
-                json_fname_now = json_fname.replace(".json", f"chunk_{config_num}.json")
+                fname_start, extension = os.path.splitext(json_fname)
+                json_fname_now = f"{fname_start}chunk_{config_num}{extension}"
             config_chunk_list[config_num] = self.make_single_config_list(
                 samples[start_num : start_num + num_this_chunk],
                 numvalues=num_this_chunk,
-- 
2.43.0


From dc10c15bf23b4bb8e0588ba8c9c787c849ae1f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:43 +0000
Subject: [PATCH 13/16] fix: raise an error for an empty natural emissions file

---
 src/ciceroscm/input_handler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ciceroscm/input_handler.py b/src/ciceroscm/input_handler.py
index 40cbc3d..66ceefe 100644
--- a/src/ciceroscm/input_handler.py
+++ b/src/ciceroscm/input_handler.py
@@ -69,6 +69,8 @@ def read_natural_emissions(filename, component, startyear=1750, endyear=2500):
                 Dataframe of natural emissions for component with years as index
     """
     df_natemis = pd.read_csv(filename, header=None, names=[component], index_col=False)
+    if df_natemis.empty:
+        raise ValueError(f"No natural emissions of {component} in {filename}")
     df_natemis["year"] = np.arange(startyear, endyear + 1)
     df_natemis = df_natemis.set_index("year")
     return df_natemis
-- 
2.43.0


From fd8cfd88f23e64cac91098dc6a3850f050765b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:44 +0000
Subject: [PATCH 14/16] fix: keep usable response functions when new ones are
 rejected

---
 src/ciceroscm/carbon_cycle/carbon_cycle_mod.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ciceroscm/carbon_cycle/carbon_cycle_mod.py b/src/ciceroscm/carbon_cycle/carbon_cycle_mod.py
index 43dd95b..6f444b9 100644
--- a/src/ciceroscm/carbon_cycle/carbon_cycle_mod.py
+++ b/src/ciceroscm/carbon_cycle/carbon_cycle_mod.py
@@ -205,8 +205,9 @@ class CarbonCycleModel(AbstractCarbonCycleModel):
                 "rs_function" in pamset_carbon or "rb_function" in pamset_carbon
             )
 
+            pamset_before = self.pamset
             self.pamset = update_pam_if_numeric(
-                self.pamset,
+                self.pamset.copy(),
                 pamset_new=pamset_carbon,
                 can_change=CARBON_CYCLE_MODEL_REQUIRED_PAMSET.keys(),
             )
@@ -218,7 +219,13 @@ class CarbonCycleModel(AbstractCarbonCycleModel):
 
             # Recompute r_functions if we updated any function parameters
             if needs_rfunction_recompute:
-                self.precalc_r_functions()
+                try:
+                    self.precalc_r_functions()
+                except BaseException:
+                    # Go back to the functions that could be calculated
+                    self.pamset = pamset_before
+                    self.precalc_r_functions()
+                    raise
         # Has to come after the update, as the start concentration can be updated
         self.co2_hold = {
             "yCO2": 0.0,
-- 
2.43.0


From 2eb51fb4624f7c55cd9103da855ae12e9d8cbcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:49 +0000
Subject: [PATCH 15/16] fix: plot output of thermal models without hemispheric
 series

---
 src/ciceroscm/make_plots.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ciceroscm/make_plots.py b/src/ciceroscm/make_plots.py
index 00ad9a6..cea76c0 100644
--- a/src/ciceroscm/make_plots.py
+++ b/src/ciceroscm/make_plots.py
@@ -77,8 +77,11 @@ def plot_output1(pamset, results, nystart, nyend):
     fig, axs = plt.subplots(nrows=1, ncols=2, sharex=True, figsize=(12, 6))
     axs[0].plot(indices, results["RIB_glob"], label="RIB_glob")
     axs[1].plot(indices, results["RIB_glob"], label="RIB_glob")
-    axs[1].plot(indices, results["RIB_N"], label="RIB_N", linestyle=":")
-    axs[1].plot(indices, results["RIB_S"], label="RIB_S", linestyle="--")
+    # Not all thermal models have hemispheric output
+    if "RIB_N" in results:
+        axs[1].plot(indices, results["RIB_N"], label="RIB_N", linestyle=":")
+    if "RIB_S" in results:
+        axs[1].plot(indices, results["RIB_S"], label="RIB_S", linestyle="--")
     fix_plot(
         axs,
         [r"W $\mathrm{m}^{-2}$", r"W $\mathrm{m}^{-2}$"],
@@ -90,6 +93,8 @@ def plot_output1(pamset, results, nystart, nyend):
     fig, axs = plt.subplots(nrows=1, ncols=2, sharex=True, figsize=(14, 6))
 
     for comp in ["dT_glob", "dT_glob_air", "dT_glob_sea"]:
+        if comp not in results:
+            continue
         colours = {"glob": "tab:green", "air": "tab:orange", "sea": "tab:blue"}
         axs[0].plot(
             indices,
@@ -105,6 +110,8 @@ def plot_output1(pamset, results, nystart, nyend):
         "dT_SH_air",
         "dT_SHsea",
     ]:
+        if comp not in results:
+            continue
         if "NH" in comp:
             colours = {"NH": "tab:green", "air": "tab:orange", "sea": "tab:blue"}
             axs[1].plot(
-- 
2.43.0


From 6d402d0cffd8548f7b3720e23a4884d76071478e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:22 +0000
Subject: [PATCH 16/16] fix: do not fill defaults into the emission parameters
 of the caller

---
 src/ciceroscm/concentrations_emissions_handler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index b71da3a..44ddb77 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -43,8 +43,8 @@ def check_pamset(pamset):
     dict
         Updated pamset with default values used where necessary
     """
-    if pamset is None:
-        pamset = {}
+    # Copy, as the defaults below should not be filled into the parameters of the caller
+    pamset = {} if pamset is None else pamset.copy()
     required = {
         "qbmb": 0.0,
         "qo3": 0.5,
-- 
2.43.0

