From 9bb9a439107209da6de975c365edc6bde77edee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:50 +0000
Subject: [PATCH 01/77] fix: summarizing cycles no longer adds a column to the
 raw data

---
 beep/structure/base.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index c37bfdd..8bcf55d 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -832,27 +832,25 @@ class BEEPDatapath(abc.ABC, MSONable):
 
         # Compute time since start of cycle in minutes. This comes handy
         # for featurizing time-temperature integral
-        self.raw_data["time_since_cycle_start"] = pd.to_datetime(
-            self.raw_data["date_time_iso"], format="mixed"
+        timed_data = self.raw_data.copy()
+        timed_data["time_since_cycle_start"] = pd.to_datetime(
+            timed_data["date_time_iso"], format="mixed"
         ) - pd.to_datetime(
-            self.raw_data.groupby("cycle_index")["date_time_iso"].transform(
+            timed_data.groupby("cycle_index")["date_time_iso"].transform(
                 "first"), format="mixed"
         )
-        self.raw_data["time_since_cycle_start"] = (self.raw_data[
+        timed_data["time_since_cycle_start"] = (timed_data[
                                                        "time_since_cycle_start"] / np.timedelta64(
             1, "s")) / 60
 
         # Group by cycle index and integrate time-temperature
         # using a lambda function.
-        if "temperature" in self.raw_data.columns:
-            summary["time_temperature_integrated"] = self.raw_data.groupby(
+        if "temperature" in timed_data.columns:
+            summary["time_temperature_integrated"] = timed_data.groupby(
                 "cycle_index").apply(
                 lambda g: integrate.trapz(g.temperature, x=g.time_since_cycle_start)
             )
 
-        # Drop the time since cycle start column
-        self.raw_data.drop(columns=["time_since_cycle_start"])
-
         # Determine if any of the cycles has been paused
         summary["paused"] = self.raw_data.groupby("cycle_index").apply(
             get_max_paused_over_threshold)
-- 
2.43.0


From 6fade50dd5eb59c4649fd75c49d477c2bd4d9aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:50 +0000
Subject: [PATCH 02/77] fix: an unstructured run reloads as unstructured

---
 beep/structure/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 8bcf55d..d4d6a27 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -444,8 +444,11 @@ class BEEPDatapath(abc.ABC, MSONable):
         datapath = cls(raw_data=raw_data, metadata=metadata, paths=paths, schema=schema)
         datapath._is_legacy = is_legacy
 
-        datapath.structured_data = pd.DataFrame(d["cycles_interpolated"])
-        datapath.structured_summary = pd.DataFrame(d["summary"])
+        structured_data = d["cycles_interpolated"]
+        structured_summary = d["summary"]
+        datapath.structured_data = structured_data if structured_data is None else pd.DataFrame(structured_data)
+        datapath.structured_summary = structured_summary if structured_summary is None else pd.DataFrame(
+            structured_summary)
 
         diagnostic_summary = d.get("diagnostic_summary")
         diagnostic_data = d.get("diagnostic_interpolated")
-- 
2.43.0


From e5f492232dacd1440a2989f3019f60a64f286b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:50 +0000
Subject: [PATCH 03/77] fix: charge_duration is assigned by cycle, not by
 position

---
 beep/structure/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index d4d6a27..8637d5a 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -823,7 +823,7 @@ class BEEPDatapath(abc.ABC, MSONable):
         # charge_capacity and will have NaN for charge duration
         merged = charge_start_time.merge(
             charge_finish_time, on="cycle_index", how="left"
-        )
+        ).set_index("cycle_index")
 
         # Charge duration stored in seconds - note that date_time_iso is only ~1sec resolution
         time_diff = np.subtract(
-- 
2.43.0


From e987d1784da1e1f98cb9bb9260732c9b66bc4ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:50 +0000
Subject: [PATCH 04/77] fix: record exclude_cycles in the structuring
 parameters

---
 beep/structure/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 8637d5a..dd107cb 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -562,7 +562,8 @@ class BEEPDatapath(abc.ABC, MSONable):
             "nominal_capacity": nominal_capacity,
             "full_fast_charge": full_fast_charge,
             "charge_axis": charge_axis,
-            "discharge_axis": discharge_axis
+            "discharge_axis": discharge_axis,
+            "exclude_cycles": exclude_cycles
         }
 
     @StructuringDecorators.must_not_be_legacy
-- 
2.43.0


From d7b94357c0188cb2cadd4cb71c9a4253aaffb0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:50 +0000
Subject: [PATCH 05/77] fix: regular cycle mask follows the index of the raw
 data

---
 beep/structure/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index dd107cb..7f65c05 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -713,7 +713,7 @@ class BEEPDatapath(abc.ABC, MSONable):
             diag_mask = self.raw_data.cycle_index.isin(self.diagnostic.all_ix)
             reg_mask = ~diag_mask
         else:
-            reg_mask = pd.Series([True] * self.raw_data.shape[0])
+            reg_mask = pd.Series(True, index=self.raw_data.index)
 
         reg_cycles = self.raw_data[reg_mask].cycle_index.unique()
 
-- 
2.43.0


From 06d870c87f0ceceb922cc474b533fa8018895ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:50 +0000
Subject: [PATCH 06/77] fix: a step whose only discharge evidence is positive
 is discharging

---
 beep/structure/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 7f65c05..193756f 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -1355,7 +1355,7 @@ def step_is_chg_state(step_df, chg, indeterminate_step_charge=True):
     if np.isnan(avg_chg_delta) and np.isnan(avg_dchg_delta):
         is_charging = None
     elif np.isnan(avg_chg_delta):
-        is_charging = avg_dchg_delta > 0
+        is_charging = not avg_dchg_delta > 0
     elif np.isnan(avg_dchg_delta):
         is_charging = avg_chg_delta > 0
     else:
-- 
2.43.0


From 9212da645a5be88ebeed5f24e3748a2d073b207e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:00 +0000
Subject: [PATCH 07/77] fix: interrupted or refused commands exit with a
 failing code

---
 beep/cmd.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index d656905..bcadd57 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -593,7 +593,7 @@ def structure(
 
         except KeyboardInterrupt:
             logging.critical("Keyboard interrupt caught - exiting...")
-            click.Context.exit(1)
+            ctx.exit(1)
 
         except BaseException:
             tbinfo = sys.exc_info()
@@ -808,7 +808,7 @@ def featurize(
                     f"'{fclass_name}' not recognized as BEEP native featurizer "
                     f"or importable module."
                 )
-                click.Context.exit(1)
+                ctx.exit(1)
 
             modname, _, clsname = fclass_name.rpartition('.')
             mod = importlib.import_module(modname)
@@ -816,7 +816,7 @@ def featurize(
 
             if not issubclass(cls, BEEPFeaturizer):
                 logging.critical(f"Class {cls.__name__} is not a subclass of BEEPFeaturizer.")
-                click.Context.exit(1)
+                ctx.exit(1)
             fclass = cls
 
         # check parameter arguments and update with full hyperparameter specifications
@@ -899,7 +899,7 @@ def featurize(
 
             except KeyboardInterrupt:
                 logger.critical("Keyboard interrupt caught - exiting...")
-                click.Context.exit(1)
+                ctx.exit(1)
 
             except BaseException:
                 tbinfo = sys.exc_info()
@@ -1320,7 +1320,7 @@ def train(
             test_errors = None
     except KeyboardInterrupt:
         logging.critical("Keyboard interrupt caught - exiting...")
-        click.Context.exit(1)
+        ctx.exit(1)
     except BaseException:
         tbinfo = sys.exc_info()
         tbfmt = traceback.format_exception(*tbinfo)
@@ -1483,7 +1483,7 @@ def predict(
 
     except KeyboardInterrupt:
         logging.critical("Keyboard interrupt caught - exiting...")
-        click.Context.exit(1)
+        ctx.exit(1)
     except BaseException:
         tbinfo = sys.exc_info()
         tbfmt = traceback.format_exception(*tbinfo)
-- 
2.43.0


From 23b64bc96e3b8facf6f598b2a2cd767df99fed6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:00 +0000
Subject: [PATCH 08/77] fix: the train command uses the alpha grid it is given

---
 beep/cmd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index bcadd57..a91453c 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -1074,7 +1074,7 @@ def featurize(
 @click.option(
     "--n-alphas",
     "-an",
-    type=click.FLOAT,
+    type=click.INT,
     help="Number of linearly spaced alphas to explore during "
          "hyperparameter tuning. If not specified, sklearn defaults "
          "are used. Must be specified with --alpha-upper and "
@@ -1249,7 +1249,7 @@ def train(
     )
 
     alpha_params = [alpha_lower, alpha_upper, n_alphas]
-    if any(alpha_params) and not all(alpha_params):
+    if all(p is not None for p in alpha_params):
         alphas = np.linspace(start=alpha_lower, stop=alpha_upper, num=n_alphas)
     else:
         alphas = None
-- 
2.43.0


From 39d090b97b8f80e55ada11278c1938662f0eff7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:00 +0000
Subject: [PATCH 09/77] fix: train thresholds and l1 ratios reach the model
 under its parameter names

---
 beep/cmd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index a91453c..792f28d 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -1258,15 +1258,15 @@ def train(
         l1_ratios = [float(l1r) for l1r in l1_ratios.strip().split(",")]
 
     additional_kwargs = {
-        "train_feature_nan_thresh": train_feature_nan_thresh,
-        "train_sample_nan_thresh": train_sample_nan_thresh,
+        "train_feature_drop_nan_thresh": train_feature_nan_thresh,
+        "train_sample_drop_nan_thresh": train_sample_nan_thresh,
         "predict_sample_nan_thresh": predict_sample_nan_thresh,
         "drop_nan_training_targets": drop_nan_training_targets,
         "impute_strategy": impute_strategy,
         "kfold": kfold,
         "max_iter": max_iter,
         "tol": tol,
-        "l1_ratios": l1_ratios,
+        "l1_ratio": l1_ratios,
         "homogenize_features": homogenize_features,
         "alphas": alphas,
     }
-- 
2.43.0


From af2a48ebb9539d22d389fa123b4f750143a25e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:00 +0000
Subject: [PATCH 10/77] fix: --drop-nan-training-targets no longer turns
 dropping off

---
 beep/cmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index 792f28d..0322c1a 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -1104,7 +1104,7 @@ def featurize(
          "be nan."
 )
 @click.option(
-    "--drop-nan-training-targets",
+    "--drop-nan-training-targets/--keep-nan-training-targets",
     is_flag=True,
     default=True,
     help="Drop samples containing any nan targets. If False and "
-- 
2.43.0


From eae3043b903be1f371279944670c3391c6cf3aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:00 +0000
Subject: [PATCH 11/77] fix: predict honours a sample nan threshold of 0

---
 beep/cmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index 0322c1a..5836ce0 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -1467,7 +1467,7 @@ def predict(
 
         # Optionally override the previously set sample nan thresh
         # for prediction dataframes
-        if predict_sample_nan_thresh:
+        if predict_sample_nan_thresh is not None:
             model.predict_sample_nan_thresh = predict_sample_nan_thresh
 
         logging.debug(
-- 
2.43.0


From a22460e1c3c1ab96c969b708a0bb4d3ca8f6e564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:00 +0000
Subject: [PATCH 12/77] fix: featurize writes the auto-named feature matrix to
 --output-dir

---
 beep/cmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index 5836ce0..10040d0 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -929,7 +929,7 @@ def featurize(
         if output_filename:
             output_filename = os.path.abspath(output_filename)
         else:
-            output_filename = os.path.join(ctx.obj.cwd, default_filename)
+            output_filename = os.path.join(output_dir, default_filename)
 
         dumpfn(feature_matrix, output_filename)
         logger.info(f"Feature matrix of size {feature_matrix.matrix.shape} s"
-- 
2.43.0


From 0657e133fa807f043ae54809ad2885af50507e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:00 +0000
Subject: [PATCH 13/77] fix: a run that cannot be loaded no longer stops
 featurization of the others

---
 beep/cmd.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index 10040d0..1d3df29 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -843,13 +843,33 @@ def featurize(
         logger.debug(f"Hashing file '{file}' to MD5")
         op_result = {
             "walltime": None,
-            "processed_md5_chksum": md5sum(file),
+            "processed_md5_chksum": None,
+            "traceback": None,
             "featurizers": []
         }
 
-        logger.debug(f"{log_prefix}: Loading processed run '{file}'.")
-        structured_datapath = auto_load_processed(file)
-        logger.debug(f"{log_prefix}: Loaded processed run '{file}' into memory.")
+        try:
+            op_result["processed_md5_chksum"] = md5sum(file)
+            logger.debug(f"{log_prefix}: Loading processed run '{file}'.")
+            structured_datapath = auto_load_processed(file)
+            logger.debug(f"{log_prefix}: Loaded processed run '{file}' into memory.")
+
+        except KeyboardInterrupt:
+            logger.critical("Keyboard interrupt caught - exiting...")
+            ctx.exit(1)
+
+        except BaseException:
+            tbinfo = sys.exc_info()
+            logger.error(f"{log_prefix}: Could not load: ({tbinfo[0].__name__}): {file}")
+            op_result["traceback"] = traceback.format_exception(*tbinfo)
+
+            if ctx.obj.halt_on_error:
+                raise
+
+            op_result["walltime"] = time.time() - t0_file
+            status_json["files"][file] = op_result
+            i += 1
+            continue
 
         for fclass, f_hyperparams in fclass_tuples:
             fclass_name = fclass.__name__
-- 
2.43.0


From ddb768bbd46fa4dcbd9384993116e4c6e7cef796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:00 +0000
Subject: [PATCH 14/77] fix: an interrupt while building the feature matrix
 ends the command

---
 beep/cmd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/beep/cmd.py b/beep/cmd.py
index 1d3df29..c7e7526 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -957,6 +957,9 @@ def featurize(
         feature_matrix_status["created"] = True
         feature_matrix_status["traceback"] = None
         feature_matrix_status["output"] = output_filename
+    except KeyboardInterrupt:
+        logger.critical("Keyboard interrupt caught - exiting...")
+        ctx.exit(1)
     except BaseException:
         if ctx.obj.halt_on_error:
             raise
-- 
2.43.0


From a21642cfa211eeb209463e4d51ada450874dc42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:00 +0000
Subject: [PATCH 15/77] fix: a parameter row that fails no longer stops the
 generation of the others

---
 beep/protocol/generate_protocol.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/beep/protocol/generate_protocol.py b/beep/protocol/generate_protocol.py
index 486d231..79142e4 100644
--- a/beep/protocol/generate_protocol.py
+++ b/beep/protocol/generate_protocol.py
@@ -114,7 +114,8 @@ def generate_protocol_files_from_csv(csv_filename, output_directory=None):
         if not os.path.exists(subdir_path):
             makedirs_p(subdir_path)
 
-    for index, protocol_params in protocol_params_df.iterrows():
+    def generate_protocol_file(index, protocol_params):
+        nonlocal result
         template = protocol_params["template"]
         protocol = None
         # Filename for the output
@@ -176,7 +177,7 @@ def generate_protocol_files_from_csv(csv_filename, output_directory=None):
                 file_generation_failures.append(failure)
                 warnings.warn("Unsupported file template {}, skipping.".format(template))
                 result = "error"
-                continue
+                return
 
             filename = "{}.000".format(filename_prefix)
             filename = os.path.join(output_directory, "procedures", filename)
@@ -194,7 +195,7 @@ def generate_protocol_files_from_csv(csv_filename, output_directory=None):
             file_generation_failures.append(failure)
             logger.warning("Schedule file generation not yet implemented")
             result = "error"
-            continue
+            return
         else:  # Unable to match to any known template format
             failure = {
                 "comment": "Unable to find template: " + template,
@@ -203,13 +204,25 @@ def generate_protocol_files_from_csv(csv_filename, output_directory=None):
             file_generation_failures.append(failure)
             warnings.warn("Unsupported file template {}, skipping.".format(template))
             result = "error"
-            continue
+            return
 
         logger.info(filename)
         protocol.to_file(filename)
         successfully_generated_files.append(filename)
         names.append(filename_prefix + "_")
 
+    for index, protocol_params in protocol_params_df.iterrows():
+        try:
+            generate_protocol_file(index, protocol_params)
+        except Exception as e:
+            failure = {
+                "comment": "Unable to generate protocol for row {}: {}".format(index, e),
+                "error": type(e).__name__,
+            }
+            file_generation_failures.append(failure)
+            logger.error(failure["comment"])
+            result = "error"
+
     # This block of code produces the file containing all of the run file
     # names produced in this function call. This is to make starting tests easier
     _, namefile = os.path.split(csv_filename)
-- 
2.43.0


From 5642380e71c44198b461573b6354c68b940b47d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:01 +0000
Subject: [PATCH 16/77] fix: the protocol command reports the rows that failed

---
 beep/cmd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index c7e7526..316e8a1 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -1605,7 +1605,7 @@ def protocol(
     output_files, failures, result, message = [], [], "", {}
     try:
         results = generate_protocol_files_from_csv(csv_file, output_directory=output_dir)
-        output_files, file_generation_failures, result, message = results
+        output_files, failures, result, message = results
 
         if result == "error" or failures:
             msg = message["comment"]
@@ -1623,8 +1623,8 @@ def protocol(
     for of in output_files:
         status_json["protocol"][of] = {"generated": True}
 
-    for f in failures:
-        status_json["protocol"][f] = {"generated": False}
+    for n, f in enumerate(failures):
+        status_json["protocol"][f"failure {n + 1}: {f['comment']}"] = {"generated": False}
 
     status_json["walltime"] = t1 - t0
     status_json = add_metadata_to_status_json(status_json, ctx.obj.run_id, ctx.obj.tags)
-- 
2.43.0


From 791a5b5ec12c7dc08261f6ad6b4195a256fa34c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:01 +0000
Subject: [PATCH 17/77] fix: the protocol command honours --halt-on-error and
 interrupts

---
 beep/cmd.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/beep/cmd.py b/beep/cmd.py
index 316e8a1..31efb74 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -1613,11 +1613,17 @@ def protocol(
             raise ProtocolException(f"'{err}: {msg}'")
         else:
             logger.info(f"Created {len(output_files)} protocol files in `{output_dir}`.")
+    except KeyboardInterrupt:
+        logger.critical("Keyboard interrupt caught - exiting...")
+        ctx.exit(1)
     except BaseException:
         tbinfo = sys.exc_info()
         tbfmt = traceback.format_exception(*tbinfo)
         logger.error(f"Protocol generation failed with : ({tbinfo[0].__name__})")
         status_json["traceback"] = tbfmt
+
+        if ctx.obj.halt_on_error:
+            raise
     t1 = time.time()
 
     for of in output_files:
-- 
2.43.0


From 9edd12e486533c77fea840bc8f0a1fc511b3e3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:01 +0000
Subject: [PATCH 18/77] fix: features are dropped by the feature nan threshold

---
 beep/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/model.py b/beep/model.py
index 2024cf5..b965512 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -135,7 +135,7 @@ class BEEPLinearModelExperiment(MSONable):
             )
 
         # Form the clean feature matrix
-        X = X.dropna(axis=1, thresh=train_sample_drop_nan_thresh * X.shape[0])
+        X = X.dropna(axis=1, thresh=train_feature_drop_nan_thresh * X.shape[0])
         X = X.dropna(axis=0, thresh=train_sample_drop_nan_thresh * X.shape[1])
         X = self._impute_df(X, method=impute_strategy)
         self.impute_strategy = impute_strategy
-- 
2.43.0


From 53a1c78556c12d6d5acc366cf794ab12184677f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:01 +0000
Subject: [PATCH 19/77] fix: predicting leaves the column names of the caller's
 matrix alone

---
 beep/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beep/model.py b/beep/model.py
index b965512..bd75efc 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -446,6 +446,7 @@ class BEEPLinearModelExperiment(MSONable):
         """
         d = BEEPFeatureMatrix.OP_DELIMITER
         cols_stripped = [d.join(c.split(d)[:-1]) for c in X.columns]
+        X = X.copy()
         X.columns = cols_stripped
         return X
 
-- 
2.43.0


From 19950082fb7b2b5b51ae36d7a50ebc5a9604d520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:01 +0000
Subject: [PATCH 20/77] fix: predict reports only the samples it dropped

---
 beep/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/model.py b/beep/model.py
index bd75efc..09ffcf8 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -359,7 +359,7 @@ class BEEPLinearModelExperiment(MSONable):
 
         dropped = []
         if X_old.shape[0] != X.shape[0]:
-            dropped = [s for s in X_old.index if s not in X]
+            dropped = [s for s in X_old.index if s not in X.index]
             logger.warning(
                 f"{len(dropped)} samples dropped due to nan sample threshold "
                 f"of {self.predict_sample_nan_thresh}. List of those dropped "
-- 
2.43.0


From 3c38a6007ec17faf7661e4c89af5af6fb7397156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:01 +0000
Subject: [PATCH 21/77] fix: ridge accepts an array of alphas

---
 beep/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/model.py b/beep/model.py
index 09ffcf8..793bc1b 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -265,7 +265,7 @@ class BEEPLinearModelExperiment(MSONable):
 
             # Ridge has to have alphas set by hand as it has no
             # default alphas
-            if not kwargs["alphas"]:
+            if kwargs["alphas"] is None:
                 kwargs["alphas"] = (1e-3, 1e-2, 1e-1, 1, 10, 100, 1000)
         else:
             raise NotImplementedError(f"Unsupported model '{self.model_name}'")
-- 
2.43.0


From 6c9091b36aa447b2cf61d0f3bce373fd4891c4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:01 +0000
Subject: [PATCH 22/77] fix: the prediction nan threshold is a fraction of the
 features used

---
 beep/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/model.py b/beep/model.py
index 793bc1b..4390cff 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -353,7 +353,7 @@ class BEEPLinearModelExperiment(MSONable):
         X_old = copy.deepcopy(X)
         X = X[self.feature_labels].dropna(
             axis=0,
-            thresh=self.predict_sample_nan_thresh * X.shape[1]
+            thresh=self.predict_sample_nan_thresh * len(self.feature_labels)
         )
         X = self._impute_df(X, self.impute_strategy)
 
-- 
2.43.0


From c2cc3f5de459d7193430698dbf41256275cfc980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:01 +0000
Subject: [PATCH 23/77] fix: a reloaded model scales features as it was trained
 to

---
 beep/model.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/beep/model.py b/beep/model.py
index 4390cff..8e2664b 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -512,6 +512,10 @@ class BEEPLinearModelExperiment(MSONable):
                 "intercept_": self.model.intercept_.tolist(),
                 "optimal_hyperparameters": self.optimal_hyperparameters,
             },
+            "scaler_sklearn": {
+                "mean_": self.scaler.mean_.tolist(),
+                "scale_": self.scaler.scale_.tolist(),
+            },
 
         }
 
@@ -560,6 +564,11 @@ class BEEPLinearModelExperiment(MSONable):
         model.intercept_ = np.asarray(model_params["intercept_"])
         o.model = model
         o.optimal_hyperparameters = model_params["optimal_hyperparameters"]
+
+        # Older files do not include the scaler
+        if "scaler_sklearn" in d:
+            o.scaler.mean_ = np.asarray(d["scaler_sklearn"]["mean_"])
+            o.scaler.scale_ = np.asarray(d["scaler_sklearn"]["scale_"])
         return o
 
     @classmethod
-- 
2.43.0


From 9ebb7b1be09dba132743584678b5f6c53e3eee39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:28 +0000
Subject: [PATCH 24/77] fix: a featurizer keeps its own copy of its
 hyperparameters

---
 beep/features/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beep/features/base.py b/beep/features/base.py
index b70a596..cae1c29 100644
--- a/beep/features/base.py
+++ b/beep/features/base.py
@@ -63,14 +63,14 @@ class BEEPFeaturizer(MSONable, abc.ABC):
         # If no hyperparameters are specified, use defaults
         if hyperparameters:
             if all(k in hyperparameters for k in self.DEFAULT_HYPERPARAMETERS):
-                self.hyperparameters = hyperparameters
+                self.hyperparameters = copy.deepcopy(hyperparameters)
             else:
                 raise BEEPFeaturizationError(
                     f"Features cannot be created with incomplete set of "
                     f"hyperparameters {hyperparameters.keys()} < "
                     f"{self.DEFAULT_HYPERPARAMETERS.keys()}!")
         else:
-            self.hyperparameters = self.DEFAULT_HYPERPARAMETERS
+            self.hyperparameters = copy.deepcopy(self.DEFAULT_HYPERPARAMETERS)
 
         if not (structured_datapath is None or structured_datapath.is_structured):
             raise BEEPFeaturizationError("BEEPDatapath input is not structured!")
-- 
2.43.0


From e46ddbc1e19a05bc6b716a969151c90723ba50ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:28 +0000
Subject: [PATCH 25/77] fix: DeltaQFastCharge honours n_nominal_cycles instead
 of overwriting it

---
 beep/features/core.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index 6db4add..cc8ba04 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -538,9 +538,7 @@ class DeltaQFastCharge(BEEPFeaturizer):
         i_mid = self.hyperparameters["mid_pred_cycle"] - 1
 
         summary = self.datapath.structured_summary
-        self.hyperparameters[
-            "n_nominal_cycles"
-        ] = 40  # For nominal capacity, use median discharge capacity of first n cycles
+        # For nominal capacity, use median discharge capacity of first n cycles
 
         if "step_type" in self.datapath.structured_data.columns:
             interpolated_df = self.datapath.structured_data[
-- 
2.43.0


From 64abbc9494a9903de6f95cfa949731e6039f916f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:28 +0000
Subject: [PATCH 26/77] fix: diagnostic featurizers filter a copy of the run,
 not the run itself

---
 beep/features/core.py | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index cc8ba04..924f756 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -1,3 +1,5 @@
+import copy
+
 import numpy as np
 import pandas as pd
 from scipy.stats import skew, kurtosis
@@ -41,25 +43,27 @@ class HPPCResistanceVoltageFeatures(BEEPFeaturizer):
 
     def create_features(self):
         # Filter out low cycle numbers at the end of the test, corresponding to the "final" diagnostic
-        self.datapath.diagnostic_data = self.datapath.diagnostic_data[
-            ~((self.datapath.diagnostic_data.test_time > self.hyperparameters[
+        # The filtered data belongs to a shallow copy, so that the run itself is left as it was
+        datapath = copy.copy(self.datapath)
+        datapath.diagnostic_data = datapath.diagnostic_data[
+            ~((datapath.diagnostic_data.test_time > self.hyperparameters[
                 'test_time_filter_sec']) &
-              (self.datapath.diagnostic_data.cycle_index < self.hyperparameters[
+              (datapath.diagnostic_data.cycle_index < self.hyperparameters[
                   'cycle_index_filter']))
         ]
-        self.datapath.diagnostic_data = self.datapath.diagnostic_data.groupby(
+        datapath.diagnostic_data = datapath.diagnostic_data.groupby(
             ["cycle_index", "step_index", "step_index_counter"]
         ).filter(lambda x: ~x["test_time"].isnull().all())
 
         # diffusion features
         diffusion_features = featurizer_helpers.get_diffusion_features(
-            self.datapath, self.hyperparameters["diag_pos"]
+            datapath, self.hyperparameters["diag_pos"]
         )
 
         hppc_r = pd.DataFrame()
         # the 9 by 6 dataframe
         df_dr = featurizer_helpers.get_dr_df(
-            self.datapath, self.hyperparameters["diag_pos"]
+            datapath, self.hyperparameters["diag_pos"]
         )
         # transform this dataframe to be 1 by 54
         columns = df_dr.columns
@@ -70,14 +74,14 @@ class HPPCResistanceVoltageFeatures(BEEPFeaturizer):
 
         # the variance of ocv features
         hppc_ocv = featurizer_helpers.get_hppc_ocv(
-            self.datapath,
+            datapath,
             self.hyperparameters["diag_pos"],
             parameters_path=self.hyperparameters["parameters_path"]
         )
 
         # the v_diff features
         v_diff = featurizer_helpers.get_v_diff(
-            self.datapath,
+            datapath,
             self.hyperparameters["diag_pos"],
             self.hyperparameters["soc_window"],
             self.hyperparameters["parameters_path"]
@@ -355,17 +359,19 @@ class DiagnosticSummaryStats(CycleSummaryStats):
         """
         # Filter out "final" diagnostic cycles that have been appended to the end of the file with the wrong
         # cycle number(test time is monotonic)
-        self.datapath.diagnostic_data = self.datapath.diagnostic_data[
-            ~((self.datapath.diagnostic_data.test_time > self.hyperparameters[
+        # The filtered data belongs to a shallow copy, so that the run itself is left as it was
+        datapath = copy.copy(self.datapath)
+        datapath.diagnostic_data = datapath.diagnostic_data[
+            ~((datapath.diagnostic_data.test_time > self.hyperparameters[
                 'test_time_filter_sec']) &
-              (self.datapath.diagnostic_data.cycle_index < self.hyperparameters[
+              (datapath.diagnostic_data.cycle_index < self.hyperparameters[
                   'cycle_index_filter']))
         ]
-        self.datapath.diagnostic_data = self.datapath.diagnostic_data.groupby(
+        datapath.diagnostic_data = datapath.diagnostic_data.groupby(
             ["cycle_index", "step_index", "step_index_counter"]
         ).filter(lambda x: ~x["test_time"].isnull().all())
 
-        diag_intrp = self.datapath.diagnostic_data
+        diag_intrp = datapath.diagnostic_data
 
         X = pd.DataFrame(np.zeros((1, 54)))
 
@@ -374,13 +380,13 @@ class DiagnosticSummaryStats(CycleSummaryStats):
                                         self.hyperparameters[
                                             "diagnostic_cycle_type"]].unique()
         step_dict_0 = featurizer_helpers.get_step_index(
-            self.datapath,
+            datapath,
             cycle_type=self.hyperparameters["diagnostic_cycle_type"],
             diag_pos=self.hyperparameters["diag_pos_list"][0],
             parameters_path=self.hyperparameters["parameters_path"]
         )
         step_dict_1 = featurizer_helpers.get_step_index(
-            self.datapath,
+            datapath,
             cycle_type=self.hyperparameters["diagnostic_cycle_type"],
             diag_pos=self.hyperparameters["diag_pos_list"][1],
             parameters_path=self.hyperparameters["parameters_path"]
-- 
2.43.0


From f82619f784390c2469654d5826fd704d88879627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:28 +0000
Subject: [PATCH 27/77] fix: data that has not crossed the threshold is refused
 as intended

---
 beep/features/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index 924f756..77ab527 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -844,7 +844,7 @@ class DiagnosticProperties(BEEPFeaturizer):
         # Logic around how to deal with cells that have not crossed threshold
         if df['fractional_metric'].min() > threshold and \
                 not extrapolate_threshold:
-            BEEPFeaturizationError(
+            raise BEEPFeaturizationError(
                 "DiagnosticProperties data has not crossed threshold "
                 "and extrapolation inaccurate"
             )
-- 
2.43.0


From df7932e7bdb0f6070e636f1cda1fadeec5bfd62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:47 +0000
Subject: [PATCH 28/77] fix: Indigo energies are converted from joules to
 watt-hours

---
 beep/structure/indigo.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/beep/structure/indigo.py b/beep/structure/indigo.py
index 9e989ab..a009bea 100644
--- a/beep/structure/indigo.py
+++ b/beep/structure/indigo.py
@@ -71,12 +71,12 @@ class IndigoDatapath(BEEPDatapath):
                 abs(data.cell_coulomb_count_c) / 3600
         )
         data.loc[data.half_cycle_count % 2 == 1, "discharge_capacity"] = 0
-        data.loc[data.half_cycle_count % 2 == 1, "charge_energy"] = abs(
-            data.cell_energy_j
+        data.loc[data.half_cycle_count % 2 == 1, "charge_energy"] = (
+                abs(data.cell_energy_j) / 3600
         )
         data.loc[data.half_cycle_count % 2 == 0, "charge_energy"] = 0
-        data.loc[data.half_cycle_count % 2 == 0, "discharge_energy"] = abs(
-            data.cell_energy_j
+        data.loc[data.half_cycle_count % 2 == 0, "discharge_energy"] = (
+                abs(data.cell_energy_j) / 3600
         )
         data.loc[data.half_cycle_count % 2 == 1, "discharge_energy"] = 0
         data["internal_resistance"] = data.cell_voltage_v / data.cell_current_a
-- 
2.43.0


From 7b11c52ae861f64c91ca0d816d0ce071649aff1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:47 +0000
Subject: [PATCH 29/77] fix: Novonix discharge energy is referred to energy,
 not to capacity

---
 beep/structure/novonix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/novonix.py b/beep/structure/novonix.py
index 3b20815..3d84c96 100644
--- a/beep/structure/novonix.py
+++ b/beep/structure/novonix.py
@@ -152,7 +152,7 @@ class NovonixDatapath(BEEPDatapath):
                 ix_range = data[data["cycle_index"] == cyc_ix].index
                 dchg_only_cycle_ix.append(cyc_ix)
                 for convention in ("capacity", "energy"):
-                    data.loc[ix_range, f"cycle_chg_max_{convention}"] = cyc_df["capacity"].max()
+                    data.loc[ix_range, f"cycle_chg_max_{convention}"] = cyc_df[convention].max()
         logger.warning(
             f"No charge steps found in cycles {dchg_only_cycle_ix}! "
             f"Using highest capacity reading to determine convention."
-- 
2.43.0


From eac7ef2b4d6cea4ab5cc9ffdcd46dc402c0b0af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:47 +0000
Subject: [PATCH 30/77] fix: Novonix times are converted from hours to seconds

---
 beep/structure/novonix.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beep/structure/novonix.py b/beep/structure/novonix.py
index 3d84c96..8571cff 100644
--- a/beep/structure/novonix.py
+++ b/beep/structure/novonix.py
@@ -79,6 +79,10 @@ class NovonixDatapath(BEEPDatapath):
         name_map = {i: map[i]['beep_name'] for i in map}
         data.rename(name_map, axis="columns", inplace=True)
 
+        # Novonix times are in hours
+        data["test_time"] = data["test_time"] * 3600
+        data["step_time"] = data["step_time"] * 3600
+
         # Temperatures with unicode symbol do not work on windows with mapping
         data['Temperature (°C)'] = data['Temperature (°C)'].astype('float')
         data['Circuit Temperature (°C)'] = data[
-- 
2.43.0


From 3e89e8fa794be6ab961c9a9a81ef94ca2568836f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:47 +0000
Subject: [PATCH 31/77] fix: a Maccor run without a channel number has
 channel_id None

---
 beep/structure/maccor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/maccor.py b/beep/structure/maccor.py
index 84be1de..90bd737 100644
--- a/beep/structure/maccor.py
+++ b/beep/structure/maccor.py
@@ -110,7 +110,7 @@ class MaccorDatapath(BEEPDatapathWithEIS):
             metadata["channel_id"] = int(channel_number.replace(".", ""))
         except ValueError:
             logger.warning("Could not infer channel number from path name!")
-            metadata["channnel_id"] = None
+            metadata["channel_id"] = None
 
         metadata.rename(str.lower, axis="columns", inplace=True)
         metadata.rename(MACCOR_CONFIG["metadata_fields"], axis="columns", inplace=True)
-- 
2.43.0


From aca1fe5c45d5ee1be48ab91316defe7a570239b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:47 +0000
Subject: [PATCH 32/77] fix: MaccorDatapath.load_eis loads its files

---
 beep/structure/maccor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/maccor.py b/beep/structure/maccor.py
index 90bd737..b922966 100644
--- a/beep/structure/maccor.py
+++ b/beep/structure/maccor.py
@@ -162,7 +162,7 @@ class MaccorDatapath(BEEPDatapathWithEIS):
             paths = glob(eis_pattern)
 
         eis_runs = []
-        for path in tqdm.tqdm(paths, desc="Loading EIS files..."):
+        for path in tqdm(paths, desc="Loading EIS files..."):
             eis = self.MaccorEIS.from_file(path)
             eis_runs.append(eis)
 
-- 
2.43.0


From 05aacfeb47a55b25955950ed0177f321530a8b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:47 +0000
Subject: [PATCH 33/77] fix: a Maccor impedance spectrum can be saved and
 reloaded

---
 beep/structure/maccor.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/beep/structure/maccor.py b/beep/structure/maccor.py
index b922966..3be3b3a 100644
--- a/beep/structure/maccor.py
+++ b/beep/structure/maccor.py
@@ -68,6 +68,31 @@ class MaccorDatapath(BEEPDatapathWithEIS):
             data = pd.read_csv(StringIO(data), delimiter="\t")
             return cls(data=data, metadata=metadata)
 
+        def as_dict(self):
+            """Method for serialization as dictionary; Maccor EIS metadata is a plain dictionary.
+
+            Returns:
+                ({}): dictionary representation of this object
+            """
+            return {
+                "@module": self.__class__.__module__,
+                "@class": self.__class__.__name__,
+                "data": self.data.to_dict("list"),
+                "metadata": self.metadata
+            }
+
+        @classmethod
+        def from_dict(cls, d):
+            """Method of invocation from dictionary
+
+            Args:
+                d ({}): dictionary from which to invoke
+
+            Returns:
+                (MaccorEIS): object invoked from dictionary
+            """
+            return cls(pd.DataFrame(d["data"]).sort_index(), d["metadata"])
+
     @classmethod
     def from_file(cls, path):
         """Create a MaccorDatapath file from a Maccor cycler run raw file.
-- 
2.43.0


From eebf649eaba1c6bc745434c73888b9549b75c374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:47 +0000
Subject: [PATCH 34/77] fix: the reason for a violated min_is_below names that
 rule

---
 beep/structure/validate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/validate.py b/beep/structure/validate.py
index c573068..c0017d0 100644
--- a/beep/structure/validate.py
+++ b/beep/structure/validate.py
@@ -198,7 +198,7 @@ class SimpleValidator:
                     value = dataframe[column_name].iloc[index]
                     reason = (
                         "{} needs to reach under {} for processing, instead found:"
-                        "value={}".format(column_name, max_at_least_rule, value)
+                        "value={}".format(column_name, min_is_below_rule, value)
                     )
                     return False, reason
 
-- 
2.43.0


From 5626e666293d940aa35e112b2d4a94b893342bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:13 +0000
Subject: [PATCH 35/77] fix: a reloaded splitter has the imputation and
 exclusion settings it was saved with

---
 beep/prediction/beep_data_splitter.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/beep/prediction/beep_data_splitter.py b/beep/prediction/beep_data_splitter.py
index 8d475da..ccfadbd 100644
--- a/beep/prediction/beep_data_splitter.py
+++ b/beep/prediction/beep_data_splitter.py
@@ -223,6 +223,8 @@ class BEEPDataSplitter(MSONable):
         self.n_splits = n_splits
         self.random_state = random_state
         self.split_columns = split_columns
+        self.exclusion_columns = exclusion_columns
+        self.drop_split_threshold = drop_split_threshold
         self.datasets = None
 
     def split(self):
@@ -331,10 +333,13 @@ class BEEPDataSplitter(MSONable):
             "train_feature_drop_nan_thresh": self.train_feature_drop_nan_thresh,
             "train_sample_drop_nan_thresh": self.train_sample_drop_nan_thresh,
             "drop_nan_training_targets": self.drop_nan_training_targets,
+            "impute_strategy": self.impute_strategy,
             "homogenize_features": self.homogenize_features,
             "n_splits": self.n_splits,
             "random_state": self.random_state,
             "split_columns": self.split_columns,
+            "exclusion_columns": self.exclusion_columns,
+            "drop_split_threshold": self.drop_split_threshold,
             "datasets": [d.as_dict() for d in self.datasets]
         }
 
@@ -349,10 +354,13 @@ class BEEPDataSplitter(MSONable):
             train_feature_drop_nan_thresh=d["train_feature_drop_nan_thresh"],
             train_sample_drop_nan_thresh=d["train_sample_drop_nan_thresh"],
             drop_nan_training_targets=d["drop_nan_training_targets"],
+            impute_strategy=d.get("impute_strategy", "median"),
             homogenize_features=d["homogenize_features"],
             n_splits=d["n_splits"],
             random_state=d["random_state"],
-            split_columns=d["split_columns"]
+            split_columns=d["split_columns"],
+            exclusion_columns=d.get("exclusion_columns"),
+            drop_split_threshold=d.get("drop_split_threshold", 0.5)
         )
 
         bds.datasets = [BEEPDataset.from_dict(dataset) for dataset in d["datasets"]]
-- 
2.43.0


From 152bbd8ac7a7ef9a01d88bfd7a73f5212a64884b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:42 +0000
Subject: [PATCH 36/77] fix: a jump to a loop from before it goes to the loop's
 Do step

---
 beep/protocol/biologic_mb_to_maccor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/biologic_mb_to_maccor.py b/beep/protocol/biologic_mb_to_maccor.py
index fc0f951..028cdf0 100644
--- a/beep/protocol/biologic_mb_to_maccor.py
+++ b/beep/protocol/biologic_mb_to_maccor.py
@@ -744,7 +744,7 @@ class BiologicMbToMaccorProcedure:
                 step = cls._create_step(
                     seq,
                     step_num_by_seq_num,
-                    step_num_is_active_loop_start,
+                    seq_num_is_active_loop_start,
                     end_step_num,
                 )
                 steps.append(step)
-- 
2.43.0


From 69b614dff9dd28c8c568616f09a9e9992d9d7e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:01 +0000
Subject: [PATCH 37/77] fix: every safety limit and sequence mapper reaches the
 converted protocol

---
 beep/protocol/maccor_to_biologic_mb.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/beep/protocol/maccor_to_biologic_mb.py b/beep/protocol/maccor_to_biologic_mb.py
index 2b62a3f..a5d7331 100644
--- a/beep/protocol/maccor_to_biologic_mb.py
+++ b/beep/protocol/maccor_to_biologic_mb.py
@@ -846,13 +846,13 @@ class MaccorToBiologicMb:
         for i, seq in enumerate(seqs):
             mapped_seq = seq
 
-            mapped_seq = self._apply_max_current_to_seq(technique_num, seq, i)
-            mapped_seq = self._apply_min_current_to_seq(technique_num, seq, i)
-            mapped_seq = self._apply_max_voltage_to_seq(technique_num, seq, i)
-            mapped_seq = self._apply_min_voltage_to_seq(technique_num, seq, i)
+            mapped_seq = self._apply_max_current_to_seq(technique_num, mapped_seq, i)
+            mapped_seq = self._apply_min_current_to_seq(technique_num, mapped_seq, i)
+            mapped_seq = self._apply_max_voltage_to_seq(technique_num, mapped_seq, i)
+            mapped_seq = self._apply_min_voltage_to_seq(technique_num, mapped_seq, i)
 
             for mapper in self.seq_mappers + extra_mappers:
-                mapped_seq = mapper(technique_num, seq, i)
+                mapped_seq = mapper(technique_num, mapped_seq, i)
 
             mapped_seqs.append(mapped_seq)
 
-- 
2.43.0


From ed9099dd911f050ac42468b74a953ba56be8c5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:32 +0000
Subject: [PATCH 38/77] fix: end conditions are filtered in steps with a single
 end condition too

---
 beep/protocol/maccor_to_biologic_mb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/maccor_to_biologic_mb.py b/beep/protocol/maccor_to_biologic_mb.py
index a5d7331..e68c2b1 100644
--- a/beep/protocol/maccor_to_biologic_mb.py
+++ b/beep/protocol/maccor_to_biologic_mb.py
@@ -685,7 +685,7 @@ class MaccorToBiologicMb:
             if end_entries is None:
                 return step
 
-            end_entries = end_entries if type(end_entries) is not list else end_entries
+            end_entries = [end_entries] if type(end_entries) is not list else end_entries
             filtered_end_entries = []
             for idx, end_entry in enumerate(end_entries):
                 if pred(end_entry, idx, step_num):
-- 
2.43.0


From 0ade6d4af90929ad417572271942630e41055f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:01 +0000
Subject: [PATCH 39/77] fix: a C-rate discharge to a voltage keeps its voltage
 limit

---
 beep/protocol/maccor_to_arbin.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index 2a10fe4..079b680 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -232,6 +232,8 @@ class ProcedureToSchedule:
                     blank_step["m_szCtrlValue"] = "-" + step_abs["StepValue"].replace(
                         "C", ""
                     )
+                    blank_step["m_szExtCtrlValue1"] = step_abs["Limits"]["Voltage"]
+                    blank_step["m_szExtCtrlValue2"] = "0"
             elif step_abs["Limits"] is None:
                 blank_step["m_szStepCtrlType"] = "C-Rate"
                 if step_abs["StepType"] == "Charge":
-- 
2.43.0


From e475315cc1c38cca14a98568d50916a2352d835e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:29 +0000
Subject: [PATCH 40/77] fix: a single end condition is converted whatever
 mapping type holds it

---
 beep/protocol/maccor_to_arbin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index 079b680..3180822 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -327,7 +327,7 @@ class ProcedureToSchedule:
 
         # Ends
         if step_abs["Ends"] is not None:
-            if isinstance(step_abs["Ends"]["EndEntry"], OrderedDict):
+            if isinstance(step_abs["Ends"]["EndEntry"], dict):
                 blank_step["m_uLimitNum"] = 1
                 end = step_abs["Ends"]["EndEntry"]
                 end_index = 0
-- 
2.43.0


From b8839db953a8ed7f7e07c93c3c97f5bd978c6347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:42 +0000
Subject: [PATCH 41/77] fix: record conditions follow the end conditions,
 however many there are of each

---
 beep/protocol/maccor_to_arbin.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index 3180822..9e119e4 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -364,23 +364,22 @@ class ProcedureToSchedule:
 
         # Reports
         if step_abs["Reports"] is not None:
+            # logging limits follow the limits of the ends
+            limit_start = blank_step["m_uLimitNum"]
             if isinstance(step_abs["Reports"]["ReportEntry"], dict):
-                blank_step["m_uLimitNum"] = blank_step["m_uLimitNum"] + 1
+                blank_step["m_uLimitNum"] = limit_start + 1
                 report = step_abs["Reports"]["ReportEntry"]
-                report_index = 0
-                limit_start = len(step_abs["Ends"]["EndEntry"])
-                limit_key = "Limit{}".format(str(report_index + limit_start))
+                limit_key = "Limit{}".format(str(limit_start))
                 blank_step[limit_key] = OrderedDict(
                     self.convert_report_to_logging_limit(report)
                 )
-            elif isinstance(step_abs["Ends"]["EndEntry"], list):
-                blank_step["m_uLimitNum"] = blank_step["m_uLimitNum"] + len(
+            elif isinstance(step_abs["Reports"]["ReportEntry"], list):
+                blank_step["m_uLimitNum"] = limit_start + len(
                     step_abs["Reports"]["ReportEntry"]
                 )
                 for report_index, report in enumerate(
                     step_abs["Reports"]["ReportEntry"]
                 ):
-                    limit_start = len(step_abs["Ends"]["EndEntry"])
                     limit_key = "Limit{}".format(str(report_index + limit_start))
                     blank_step[limit_key] = OrderedDict(
                         self.convert_report_to_logging_limit(report)
-- 
2.43.0


From ba147933b43e96c32b0e7d19fcc4fca4f909cac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:52 +0000
Subject: [PATCH 42/77] fix: a record condition that cannot be converted is
 refused

---
 beep/protocol/maccor_to_arbin.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index 9e119e4..02e280d 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -562,5 +562,7 @@ class ProcedureToSchedule:
                     report["Value"].replace("::", "00:00:0"), "%H:%M:%S"
                 ) - datetime.strptime("00:00:00", "%H:%M:%S")
             limit["Equation0_szRight"] = str(elapsed.total_seconds())
+        else:
+            raise ValueError("Unable to set report for type {}".format(report["ReportType"]))
 
         return limit
-- 
2.43.0


From bfe2ac8508364778c4b473c731c85581c9bf9d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:05 +0000
Subject: [PATCH 43/77] fix: a step that neither charges nor discharges is
 refused in a control mode

---
 beep/protocol/maccor_to_arbin.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index 02e280d..35f78cd 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -199,6 +199,9 @@ class ProcedureToSchedule:
         blank_step["m_szLabel"] = str(step_index + 1) + "-" + str(step_abs["StepNote"])
         blank_step["m_szCurrentRange"] = current_range
 
+        if step_abs["StepMode"] is not None and step_abs["StepType"] not in ("Charge", "Dischrge"):
+            raise ValueError("Unable to convert StepType {}".format(step_abs["StepType"]))
+
         # Current control mode with currents measured in Amps
         if step_abs["StepMode"] == "Current" and "C" not in step_abs["StepValue"]:
             if step_abs["Limits"] is not None:
-- 
2.43.0


From 803a644388de1b7a62b16b8a49689f696542270a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:33 +0000
Subject: [PATCH 44/77] fix: converting a loop leaves the source procedure as
 it was

---
 beep/protocol/maccor_to_arbin.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index 35f78cd..d2c2c67 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -309,6 +309,7 @@ class ProcedureToSchedule:
                         ("Value", step_abs["Ends"]["EndEntry"]["Value"]),
                     ]
                 )
+                step_abs = deepcopy(step_abs)
                 step_abs["Ends"]["EndEntry"] = [
                     loop_addendum,
                     step_abs["Ends"]["EndEntry"],
-- 
2.43.0


From a3edd3e0d7b3f078ae96eb8cf7770254317a7d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:52 +0000
Subject: [PATCH 45/77] fix: a loop is matched to its own Do, wherever it is,
 or refused

---
 beep/protocol/maccor_to_arbin.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index d2c2c67..202e45e 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -125,13 +125,16 @@ class ProcedureToSchedule:
             if "Loop" in step["StepType"]:
                 loop_counter = int(re.search(r"\d+", step["StepType"]).group())
                 i = 1
-                while (indx - i) > 1:
+                do_index = None
+                while (indx - i) >= 0:
                     if self.procedure_dict_steps[abs(indx - i)][
                         "StepType"
                     ] == "Do {}".format(loop_counter):
                         do_index = abs(indx - i)
                         break
                     i = i + 1
+                if do_index is None:
+                    raise ValueError("Loop at step {} has no matching Do".format(indx + 1))
                 step_flow_ctrl.update({indx: step_name_list[do_index + 1]})
         return step_name_list, step_flow_ctrl
 
-- 
2.43.0


From 0618016e53a8a7367831a74f328565f1c7389536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:10 +0000
Subject: [PATCH 46/77] fix: a current end condition of a discharge is mirrored
 in both directions

---
 beep/protocol/maccor_to_arbin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index 202e45e..f782dbd 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -461,7 +461,7 @@ class ProcedureToSchedule:
             elif step_type == "Dischrge":
                 limit["Equation0_szRight"] = "-" + end["Value"]
                 limit["Equation0_szCompareSign"] = (
-                    end["Oper"].replace(" ", "").replace("<", ">")
+                    end["Oper"].replace(" ", "").translate(str.maketrans("<>", "><"))
                 )
             else:
                 raise ValueError(
@@ -480,7 +480,7 @@ class ProcedureToSchedule:
             elif step_type == "Dischrge":
                 limit["Equation0_szRight"] = "-" + end["Value"]
                 limit["Equation0_szCompareSign"] = (
-                    end["Oper"].replace(" ", "").replace("<", ">")
+                    end["Oper"].replace(" ", "").translate(str.maketrans("<>", "><"))
                 )
             else:
                 raise ValueError(
-- 
2.43.0


From 1fbd9978b162d7e1133aaf7089767538a5b9ee35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:38 +0000
Subject: [PATCH 47/77] fix: driving waveform settings of one row do not leak
 into later waveforms

---
 beep/protocol/maccor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/maccor.py b/beep/protocol/maccor.py
index 511c3e6..17cd006 100644
--- a/beep/protocol/maccor.py
+++ b/beep/protocol/maccor.py
@@ -1343,7 +1343,7 @@ def insert_driving_parametersv1(reg_params, waveform_directory=None):
             power_scaling (float): Power relative to the other profiles
         waveform_directory (str): path to save waveform files
     """
-    mwf_config = MACCOR_WAVEFORM_CONFIG
+    mwf_config = dict(MACCOR_WAVEFORM_CONFIG)
     velocity_name = reg_params["discharge_profile"] + "_velocity_waveform.txt"
     velocity_file = os.path.join(PROTOCOL_SCHEMA_DIR, velocity_name)
     df = convert_velocity_to_power_waveform(velocity_file, velocity_units="mph")
-- 
2.43.0


From 0a1dcaab6a2c917ef5e78b0f45cca3111da84bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:35 +0000
Subject: [PATCH 48/77] fix: the capacity at a cycle the run does not reach is
 missing, not zero

---
 beep/structure/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 193756f..a8b3bdc 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -1174,7 +1174,8 @@ class BEEPDatapath(abc.ABC, MSONable):
             cycle_interval (int): Intervals for forecasts
 
         Returns:
-            pandas.DataFrame:
+            pandas.DataFrame: capacities by cycle, NaN for cycles the run
+                does not reach.
         """
         discharge_capacities = pd.DataFrame(
             np.zeros((1, int((cycle_max - cycle_min) / cycle_interval)))
@@ -1187,7 +1188,7 @@ class BEEPDatapath(abc.ABC, MSONable):
                     cycle_index
                 ]
             except IndexError:
-                pass
+                discharge_capacities[counter] = np.nan
             counter = counter + 1
         discharge_capacities.columns = np.core.defchararray.add(
             "cycle_", cycle_indices.astype(str)
-- 
2.43.0


From 3ba7108582f51e8d1fb27c6d9be3b8519eee7310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:37 +0000
Subject: [PATCH 49/77] fix: a structuring that fails leaves the run as it was,
 and restructuring leaves no older diagnostic tables

---
 beep/structure/base.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index a8b3bdc..7788bad 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -529,9 +529,10 @@ class BEEPDatapath(abc.ABC, MSONable):
 
         """
 
+        diagnostic_summary, diagnostic_data = None, None
         if self.diagnostic:
-            self.diagnostic_summary = self.summarize_diagnostic()
-            self.diagnostic_data = self.interpolate_diagnostic_cycles(
+            diagnostic_summary = self.summarize_diagnostic()
+            diagnostic_data = self.interpolate_diagnostic_cycles(
                 time_resolution=diagnostic_resolution,
                 voltage_resolution=diagnostic_resolution
             )
@@ -542,7 +543,7 @@ class BEEPDatapath(abc.ABC, MSONable):
             f"Beginning structuring along charge axis '{charge_axis}' and discharge "
             f"axis '{discharge_axis}'."
         )
-        self.structured_data = self.interpolate_cycles(
+        structured_data = self.interpolate_cycles(
             v_range=v_range,
             resolution=resolution,
             charge_axis=charge_axis,
@@ -550,11 +551,17 @@ class BEEPDatapath(abc.ABC, MSONable):
             exclude_cycles=exclude_cycles
         )
 
-        self.structured_summary = self.summarize_cycles(
+        structured_summary = self.summarize_cycles(
             nominal_capacity=nominal_capacity,
             full_fast_charge=full_fast_charge,
         )
 
+        # Only a structuring that succeeded as a whole counts
+        self.structured_data = structured_data
+        self.structured_summary = structured_summary
+        self.diagnostic_data = diagnostic_data
+        self.diagnostic_summary = diagnostic_summary
+
         self.structuring_parameters = {
             "v_range": v_range,
             "resolution": resolution,
-- 
2.43.0


From d60e81c6a72679133a6c5e5a66fa64eaad42a283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:39 +0000
Subject: [PATCH 50/77] fix: a charge that starts at constant voltage has its
 whole segment summarised, not its last row

---
 beep/structure/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 7788bad..690ce50 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -1490,7 +1490,7 @@ def get_CV_segment_from_charge(charge, dt_tol=1, dVdt_tol=1e-5, dIdt_tol=1e-4):
             i = i+1
 
         # Filter for CV phase
-        return charge.loc[charge.test_time >= charge.test_time.iat[i-1]]
+        return charge.loc[charge.test_time >= charge.test_time.iat[max(i - 1, 0)]]
 
 
 def get_CV_time(CV):
-- 
2.43.0


From afe1f0d3b92fd59d26aff5ed7408c5daabe23f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:09 +0000
Subject: [PATCH 51/77] fix: Arbin and Battery Archive clock times are kept in
 double precision, not rounded to 128 s

---
 beep/conversion_schemas/arbin_conversion.yaml | 2 +-
 beep/structure/battery_archive.py             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/beep/conversion_schemas/arbin_conversion.yaml b/beep/conversion_schemas/arbin_conversion.yaml
index 98a7098..889d92b 100644
--- a/beep/conversion_schemas/arbin_conversion.yaml
+++ b/beep/conversion_schemas/arbin_conversion.yaml
@@ -39,7 +39,7 @@ data_columns:
 data_types:
   data_point: 'int32'
   test_time: 'float64'
-  datetime: 'float32'
+  datetime: 'float64'
   step_time: 'float32'
   step_index: 'int16'
   cycle_index: 'int32'
diff --git a/beep/structure/battery_archive.py b/beep/structure/battery_archive.py
index 53999b7..f173a59 100644
--- a/beep/structure/battery_archive.py
+++ b/beep/structure/battery_archive.py
@@ -50,7 +50,7 @@ class BatteryArchiveDatapath(BEEPDatapath):
         "charge_energy": "float64",
         "discharge_energy": "float64",
         "temperature": "float32",
-        "date_time": "float32",
+        "date_time": "float64",
     }
 
     FILE_PATTERN = ".*timeseries\\.csv"
-- 
2.43.0


From e0bc32fa257bd9924747ece394f9863424c2a66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:56 +0000
Subject: [PATCH 52/77] fix: pauses between rows are measured without the
 machine's time zone and its clock changes

---
 beep/structure/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 690ce50..4ce6dd9 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -5,7 +5,7 @@ import os
 import abc
 import json
 import copy
-import time
+import calendar
 
 import pandas as pd
 import numpy as np
@@ -1450,7 +1450,7 @@ def get_max_paused_over_threshold(group, paused_threshold=3600):
     """
     date_time_objs = pd.to_datetime(group["date_time_iso"], format="mixed")
     date_time_float = [
-        time.mktime(t.timetuple()) if t is not pd.NaT else float("nan")
+        calendar.timegm(t.utctimetuple()) if t is not pd.NaT else float("nan")
         for t in date_time_objs
     ]
     date_time_float = pd.Series(date_time_float)
-- 
2.43.0


From fb834da168959cc983ff37b06282fe044ae75944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:56 +0000
Subject: [PATCH 53/77] fix: train_and_score splits with a fixed seed, or the
 caller's, so that it can be repeated

---
 beep/model.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/beep/model.py b/beep/model.py
index 8e2664b..0a08a10 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -376,7 +376,7 @@ class BEEPLinearModelExperiment(MSONable):
         y_pred = pd.DataFrame(data=y_pred, columns=self.targets, index=X_indices)
         return y_pred, dropped
 
-    def train_and_score(self, train_and_val_frac=0.8):
+    def train_and_score(self, train_and_val_frac=0.8, random_state=0):
         """Train and adjust hyperparameters on a subset of data, then predict
         on a test set and obtain scores automatically.
 
@@ -384,6 +384,8 @@ class BEEPLinearModelExperiment(MSONable):
             train_and_val_frac (float): The fraction to train and validate
                 on during hyperparameter optimization. 1 minus this fraction
                 is the size of the test data that will be scored and returned.
+            random_state (int): Seed of the random split, fixed by default so
+                that repeated runs give the same model and scores.
 
         Returns:
             model (BaseEstimator): The sklearn model, trained on train_and_val_frac
@@ -393,7 +395,12 @@ class BEEPLinearModelExperiment(MSONable):
             test_errors (dict): Metrics of test errors found after training by
                 predicting on the test set of the data.
         """
-        X_train, X_test, y_train, y_test = train_test_split(self.X, self.y, train_size=train_and_val_frac)
+        X_train, X_test, y_train, y_test = train_test_split(
+            self.X,
+            self.y,
+            train_size=train_and_val_frac,
+            random_state=random_state
+        )
         model, training_errors = self.train(X=X_train, y=y_train)
 
         # Features here are already homogenized
-- 
2.43.0


From aa4a3cb79dcb88ffcba44045b8b98875c4ad7f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:56 +0000
Subject: [PATCH 54/77] fix: Maccor EIS files found next to a run load in name
 order, not directory order

---
 beep/structure/maccor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/maccor.py b/beep/structure/maccor.py
index 3be3b3a..b3ea136 100644
--- a/beep/structure/maccor.py
+++ b/beep/structure/maccor.py
@@ -184,7 +184,7 @@ class MaccorDatapath(BEEPDatapathWithEIS):
             # todo: replace with logging
             print(f"Looking in directory {self.paths['raw']} for EIS runs, as no paths specified to `load_eis`.")
             eis_pattern = ".*.".join(self.paths["raw"].rsplit(".", 1))
-            paths = glob(eis_pattern)
+            paths = sorted(glob(eis_pattern))
 
         eis_runs = []
         for path in tqdm(paths, desc="Loading EIS files..."):
-- 
2.43.0


From 1013d0f0f538d91af6ad7c67985c5e12b47759e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:07 +0000
Subject: [PATCH 55/77] fix: step times of a day or more keep their hours in
 generated Maccor procedures

---
 beep/protocol/maccor.py | 77 +++++++++++++++++------------------------
 1 file changed, 31 insertions(+), 46 deletions(-)

diff --git a/beep/protocol/maccor.py b/beep/protocol/maccor.py
index 17cd006..0050cda 100644
--- a/beep/protocol/maccor.py
+++ b/beep/protocol/maccor.py
@@ -17,7 +17,6 @@ input parameters and procedure templates
 """
 
 import os
-import time
 from copy import deepcopy
 
 import numpy as np
@@ -29,6 +28,22 @@ from beep.utils import DashOrderedDict
 from beep.utils.waveform import convert_velocity_to_power_waveform, RapidChargeWave
 
 
+def format_step_time(seconds):
+    """
+    Formats a duration as a Maccor step time, in which the hours may exceed 24.
+
+    Args:
+        seconds (float): duration in seconds
+
+    Returns:
+        str: duration in the form HH:MM:SS
+
+    """
+    minutes, seconds = divmod(int(seconds), 60)
+    hours, minutes = divmod(minutes, 60)
+    return "{:02d}:{:02d}:{:02d}".format(hours, minutes, seconds)
+
+
 class Procedure(DashOrderedDict):
     """
     Procedure file object. Provides factory methods
@@ -392,9 +407,7 @@ class Procedure(DashOrderedDict):
                 / reg_param["charge_constant_current_1"]
             )
         )
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         # Regular cycle constant current charge part 2
         step_idx = charge_idx + 1
@@ -418,18 +431,14 @@ class Procedure(DashOrderedDict):
         steps[step_idx]["StepValue"] = reg_param["charge_cutoff_voltage"]
         assert steps[step_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * reg_param["charge_constant_voltage_time"]))
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         # Regular cycle rest at top of charge
         step_idx = charge_idx + 3
         assert steps[step_idx]["StepType"] == "Rest"
         assert steps[step_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * reg_param["charge_rest_time"]))
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         return self
 
@@ -466,9 +475,7 @@ class Procedure(DashOrderedDict):
         assert steps[step_idx]["StepType"] == "Rest"
         assert steps[step_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * reg_param["discharge_rest_time"]))
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         # Regular cycle number of times to repeat regular cycle for initial offset and main body
         step_idx = discharge_idx + 3
@@ -521,9 +528,7 @@ class Procedure(DashOrderedDict):
         )
         assert steps[step_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * 12))
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         return self
 
@@ -814,9 +819,7 @@ class Procedure(DashOrderedDict):
         assert steps[rest_idx]["StepType"] == "Rest"
         assert steps[rest_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(3 * 3600 + offset_seconds * (index % 96)))
-        steps[rest_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[rest_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         return self
 
@@ -851,9 +854,7 @@ class Procedure(DashOrderedDict):
                 / reg_param["charge_constant_current_1"]
             )
         )
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
         assert steps[step_idx]["Ends"]["EndEntry"][1]["Value"] != 4.4
         steps[step_idx]["Ends"]["EndEntry"][1]["Value"] = float(
             round(reg_param["charge_cutoff_voltage"], 3)
@@ -881,18 +882,14 @@ class Procedure(DashOrderedDict):
         steps[step_idx]["StepValue"] = reg_param["charge_cutoff_voltage"]
         assert steps[step_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * reg_param["charge_constant_voltage_time"]))
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         # Regular cycle rest at top of charge
         step_idx = charge_idx + 3
         assert steps[step_idx]["StepType"] == "Rest"
         assert steps[step_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * reg_param["charge_rest_time"]))
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         return self
 
@@ -932,9 +929,7 @@ class Procedure(DashOrderedDict):
         )
         assert steps[step_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * 12))
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         return self
 
@@ -1101,9 +1096,7 @@ class Procedure(DashOrderedDict):
         assert steps[start + 2]["StepType"] == "Rest"
         assert steps[start + 2]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * diagnostic_params["HPPC_rest_time"]))
-        steps[start + 2]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(float(time_s))
-        )
+        steps[start + 2]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         # Discharge step 1 for hppc cycle
         assert steps[start + 3]["StepType"] == "Dischrge"
@@ -1113,9 +1106,7 @@ class Procedure(DashOrderedDict):
         )
         assert steps[start + 3]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = diagnostic_params["HPPC_pulse_duration_1"]
-        steps[start + 3]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(float(time_s))
-        )
+        steps[start + 3]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
         assert steps[start + 3]["Ends"]["EndEntry"][1]["EndType"] == "Voltage"
         steps[start + 3]["Ends"]["EndEntry"][1]["Value"] = float(
             round(diagnostic_params["diagnostic_discharge_cutoff_voltage"], 3)
@@ -1125,9 +1116,7 @@ class Procedure(DashOrderedDict):
         assert steps[start + 4]["StepType"] == "Rest"
         assert steps[start + 4]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(diagnostic_params["HPPC_pulse_rest_time"]))
-        steps[start + 4]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[start + 4]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         # Charge step 1 for hppc cycle
         assert steps[start + 5]["StepType"] == "Charge"
@@ -1137,9 +1126,7 @@ class Procedure(DashOrderedDict):
         )
         assert steps[start + 5]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = diagnostic_params["HPPC_pulse_duration_2"]
-        steps[start + 5]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(float(time_s))
-        )
+        steps[start + 5]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
         assert steps[start + 5]["Ends"]["EndEntry"][1]["EndType"] == "Voltage"
         steps[start + 5]["Ends"]["EndEntry"][1]["Value"] = float(
             round(diagnostic_params["HPPC_pulse_cutoff_voltage"], 3)
@@ -1163,9 +1150,7 @@ class Procedure(DashOrderedDict):
                 - 1
             )
         )
-        steps[start + 6]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(float(time_s))
-        )
+        steps[start + 6]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
         assert steps[start + 6]["Ends"]["EndEntry"][1]["EndType"] == "Voltage"
         steps[start + 6]["Ends"]["EndEntry"][1]["Value"] = float(
             round(diagnostic_params["diagnostic_discharge_cutoff_voltage"], 3)
-- 
2.43.0


From ca395152b22a532286f37584086af8800add20c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:07 +0000
Subject: [PATCH 56/77] fix: the charge cutoff voltage is only written to an
 end condition on voltage

---
 beep/protocol/maccor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beep/protocol/maccor.py b/beep/protocol/maccor.py
index 0050cda..c255cab 100644
--- a/beep/protocol/maccor.py
+++ b/beep/protocol/maccor.py
@@ -855,6 +855,7 @@ class Procedure(DashOrderedDict):
             )
         )
         steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
+        assert steps[step_idx]["Ends"]["EndEntry"][1]["EndType"] == "Voltage"
         assert steps[step_idx]["Ends"]["EndEntry"][1]["Value"] != 4.4
         steps[step_idx]["Ends"]["EndEntry"][1]["Value"] = float(
             round(reg_param["charge_cutoff_voltage"], 3)
-- 
2.43.0


From 0ace6e6047b02c1c8ac272b2b023a3203fa76c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:07 +0000
Subject: [PATCH 57/77] fix: a regular cycle that ends in an unexpected loop is
 refused instead of keeping the template's repeat count

---
 beep/protocol/maccor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beep/protocol/maccor.py b/beep/protocol/maccor.py
index c255cab..0fc3c41 100644
--- a/beep/protocol/maccor.py
+++ b/beep/protocol/maccor.py
@@ -490,6 +490,10 @@ class Procedure(DashOrderedDict):
             steps[step_idx]["Ends"]["EndEntry"]["Value"] = reg_param[
                 "diagnostic_interval"
             ]
+        else:
+            raise ValueError(
+                "No repeat count for {} at step {}".format(steps[step_idx]["StepType"], step_idx)
+            )
 
         return self
 
-- 
2.43.0


From f22877305e6dd7c1ba50896017707c2ff6708ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:47 +0000
Subject: [PATCH 58/77] fix: the formation protocol refuses a template whose
 step has another direction, or is no rest

---
 beep/protocol/biologic.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/beep/protocol/biologic.py b/beep/protocol/biologic.py
index 83f545f..0bcf2fe 100644
--- a/beep/protocol/biologic.py
+++ b/beep/protocol/biologic.py
@@ -193,6 +193,7 @@ class Settings(DashOrderedDict):
 
         # Initial charge
         assert self.get_path("Technique.1.Step.2.ctrl_type") == "CC"
+        assert self.get_path("Technique.1.Step.2.charge/discharge") == "Charge"
         assert self.get_path("Technique.1.Step.2.ctrl1_val_unit") == "A"
         value = float(round(params["initial_charge_current_1"] * params['capacity_nominal'], 3))
         self.set("Technique.1.Step.2.ctrl1_val", value)
@@ -202,6 +203,7 @@ class Settings(DashOrderedDict):
         value = float(round(params["initial_charge_voltage_1"], 3))
         self.set("Technique.1.Step.2.lim1_value", value)
         assert self.get_path("Technique.1.Step.3.ctrl_type") == "CV"
+        assert self.get_path("Technique.1.Step.3.charge/discharge") == "Charge"
         assert self.get_path("Technique.1.Step.3.ctrl1_val_unit") == "V"
         self.set("Technique.1.Step.3.ctrl1_val", value)
 
@@ -210,12 +212,14 @@ class Settings(DashOrderedDict):
         value = float(round(params["initial_charge_cvhold_1"], 3))
         self.set("Technique.1.Step.3.lim1_value", value)
 
+        assert self.get_path("Technique.1.Step.4.ctrl_type") == "Rest"
         assert self.get_path("Technique.1.Step.4.lim1_type") == "Time"
         assert self.get_path("Technique.1.Step.4.lim1_value_unit") == "mn"
         value = float(round(params["initial_charge_rest_1"], 3))
         self.set("Technique.1.Step.4.lim1_value", value)
 
         assert self.get_path("Technique.1.Step.5.ctrl_type") == "CC"
+        assert self.get_path("Technique.1.Step.5.charge/discharge") == "Charge"
         assert self.get_path("Technique.1.Step.5.ctrl1_val_unit") == "A"
         value = float(round(params["initial_charge_current_2"] * params['capacity_nominal'], 3))
         self.set("Technique.1.Step.5.ctrl1_val", value)
@@ -225,6 +229,7 @@ class Settings(DashOrderedDict):
         value = float(round(params["initial_charge_voltage_2"], 3))
         self.set("Technique.1.Step.5.lim1_value", value)
         assert self.get_path("Technique.1.Step.6.ctrl_type") == "CV"
+        assert self.get_path("Technique.1.Step.6.charge/discharge") == "Charge"
         assert self.get_path("Technique.1.Step.6.ctrl1_val_unit") == "V"
         self.set("Technique.1.Step.6.ctrl1_val", value)
 
@@ -233,6 +238,7 @@ class Settings(DashOrderedDict):
         value = float(round(params["initial_charge_cvhold_2"], 3))
         self.set("Technique.1.Step.6.lim1_value", value)
 
+        assert self.get_path("Technique.1.Step.7.ctrl_type") == "Rest"
         assert self.get_path("Technique.1.Step.7.lim1_type") == "Time"
         assert self.get_path("Technique.1.Step.7.lim1_value_unit") == "mn"
         value = float(round(params["initial_charge_rest_2"], 3))
@@ -240,6 +246,7 @@ class Settings(DashOrderedDict):
 
         # Initial discharge
         assert self.get_path("Technique.1.Step.8.ctrl_type") == "CC"
+        assert self.get_path("Technique.1.Step.8.charge/discharge") == "Discharge"
         assert self.get_path("Technique.1.Step.8.ctrl1_val_unit") == "A"
         value = float(round(params["initial_discharge_current_1"] * params['capacity_nominal'], 3))
         self.set("Technique.1.Step.8.ctrl1_val", value)
@@ -251,6 +258,7 @@ class Settings(DashOrderedDict):
 
         # Mid cycle
         assert self.get_path("Technique.1.Step.9.ctrl_type") == "CC"
+        assert self.get_path("Technique.1.Step.9.charge/discharge") == "Charge"
         assert self.get_path("Technique.1.Step.9.ctrl1_val_unit") == "A"
         value = float(round(params["mid_charge_current_1"] * params['capacity_nominal'], 3))
         self.set("Technique.1.Step.9.ctrl1_val", value)
@@ -261,6 +269,7 @@ class Settings(DashOrderedDict):
         self.set("Technique.1.Step.9.lim1_value", value)
 
         assert self.get_path("Technique.1.Step.10.ctrl_type") == "CC"
+        assert self.get_path("Technique.1.Step.10.charge/discharge") == "Discharge"
         assert self.get_path("Technique.1.Step.10.ctrl1_val_unit") == "A"
         value = float(round(params["mid_discharge_current_1"] * params['capacity_nominal'], 3))
         self.set("Technique.1.Step.10.ctrl1_val", value)
@@ -277,6 +286,7 @@ class Settings(DashOrderedDict):
 
         # Final cycle
         assert self.get_path("Technique.1.Step.12.ctrl_type") == "CC"
+        assert self.get_path("Technique.1.Step.12.charge/discharge") == "Charge"
         assert self.get_path("Technique.1.Step.12.ctrl1_val_unit") == "A"
         value = float(round(params["final_charge_current_1"] * params['capacity_nominal'], 3))
         self.set("Technique.1.Step.12.ctrl1_val", value)
@@ -287,6 +297,7 @@ class Settings(DashOrderedDict):
         self.set("Technique.1.Step.12.lim1_value", value)
 
         assert self.get_path("Technique.1.Step.13.ctrl_type") == "CC"
+        assert self.get_path("Technique.1.Step.13.charge/discharge") == "Discharge"
         assert self.get_path("Technique.1.Step.13.ctrl1_val_unit") == "A"
         value = float(round(params["final_discharge_current_1"] * params['capacity_nominal'], 3))
         self.set("Technique.1.Step.13.ctrl1_val", value)
@@ -296,6 +307,7 @@ class Settings(DashOrderedDict):
         value = float(round(params["final_discharge_voltage_1"], 3))
         self.set("Technique.1.Step.13.lim1_value", value)
         assert self.get_path("Technique.1.Step.14.ctrl_type") == "CV"
+        assert self.get_path("Technique.1.Step.14.charge/discharge") == "Discharge"
         assert self.get_path("Technique.1.Step.14.ctrl1_val_unit") == "V"
         self.set("Technique.1.Step.14.ctrl1_val", value)
         assert self.get_path("Technique.1.Step.14.lim1_type") == "Time"
-- 
2.43.0


From 73fa96eefc2bc8ff71d60e121496c0ab310a3c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:14 +0000
Subject: [PATCH 59/77] fix: a schedule template without the labelled steps or
 limits is refused instead of left as it is

---
 beep/protocol/arbin.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/beep/protocol/arbin.py b/beep/protocol/arbin.py
index 3544b83..42f3cb3 100644
--- a/beep/protocol/arbin.py
+++ b/beep/protocol/arbin.py
@@ -125,6 +125,9 @@ class Schedule(DashOrderedDict):
 
         """
         obj = cls.from_file(template_filename)
+        for label in ("CC1", "CC2"):
+            for step in obj.get_labelled_steps(label):
+                assert obj.get_path("Schedule.{}.m_szStepCtrlType".format(step)) == "CCCV"
 
         obj.set_labelled_steps(
             "CC1", "m_szCtrlValue", step_value="{0:.3f}".format(CC1).rstrip("0")
@@ -179,7 +182,9 @@ class Schedule(DashOrderedDict):
                 options or control variables.
         """
         # Find all step labels
-        labelled_steps = self.get_labelled_steps(step_label)
+        labelled_steps = list(self.get_labelled_steps(step_label))
+        if not labelled_steps:
+            raise ValueError("No step labelled {}".format(step_label))
 
         # TODO: should update happen in place or return new?
         for step in labelled_steps:
@@ -207,6 +212,7 @@ class Schedule(DashOrderedDict):
                 variables.
         """
         labelled_steps = self.get_labelled_steps(step_label)
+        limit_is_set = False
         for step in labelled_steps:
             # Get all matching limit keys
             step_data = self.get_path("Schedule.{}".format(step))
@@ -226,10 +232,13 @@ class Schedule(DashOrderedDict):
                             comparator,
                         )
                         self.set("{}.Equation0_szRight".format(limit_prefix), value)
+                        limit_is_set = True
                     else:
                         warnings.warn(
                             "Additional step limit at {}.{}".format(step, limit)
                         )
+        if not limit_is_set:
+            raise ValueError("No limit of {} in a step labelled {}".format(limit_var, step_label))
         return self
 
 
-- 
2.43.0


From 951c61cefd465b470744f8bfbbe6acfc3ba6406c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:03 +0000
Subject: [PATCH 60/77] fix: driving procedures take the rest time and repeat
 counts of their parameters, not the template's

---
 beep/protocol/maccor.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/beep/protocol/maccor.py b/beep/protocol/maccor.py
index 0fc3c41..779817a 100644
--- a/beep/protocol/maccor.py
+++ b/beep/protocol/maccor.py
@@ -470,6 +470,24 @@ class Procedure(DashOrderedDict):
             round(reg_param["discharge_cutoff_voltage"], 3)
         )
 
+        self.insert_discharge_rest_regcyclev2(discharge_idx, reg_param)
+
+        return self
+
+    def insert_discharge_rest_regcyclev2(self, discharge_idx, reg_param):
+        """
+        Inserts the rest after discharge and the number of repeats of the
+        regular cycle into procedure dictionary for the discharge at given id.
+
+        Args:
+            discharge_idx (int):
+            reg_param (pandas.DataFrame):
+
+        Returns:
+            dict:
+        """
+        steps = self["MaccorTestProcedure"]["ProcSteps"]["TestStep"]
+
         # Regular cycle rest after discharge
         step_idx = discharge_idx + 1
         assert steps[step_idx]["StepType"] == "Rest"
@@ -671,12 +689,14 @@ class Procedure(DashOrderedDict):
         obj.insert_charge_regcyclev3(reg_charge_idx, reg_param)
         reg_discharge_idx = 27 + 5
         obj.insert_maccor_waveform(reg_discharge_idx, waveform_name)
+        obj.insert_discharge_rest_regcyclev2(reg_discharge_idx, reg_param)
 
         # Start of main loop of regular cycles
         reg_charge_idx = 59 + 1
         obj.insert_charge_regcyclev3(reg_charge_idx, reg_param)
         reg_discharge_idx = 59 + 5
         obj.insert_maccor_waveform(reg_discharge_idx, waveform_name)
+        obj.insert_discharge_rest_regcyclev2(reg_discharge_idx, reg_param)
 
         # Storage cycle
         reg_storage_idx = 93
-- 
2.43.0


From 0f35e5cd70117100f015016f4aac5ff5f4ab5d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:39 +0000
Subject: [PATCH 61/77] fix: a regular cycling protocol is generated from the
 template its row names, not always diagnosticV2

---
 beep/protocol/generate_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/generate_protocol.py b/beep/protocol/generate_protocol.py
index 79142e4..7c30f08 100644
--- a/beep/protocol/generate_protocol.py
+++ b/beep/protocol/generate_protocol.py
@@ -142,7 +142,7 @@ def generate_protocol_files_from_csv(csv_filename, output_directory=None):
                     **protocol_params[["cutoff_voltage", "charge_rate", "discharge_rate"]]
                 )
             elif template_length == 72:  # length for V1 and V1 diagnostic templates without ending diagnostics
-                protocol = Procedure.from_regcyclev2(protocol_params)
+                protocol = Procedure.from_regcyclev2(protocol_params, template=template_fullpath)
                 protocol.add_procedure_diagcyclev2(
                     protocol_params["capacity_nominal"], diagnostic_params
                 )
-- 
2.43.0


From 9e94faf622d4ea17206a4a725f2d6e1d31fef61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:44 +0000
Subject: [PATCH 62/77] fix: converting a Maccor step time end with a
 comparator other than = to Arbin is refused

---
 beep/protocol/maccor_to_arbin.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index f782dbd..764a45c 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -489,6 +489,8 @@ class ProcedureToSchedule:
                     )
                 )
         elif end["EndType"] == "StepTime":
+            if end["Oper"].replace(" ", "") != "=":
+                raise ValueError("Unable to convert StepTime end with Oper {}".format(end["Oper"]))
             limit["Equation0_szLeft"] = "PV_CHAN_Step_Time"
             limit["Equation0_szCompareSign"] = ">"
             if "." in end["Value"]:
-- 
2.43.0


From f4ed3f175bd7f70a8ec5bcdb6d804ca5d94221ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:46 +0000
Subject: [PATCH 63/77] fix: converting a Maccor step with limits its Arbin
 counterpart cannot hold is refused

---
 beep/protocol/maccor_to_arbin.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index 764a45c..f0cde51 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -204,6 +204,10 @@ class ProcedureToSchedule:
 
         if step_abs["StepMode"] is not None and step_abs["StepType"] not in ("Charge", "Dischrge"):
             raise ValueError("Unable to convert StepType {}".format(step_abs["StepType"]))
+        if step_abs["Limits"] is not None:
+            supported_limits = {"Current": ["Voltage"], "Voltage": ["Current"]}.get(step_abs["StepMode"])
+            if list(step_abs["Limits"]) != supported_limits:
+                raise ValueError("Unable to convert Limits {}".format(list(step_abs["Limits"])))
 
         # Current control mode with currents measured in Amps
         if step_abs["StepMode"] == "Current" and "C" not in step_abs["StepValue"]:
-- 
2.43.0


From 43fec12c139ecae6487f0c9d42ba373fdebc1954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:18 +0000
Subject: [PATCH 64/77] fix: converting a Maccor loop that ends on anything but
 its count to Arbin is refused

---
 beep/protocol/maccor_to_arbin.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index f0cde51..9261fc2 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -306,6 +306,12 @@ class ProcedureToSchedule:
                 blank_step["m_szCtrlValue"] = "0"
                 blank_step["m_szExtCtrlValue1"] = str(2 ** loop_counter)
                 blank_step["m_szExtCtrlValue2"] = "0"
+                if step_abs["Ends"]["EndEntry"]["EndType"] != "Loop Cnt":
+                    raise ValueError(
+                        "Unable to convert end of type {} for {}".format(
+                            step_abs["Ends"]["EndEntry"]["EndType"], step_abs["StepType"]
+                        )
+                    )
                 # TODO: is this necessary post 3.7?
                 # assert isinstance(step_abs["Ends"]["EndEntry"], OrderedDict)
                 loop_addendum = OrderedDict(
-- 
2.43.0


From 5cf0d85eb99091ed972c1c45b27ed0a0f8708724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:54 +0000
Subject: [PATCH 65/77] fix: converting a Maccor step with limits Biologic
 cannot hold is refused

---
 beep/protocol/maccor_to_biologic_mb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/maccor_to_biologic_mb.py b/beep/protocol/maccor_to_biologic_mb.py
index e68c2b1..c6b0f16 100644
--- a/beep/protocol/maccor_to_biologic_mb.py
+++ b/beep/protocol/maccor_to_biologic_mb.py
@@ -883,7 +883,7 @@ class MaccorToBiologicMb:
             acceptable_limit = "Voltage" if step_mode == "Current" else "Current"
 
             lim = get(limits, acceptable_limit)
-            if not isinstance(lim, str):
+            if not isinstance(lim, str) or len(limits) != 1:
                 raise Exception(
                     "Only supported Limit for StepMode {} is a single {} Limit, check step {}".format(
                         step_mode, acceptable_limit, step_num
-- 
2.43.0


From ce6504cae0ede5de56ed4ae4f8cf876fc1433a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:55 +0000
Subject: [PATCH 66/77] fix: the current limit of a Maccor voltage step is
 converted to an upper bound when discharging too

---
 beep/protocol/maccor_to_biologic_mb.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/beep/protocol/maccor_to_biologic_mb.py b/beep/protocol/maccor_to_biologic_mb.py
index c6b0f16..5f57858 100644
--- a/beep/protocol/maccor_to_biologic_mb.py
+++ b/beep/protocol/maccor_to_biologic_mb.py
@@ -903,7 +903,10 @@ class MaccorToBiologicMb:
                     filtered_end_entries.append(end_entry)
 
             oper = ""
-            if step_type == "Charge":
+            if acceptable_limit == "Current" and step_type in ["Charge", "Dischrge"]:
+                # currents are compared by magnitude in both directions
+                oper = ">="
+            elif step_type == "Charge":
                 oper = ">="
             elif step_type == "Dischrge":  # sic
                 oper = "<="
-- 
2.43.0


From f498160174699e06e688f8d2b62f1f06b6739ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:58 +0000
Subject: [PATCH 67/77] fix: Maccor times keep their fractions when converted
 to Biologic instead of being truncated

---
 beep/protocol/maccor_to_biologic_mb.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/beep/protocol/maccor_to_biologic_mb.py b/beep/protocol/maccor_to_biologic_mb.py
index 5f57858..87cac3b 100644
--- a/beep/protocol/maccor_to_biologic_mb.py
+++ b/beep/protocol/maccor_to_biologic_mb.py
@@ -168,17 +168,17 @@ class MaccorToBiologicMb:
         secs = 0.0 if sec_str == "" else float(sec_str)
 
         if mins == 0.0 and secs == 0.0:
-            return "{:.3f}".format(int(hours)), "h"
+            return "{:.3f}".format(hours), "h"
 
         if secs == 0.0:
-            total_time_min = int(hours * 60 + mins)
+            total_time_min = hours * 60 + mins
             return "{:.3f}".format(total_time_min), "mn"
 
         if secs % 1.0 == 0.0:
-            total_time_sec = int(hours * 60 * 60 + mins * 60 + secs)
+            total_time_sec = hours * 60 * 60 + mins * 60 + secs
             return "{:.3f}".format(total_time_sec), "s"
 
-        total_time_ms = int(hours * 60 * 60 * 1000 + mins * 60 * 1000 + secs * 1000)
+        total_time_ms = hours * 60 * 60 * 1000 + mins * 60 * 1000 + secs * 1000
 
         biologic_max_time_num = 1e10  # taken from biologic ec-lab software
         if total_time_ms < biologic_max_time_num:
-- 
2.43.0


From 6b0869014b3568bba7cde32851757d13c0fac100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:00 +0000
Subject: [PATCH 68/77] fix: converting a Maccor loop that ends on anything but
 its count to Biologic is refused

---
 beep/protocol/maccor_to_biologic_mb.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/beep/protocol/maccor_to_biologic_mb.py b/beep/protocol/maccor_to_biologic_mb.py
index 87cac3b..57a14ea 100644
--- a/beep/protocol/maccor_to_biologic_mb.py
+++ b/beep/protocol/maccor_to_biologic_mb.py
@@ -622,7 +622,7 @@ class MaccorToBiologicMb:
                 # gather data around looped tech
                 curr_tech_start = i + 1
                 tech_ranges.append((curr_loop_1_start, curr_tech_start))
-                num_loops = int(get(step, "Ends.EndEntry.Value"))
+                num_loops = self._get_loop_count(step, i + 1)
                 tech_loops_by_start_step_num[curr_loop_1_start] = num_loops
 
                 in_loop_tech = False
@@ -667,6 +667,24 @@ class MaccorToBiologicMb:
 
         return tech_partitions
 
+    """
+    returns the number of loops of a Maccor loop step, which Biologic can only
+    represent as a count after which the next step follows
+
+    accepts
+        - step: OrderedDict
+        - step_num: int
+
+    returns
+        - int
+    """
+
+    def _get_loop_count(self, step, step_num):
+        end_type = get(step, "Ends.EndEntry.EndType")
+        if end_type != "Loop Cnt" or int(get(step, "Ends.EndEntry.Step")) != step_num + 1:
+            raise Exception("Unsupported loop end at step {}".format(step_num), end_type)
+        return int(get(step, "Ends.EndEntry.Value"))
+
     """
     Utility for creating step mappers that filter out one or more unwanted EndEntry
 
@@ -1018,7 +1036,7 @@ class MaccorToBiologicMb:
                 seq_num = seq_nums_by_step_num[step_num][0]
                 num_loops = max(
                     # the way maccor and biologic count loops varies by 1
-                    int(get(step, "Ends.EndEntry.Value")) - 1,
+                    self._get_loop_count(step, step_num) - 1,
                     0,
                 )
                 seq_num_to_loop_to = seq_nums_by_step_num[prev_loop_open_step_num][0]
-- 
2.43.0


From dad43cd3532fee0486bd656f2cfb0861132cac18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:12 +0000
Subject: [PATCH 69/77] fix: converting a Biologic current step relative to
 another current to Maccor is refused

---
 beep/protocol/biologic_mb_to_maccor.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/beep/protocol/biologic_mb_to_maccor.py b/beep/protocol/biologic_mb_to_maccor.py
index 028cdf0..783758e 100644
--- a/beep/protocol/biologic_mb_to_maccor.py
+++ b/beep/protocol/biologic_mb_to_maccor.py
@@ -321,7 +321,13 @@ class BiologicMbToMaccorProcedure:
             "Charge " if charge_or_discharge == " Charge " else "Dischrge "
         )
 
-        if seq_type == "CC":
+        if seq_type == "CC" and seq_val_vs not in ("", "<None>"):
+            raise Exception(
+                "Unsupported constant current type, ctrl1_val_vs: {} at seq {}".format(
+                    seq_val_vs, seq_num
+                )
+            )
+        elif seq_type == "CC":
             step["StepMode"] = "Current "
             step["StepType"] = maccor_charge_or_discharge
             step["StepValue"] = cls._convert_current(
-- 
2.43.0


From 5b58ecbd9b578a0c992cb2cf8bd2bcc720d02cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:33 +0000
Subject: [PATCH 70/77] fix: user-set voltage and current ranges reach the
 sequences of a converted Biologic protocol under the keys that are written

---
 beep/protocol/maccor_to_biologic_mb.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/beep/protocol/maccor_to_biologic_mb.py b/beep/protocol/maccor_to_biologic_mb.py
index 57a14ea..eddf857 100644
--- a/beep/protocol/maccor_to_biologic_mb.py
+++ b/beep/protocol/maccor_to_biologic_mb.py
@@ -817,7 +817,7 @@ class MaccorToBiologicMb:
             return seq
 
         mapped_seq = copy.deepcopy(seq)
-        mapped_seq["I Range Max"] = "{:.3f}".format(self.max_current_a)
+        mapped_seq["I Range max"] = "{:.3f}".format(self.max_current_a)
         return mapped_seq
 
     def _apply_min_current_to_seq(self, technique_num, seq, i):
@@ -825,7 +825,7 @@ class MaccorToBiologicMb:
             return seq
 
         mapped_seq = copy.deepcopy(seq)
-        mapped_seq["I Range Min"] = "{:.3f}".format(self.min_current_a)
+        mapped_seq["I Range min"] = "{:.3f}".format(self.min_current_a)
         return mapped_seq
 
     def _apply_max_voltage_to_seq(self, technique_num, seq, i):
@@ -833,7 +833,7 @@ class MaccorToBiologicMb:
             return seq
 
         mapped_seq = copy.deepcopy(seq)
-        mapped_seq["E Range Max (V)"] = "{:.3f}".format(self.max_voltage_v)
+        mapped_seq["E range max (V)"] = "{:.3f}".format(self.max_voltage_v)
         return mapped_seq
 
     def _apply_min_voltage_to_seq(self, technique_num, seq, i):
@@ -841,7 +841,7 @@ class MaccorToBiologicMb:
             return seq
 
         mapped_seq = copy.deepcopy(seq)
-        mapped_seq["E Range Min (V)"] = "{:.3f}".format(self.min_voltage_v)
+        mapped_seq["E range min (V)"] = "{:.3f}".format(self.min_voltage_v)
         return mapped_seq
 
     """
-- 
2.43.0


From 8ff240043b331e735196c25794c8c2a3835aab09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:40 +0000
Subject: [PATCH 71/77] fix: an unfinished first step of a cycle does not carry
 the previous cycle's total

---
 beep/structure/maccor.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/beep/structure/maccor.py b/beep/structure/maccor.py
index b3ea136..a5332ec 100644
--- a/beep/structure/maccor.py
+++ b/beep/structure/maccor.py
@@ -264,6 +264,13 @@ class MaccorDatapath(BEEPDatapathWithEIS):
         # Update any dangling step without an end
         last_index = quantity_agg.index[-1]
         if end_step_inds[-1] < last_index:
+            # The dangling step may be the first of a new cycle
+            if (
+                data.loc[begin_step_ind - 1, "cycle_index"]
+                != data.loc[begin_step_ind, "cycle_index"]
+            ):
+                cycle_sum = 0.0
+
             quantity_agg[begin_step_ind:] += cycle_sum
         return quantity_agg
 
-- 
2.43.0


From 1f0aeec8a20879b206d6737cc14ee95e82546dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:40 +0000
Subject: [PATCH 72/77] fix: diffusion features read the protocols of the
 parameters directory given

---
 beep/features/core.py               | 3 ++-
 beep/features/featurizer_helpers.py | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index 77ab527..36d2871 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -57,7 +57,8 @@ class HPPCResistanceVoltageFeatures(BEEPFeaturizer):
 
         # diffusion features
         diffusion_features = featurizer_helpers.get_diffusion_features(
-            datapath, self.hyperparameters["diag_pos"]
+            datapath, self.hyperparameters["diag_pos"],
+            parameters_path=self.hyperparameters["parameters_path"]
         )
 
         hppc_r = pd.DataFrame()
diff --git a/beep/features/featurizer_helpers.py b/beep/features/featurizer_helpers.py
index 257d1c6..98be958 100644
--- a/beep/features/featurizer_helpers.py
+++ b/beep/features/featurizer_helpers.py
@@ -391,7 +391,7 @@ def get_diffusion_coeff(processed_cycler_run, diag_pos, parameters_path=PROTOCOL
     return result
 
 
-def get_diffusion_features(processed_cycler_run, diag_pos):
+def get_diffusion_features(processed_cycler_run, diag_pos, parameters_path=PROTOCOL_PARAMETERS_DIR):
     """
     This method calculates changes in diffusion coefficient between a specified hppc cycle and the first one at
     different state of charge.
@@ -405,8 +405,8 @@ def get_diffusion_features(processed_cycler_run, diag_pos):
         a dataframe contains 8 normalized slope changes.
 
     """
-    df_0 = get_diffusion_coeff(processed_cycler_run, 0)
-    df = get_diffusion_coeff(processed_cycler_run, diag_pos)
+    df_0 = get_diffusion_coeff(processed_cycler_run, 0, parameters_path=parameters_path)
+    df = get_diffusion_coeff(processed_cycler_run, diag_pos, parameters_path=parameters_path)
     result = (df - df_0)/(df_0)
     return result
 
-- 
2.43.0


From 4762762fbf127b255fdc76b1eba87210c25bbfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:40 +0000
Subject: [PATCH 73/77] fix: discharging energy features come from discharging

---
 beep/features/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index 36d2871..3710f4c 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -193,9 +193,9 @@ class CycleSummaryStats(BEEPFeaturizer):
 
         # # Discharging Energy features
         Ed100_1 = cycle_comp_1[
-            cycle_comp_1.step_type == "charge"].discharge_energy
+            cycle_comp_1.step_type == "discharge"].discharge_energy
         Ed10_1 = cycle_comp_0[
-            cycle_comp_0.step_type == "charge"].discharge_energy
+            cycle_comp_0.step_type == "discharge"].discharge_energy
         EdDiff = Ed100_1.values - Ed10_1.values
         EdDiff = EdDiff[~np.isnan(EdDiff)]
 
-- 
2.43.0


From e71695098fb3b80bf331edf9eb25c9cde0421df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:40 +0000
Subject: [PATCH 74/77] fix: summary statistics come in the order they are
 labelled in

---
 beep/features/core.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index 3710f4c..a2e904e 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -238,25 +238,26 @@ class CycleSummaryStats(BEEPFeaturizer):
             raise ValueError(
                 f"Unsupported statistics in {stats_names}: supported statistics are {supported_stats}")
 
-        stats = []
+        stats = {}
 
         if "var" in stats_names:
-            stats.append(np.log10(np.absolute(np.var(array))))
+            stats["var"] = np.log10(np.absolute(np.var(array)))
         if "min" in stats_names:
-            stats.append(np.log10(np.absolute(min(array))))
+            stats["min"] = np.log10(np.absolute(min(array)))
         if "mean" in stats_names:
-            stats.append(np.log10(np.absolute(np.mean(array))))
+            stats["mean"] = np.log10(np.absolute(np.mean(array)))
         if "skew" in stats_names:
-            stats.append(np.log10(np.absolute(skew(array))))
+            stats["skew"] = np.log10(np.absolute(skew(array)))
         if "kurtosis" in stats_names:
-            stats.append(np.log10(
-                np.absolute(kurtosis(array, fisher=False, bias=False))))
+            stats["kurtosis"] = np.log10(
+                np.absolute(kurtosis(array, fisher=False, bias=False)))
         if "abs" in stats_names:
-            stats.append(np.log10(np.sum(np.absolute(array))))
+            stats["abs"] = np.log10(np.sum(np.absolute(array)))
         if "square" in stats_names:
-            stats.append(np.log10(np.sum(np.square(array))))
+            stats["square"] = np.log10(np.sum(np.square(array)))
 
-        return np.asarray(stats)
+        # in the order the features are labelled in
+        return np.asarray([stats[s] for s in stats_names])
 
 
 class DiagnosticSummaryStats(CycleSummaryStats):
-- 
2.43.0


From 1be726cb40470353812bd49e9648e37e4fe5474c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:40 +0000
Subject: [PATCH 75/77] fix: the initial cycle of the fast charge features is
 the one given

---
 beep/features/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index a2e904e..f726c92 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -544,6 +544,7 @@ class DeltaQFastCharge(BEEPFeaturizer):
         i_final = self.hyperparameters[
                       "final_pred_cycle"] - 1  # python indexing
         i_mid = self.hyperparameters["mid_pred_cycle"] - 1
+        i_init = self.hyperparameters["init_pred_cycle"] - 1
 
         summary = self.datapath.structured_summary
         # For nominal capacity, use median discharge capacity of first n cycles
@@ -585,7 +586,7 @@ class DeltaQFastCharge(BEEPFeaturizer):
             interpolated_df.cycle_index == i_final
             ]
         Qd_10 = interpolated_df.discharge_capacity[
-            interpolated_df.cycle_index == 9]
+            interpolated_df.cycle_index == i_init]
 
         Qd_diff = Qd_final.values - Qd_10.values
 
-- 
2.43.0


From 222809f48af27bdfa1bc74b454dff436ec1550dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:40 +0000
Subject: [PATCH 76/77] fix: threshold targets are those of the metric and
 diagnostic type they are named after

---
 beep/features/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/beep/features/core.py b/beep/features/core.py
index f726c92..593c578 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -833,6 +833,9 @@ class DiagnosticProperties(BEEPFeaturizer):
         filter_kinks = self.hyperparameters["filter_kinks"]
         extrapolate_threshold = self.hyperparameters["extrapolate_threshold"]
 
+        # The threshold is one of this metric in diagnostics of this type
+        df = df[(df["cycle_type"] == cycle_type) & (df["metric"] == metric)]
+
         if filter_kinks:
             if np.any(df['fractional_metric'].diff().diff() < filter_kinks):
                 last_good_cycle = df[
-- 
2.43.0


From 07d691f29def9bd879c9641f7a4213234d125708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:40 +0000
Subject: [PATCH 77/77] fix: the pulse of the later diagnostic is looked up by
 its own position

---
 beep/features/featurizer_helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beep/features/featurizer_helpers.py b/beep/features/featurizer_helpers.py
index 98be958..c0788b1 100644
--- a/beep/features/featurizer_helpers.py
+++ b/beep/features/featurizer_helpers.py
@@ -254,7 +254,8 @@ def get_v_diff(processed_cycler_run, diag_pos, soc_window, parameters_path=PROTO
     hppc_data_1 = hppc_data_1.loc[hppc_data_1.discharge_capacity < 8]
 
     step_ind_1 = get_step_index(processed_cycler_run, cycle_type="hppc", diag_pos=0, parameters_path=parameters_path)
-    step_ind_2 = get_step_index(processed_cycler_run, cycle_type="hppc", diag_pos=1, parameters_path=parameters_path)
+    step_ind_2 = get_step_index(processed_cycler_run, cycle_type="hppc", diag_pos=diag_pos,
+                                parameters_path=parameters_path)
 
     hppc_data_2_d = hppc_data_2.loc[hppc_data_2.step_index == step_ind_2["hppc_discharge_to_next_soc"]]
     hppc_data_1_d = hppc_data_1.loc[hppc_data_1.step_index == step_ind_1["hppc_discharge_to_next_soc"]]
-- 
2.43.0

