From 3e04c8aae8af78a519f94e98e8e8cbe7f3683188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:05 +0000
Subject: [PATCH 01/17] fix: extract_galacticus_sfh_tables stores rows relative
 to istart

---
 diffstar/data_loaders/extract_galacticus_sfh_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diffstar/data_loaders/extract_galacticus_sfh_data.py b/diffstar/data_loaders/extract_galacticus_sfh_data.py
index 2b51dca..2fdfa43 100644
--- a/diffstar/data_loaders/extract_galacticus_sfh_data.py
+++ b/diffstar/data_loaders/extract_galacticus_sfh_data.py
@@ -71,8 +71,8 @@ def extract_galacticus_sfh_tables(fn, colname, istart=0, iend=None):
                     [sfh_data_igal[j] for j in range(n_met, 2 * n_met)]
                 )
 
-                delta_mstar_in_situ_table[igal, :] = np.sum(X_sfh_in_situ, axis=0)
-                delta_mstar_tot_table[igal, :] = np.sum(X_sfh_tot, axis=0)
+                delta_mstar_in_situ_table[igal - istart, :] = np.sum(X_sfh_in_situ, axis=0)
+                delta_mstar_tot_table[igal - istart, :] = np.sum(X_sfh_tot, axis=0)
 
     return delta_mstar_tot_table, delta_mstar_in_situ_table, tarr
 
-- 
2.43.0


From b30795c4882f35f43e46f14060bc1d2856209d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:05 +0000
Subject: [PATCH 02/17] fix: minimizer_wrapper keeps restarting after a NaN
 loss and an unusable start

---
 diffstar/fitting_helpers/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffstar/fitting_helpers/utils.py b/diffstar/fitting_helpers/utils.py
index 281586b..4f89100 100644
--- a/diffstar/fitting_helpers/utils.py
+++ b/diffstar/fitting_helpers/utils.py
@@ -142,7 +142,7 @@ def minimizer_wrapper(
             loss_best_list.append(999.99)
             success_list.append(-1)
 
-            loss_best_current = np.min(loss_best_list)
+            loss_best_current = np.nanmin(loss_best_list)
             iter_id += 1
         else:
             res = minimize(
-- 
2.43.0


From a477f96efce7d02ea2577d5a6a074c9e8d14a645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:05 +0000
Subject: [PATCH 03/17] fix: load_fit_sfh reads only columns which fit files
 have

---
 diffstar/data_loaders/load_smah_data.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/diffstar/data_loaders/load_smah_data.py b/diffstar/data_loaders/load_smah_data.py
index 48aa091..ec30cbb 100644
--- a/diffstar/data_loaders/load_smah_data.py
+++ b/diffstar/data_loaders/load_smah_data.py
@@ -167,7 +167,6 @@ def load_fit_sfh(basename, data_drn=BEBOP):
                 hdf["lgy_at_mcrit"][:],
                 hdf["indx_lo"][:],
                 hdf["indx_hi"][:],
-                hdf["tau_dep"][:],
             ]
         ).T
         q_fit_params = np.array(
-- 
2.43.0


From afb1d87b855481fafa909b64a3a0bb10348ad851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:05 +0000
Subject: [PATCH 04/17] fix: smoothly_clipped_line is finite for a line of zero
 slope

---
 diffstar/diffstarpop/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/diffstar/diffstarpop/utils.py b/diffstar/diffstarpop/utils.py
index 1bb6d1c..0988f6a 100644
--- a/diffstar/diffstarpop/utils.py
+++ b/diffstar/diffstarpop/utils.py
@@ -179,6 +179,9 @@ def smoothly_clipped_line(x, x0, y0, m, y_lo, y_hi):
         The y-values corresponding to x, smoothly clipped within [y_lo, y_hi].
 
     """
+    # Flat lines never reach the bounds: nudge m to avoid dividing by zero
+    m = m + jnp.where(m == 0, 1e-10, 0.0)
+
     x_lo = (y_lo - y0) / m + x0  # value of x at which y=y_lo
     x_hi = (y_hi - y0) / m + x0  # value of x at which y=y_hi
 
-- 
2.43.0


From 8eb6bdfdbba834d41719581075ac82646fbdad75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:26 +0000
Subject: [PATCH 05/17] fix: collate fitting ranks which hold one galaxy or
 none

---
 scripts/diffstar_fitting_script_umachine.py        | 1 +
 scripts/diffstar_fitting_script_umachine_mgash.py  | 1 +
 scripts/galacticus_diffstar_fitter_script.py       | 1 +
 scripts/galacticus_diffstar_fitter_script_mgash.py | 1 +
 scripts/history_fitting_script_TNG_mgash.py        | 1 +
 5 files changed, 5 insertions(+)

diff --git a/scripts/diffstar_fitting_script_umachine.py b/scripts/diffstar_fitting_script_umachine.py
index 157f9ce..96747e1 100644
--- a/scripts/diffstar_fitting_script_umachine.py
+++ b/scripts/diffstar_fitting_script_umachine.py
@@ -220,6 +220,7 @@ if __name__ == "__main__":
             for fit_fn in fit_data_fnames:
                 assert os.path.isfile(fit_fn)
                 fit_data = np.genfromtxt(fit_fn, dtype="str")
+                fit_data = fit_data.reshape((-1, len(colnames_out)))
                 collector.append(fit_data)
             subvol_i_fit_results = np.concatenate(collector)
 
diff --git a/scripts/diffstar_fitting_script_umachine_mgash.py b/scripts/diffstar_fitting_script_umachine_mgash.py
index e87cf54..c104abf 100644
--- a/scripts/diffstar_fitting_script_umachine_mgash.py
+++ b/scripts/diffstar_fitting_script_umachine_mgash.py
@@ -220,6 +220,7 @@ if __name__ == "__main__":
             for fit_fn in fit_data_fnames:
                 assert os.path.isfile(fit_fn)
                 fit_data = np.genfromtxt(fit_fn, dtype="str")
+                fit_data = fit_data.reshape((-1, len(colnames_out)))
                 collector.append(fit_data)
             subvol_i_fit_results = np.concatenate(collector)
 
diff --git a/scripts/galacticus_diffstar_fitter_script.py b/scripts/galacticus_diffstar_fitter_script.py
index 6f11ec3..0c8b92a 100644
--- a/scripts/galacticus_diffstar_fitter_script.py
+++ b/scripts/galacticus_diffstar_fitter_script.py
@@ -172,6 +172,7 @@ if __name__ == "__main__":
         for fit_fn in fit_data_fnames:
             assert os.path.isfile(fit_fn), fit_fn
             fit_data = np.genfromtxt(fit_fn, dtype="str")
+            fit_data = fit_data.reshape((-1, len(colnames_out)))
             collector.append(fit_data)
         subvol_i_fit_results = np.concatenate(collector)
 
diff --git a/scripts/galacticus_diffstar_fitter_script_mgash.py b/scripts/galacticus_diffstar_fitter_script_mgash.py
index 6f11ec3..0c8b92a 100644
--- a/scripts/galacticus_diffstar_fitter_script_mgash.py
+++ b/scripts/galacticus_diffstar_fitter_script_mgash.py
@@ -172,6 +172,7 @@ if __name__ == "__main__":
         for fit_fn in fit_data_fnames:
             assert os.path.isfile(fit_fn), fit_fn
             fit_data = np.genfromtxt(fit_fn, dtype="str")
+            fit_data = fit_data.reshape((-1, len(colnames_out)))
             collector.append(fit_data)
         subvol_i_fit_results = np.concatenate(collector)
 
diff --git a/scripts/history_fitting_script_TNG_mgash.py b/scripts/history_fitting_script_TNG_mgash.py
index cb634f7..4eb1728 100644
--- a/scripts/history_fitting_script_TNG_mgash.py
+++ b/scripts/history_fitting_script_TNG_mgash.py
@@ -149,6 +149,7 @@ if __name__ == "__main__":
         for fit_fn in fit_data_fnames:
             assert os.path.isfile(fit_fn)
             fit_data = np.genfromtxt(fit_fn, dtype="str")
+            fit_data = fit_data.reshape((-1, len(colnames_out)))
             collector.append(fit_data)
         subvol_i_fit_results = np.concatenate(collector)
 
-- 
2.43.0


From 3e278ed8c5a74426ab6885c52fb7e7b2187cb0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:26 +0000
Subject: [PATCH 06/17] fix: fitting scripts run with more ranks than galaxies

---
 scripts/galacticus_diffstar_fitter_script.py       | 4 ++--
 scripts/galacticus_diffstar_fitter_script_mgash.py | 4 ++--
 scripts/history_fitting_script_TNG_mgash.py        | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/scripts/galacticus_diffstar_fitter_script.py b/scripts/galacticus_diffstar_fitter_script.py
index 0c8b92a..cd04c1b 100644
--- a/scripts/galacticus_diffstar_fitter_script.py
+++ b/scripts/galacticus_diffstar_fitter_script.py
@@ -97,8 +97,8 @@ if __name__ == "__main__":
 
     _a = np.arange(0, nhalos_tot).astype("i8")
     indx_for_rank = np.array_split(_a, nranks)[rank]
-    istart = indx_for_rank[0]
-    iend = indx_for_rank[-1] + 1
+    istart = sum(x.size for x in np.array_split(_a, nranks)[:rank])
+    iend = istart + indx_for_rank.size
 
     sfh_data_for_rank = lgs.load_galacticus_sfh_data_block(fn_sfh_block, istart, iend)
     tarr = sfh_data_for_rank["tarr"]
diff --git a/scripts/galacticus_diffstar_fitter_script_mgash.py b/scripts/galacticus_diffstar_fitter_script_mgash.py
index 0c8b92a..cd04c1b 100644
--- a/scripts/galacticus_diffstar_fitter_script_mgash.py
+++ b/scripts/galacticus_diffstar_fitter_script_mgash.py
@@ -97,8 +97,8 @@ if __name__ == "__main__":
 
     _a = np.arange(0, nhalos_tot).astype("i8")
     indx_for_rank = np.array_split(_a, nranks)[rank]
-    istart = indx_for_rank[0]
-    iend = indx_for_rank[-1] + 1
+    istart = sum(x.size for x in np.array_split(_a, nranks)[:rank])
+    iend = istart + indx_for_rank.size
 
     sfh_data_for_rank = lgs.load_galacticus_sfh_data_block(fn_sfh_block, istart, iend)
     tarr = sfh_data_for_rank["tarr"]
diff --git a/scripts/history_fitting_script_TNG_mgash.py b/scripts/history_fitting_script_TNG_mgash.py
index 4eb1728..cddb358 100644
--- a/scripts/history_fitting_script_TNG_mgash.py
+++ b/scripts/history_fitting_script_TNG_mgash.py
@@ -87,8 +87,8 @@ if __name__ == "__main__":
 
     _a = np.arange(0, nhalos_tot).astype("i8")
     indx_for_rank = np.array_split(_a, nranks)[rank]
-    istart = indx_for_rank[0]
-    iend = indx_for_rank[-1] + 1
+    istart = sum(x.size for x in np.array_split(_a, nranks)[:rank])
+    iend = istart + indx_for_rank.size
 
     diffmah_str = "diffmah_tng_fits.hdf5"
     bn_diffmah = os.path.join(indir_diffmah, diffmah_str)
-- 
2.43.0


From 6f10182e8d829325a4b11952c292ae91e06d50e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:57 +0000
Subject: [PATCH 07/17] fix: time cell durations of integer and of two-entry
 tables

---
 diffstar/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/diffstar/utils.py b/diffstar/utils.py
index dd9d264..9958c2e 100644
--- a/diffstar/utils.py
+++ b/diffstar/utils.py
@@ -14,6 +14,7 @@ YEAR_PER_GYR = 1e9
 
 @jjit
 def _jax_get_dt_array(t):
+    t = 1.0 * t  # durations of integer times need not be integers
     dt = jnp.zeros_like(t)
     tmids = 0.5 * (t[:-1] + t[1:])
     dtmids = jnp.diff(tmids)
@@ -21,9 +22,9 @@ def _jax_get_dt_array(t):
     dt = dt.at[1:-1].set(dtmids)
 
     t_lo = t[0] - (t[1] - t[0]) / 2
-    t_hi = t[-1] + dtmids[-1] / 2
-
     dt = dt.at[0].set(tmids[0] - t_lo)
+
+    t_hi = t[-1] + dt[-2] / 2
     dt = dt.at[-1].set(t_hi - tmids[-1])
     return dt
 
-- 
2.43.0


From c5939a01648beada45290b7f326baedf4bbdcadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:01 +0000
Subject: [PATCH 08/17] fix: minimizer_wrapper returns an infinite loss rather
 than a NaN one

---
 diffstar/fitting_helpers/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/diffstar/fitting_helpers/utils.py b/diffstar/fitting_helpers/utils.py
index 4f89100..7d76104 100644
--- a/diffstar/fitting_helpers/utils.py
+++ b/diffstar/fitting_helpers/utils.py
@@ -172,7 +172,9 @@ def minimizer_wrapper(
         success = -1
         p_best = p_init[0]
     else:
-        argmin = np.nanargmin(loss_best_list)
+        # np.nanargmin does not tell a NaN from an infinite loss
+        not_nan = np.flatnonzero(~np.isnan(loss_best_list))
+        argmin = not_nan[np.argmin(np.array(loss_best_list)[not_nan])]
         p_best = p_best_list[argmin]
         loss_best = loss_best_list[argmin]
         success = success_list[argmin]
-- 
2.43.0


From aaf635d5e59233f12b385773c07a1ed84666f0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:16 +0000
Subject: [PATCH 09/17] fix: extract_galacticus_sfh_tables when no galaxy has a
 stored history

---
 diffstar/data_loaders/extract_galacticus_sfh_data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/diffstar/data_loaders/extract_galacticus_sfh_data.py b/diffstar/data_loaders/extract_galacticus_sfh_data.py
index 2fdfa43..f7b6e11 100644
--- a/diffstar/data_loaders/extract_galacticus_sfh_data.py
+++ b/diffstar/data_loaders/extract_galacticus_sfh_data.py
@@ -52,6 +52,7 @@ def extract_galacticus_sfh_tables(fn, colname, istart=0, iend=None):
             iend = n_gals_tot
         n_gals_out = iend - istart
 
+        n_met, n_t = 0, len(tarr)
         for _x in SFH_data:
             if _x.size > 0:
                 n_met = len(_x) // 2
-- 
2.43.0


From 2d9af324bbf645a355b65828f86d7863b3b9187f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:20 +0000
Subject: [PATCH 10/17] fix: smoothly_clipped_line stays below its upper bound

---
 diffstar/diffstarpop/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/diffstar/diffstarpop/utils.py b/diffstar/diffstarpop/utils.py
index 0988f6a..7d7a725 100644
--- a/diffstar/diffstarpop/utils.py
+++ b/diffstar/diffstarpop/utils.py
@@ -197,8 +197,10 @@ def smoothly_clipped_line(x, x0, y0, m, y_lo, y_hi):
     y_lo_bound = y0 + m * (xc_lo - x0)  # value of y=y_lo+ε
     y_hi_bound = y0 + m * (xc_hi - x0)  # value of y=y_hi-ε
 
-    CLIPPING_K = 20.0 / eps_lo  # Steep transition speed for this Δx
+    # Steep transition speeds for these Δx
+    k_lo = 20.0 / eps_lo
+    k_hi = 20.0 / eps_hi
     y_unclipped = y0 + m * (x - x0)
-    y_clipped_from_below = _sigmoid(x, xc_lo, CLIPPING_K, y_lo_bound, y_unclipped)
-    y_clipped = _sigmoid(x, xc_hi, CLIPPING_K, y_clipped_from_below, y_hi_bound)
+    y_clipped_from_below = _sigmoid(x, xc_lo, k_lo, y_lo_bound, y_unclipped)
+    y_clipped = _sigmoid(x, xc_hi, k_hi, y_clipped_from_below, y_hi_bound)
     return y_clipped
-- 
2.43.0


From ce5801d14e24efbd7a4e18855e8040d8af217fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 11/17] fix: load items of long ragged lists in order

---
 scripts/diffstarpop_scripts/save_loss_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/diffstarpop_scripts/save_loss_data.py b/scripts/diffstarpop_scripts/save_loss_data.py
index e0df86c..57b04b5 100644
--- a/scripts/diffstarpop_scripts/save_loss_data.py
+++ b/scripts/diffstarpop_scripts/save_loss_data.py
@@ -264,7 +264,7 @@ def load_loss_data_h5(filename: str):
                         else obj.attrs.get("format", "")
                     )
                     if fmt in ("ragged_list_of_datasets", "list_of_datasets"):
-                        items = [obj[k][()] for k in sorted(obj.keys())]
+                        items = [obj[k][()] for k in sorted(obj.keys(), key=int)]
                         out.append(items)
                     else:
                         # Unknown layout—try datasets in key order
-- 
2.43.0


From 13675db12a239da640cc3b4d44995704b6d3445f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 12/17] fix: measuring scripts pass fb to calc_sfh_galpop

---
 scripts/diffstarpop_scripts/smhm_utils_galacticus_mgash.py | 4 ++--
 scripts/diffstarpop_scripts/smhm_utils_smdpl_mgash.py      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/diffstarpop_scripts/smhm_utils_galacticus_mgash.py b/scripts/diffstarpop_scripts/smhm_utils_galacticus_mgash.py
index 28fa747..d4de035 100644
--- a/scripts/diffstarpop_scripts/smhm_utils_galacticus_mgash.py
+++ b/scripts/diffstarpop_scripts/smhm_utils_galacticus_mgash.py
@@ -6,7 +6,7 @@ import h5py
 import numpy as np
 from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS, mah_halopop
 from diffsky.diffndhist import tw_ndhist_weighted
-from diffstar.defaults import DEFAULT_DIFFSTAR_PARAMS, LGT0, T_TABLE_MIN
+from diffstar.defaults import DEFAULT_DIFFSTAR_PARAMS, FB, LGT0, T_TABLE_MIN
 from diffstar.sfh_model import calc_sfh_galpop
 from diffstar.data_loaders.load_galacticus_sfh import load_galacticus_diffstar_data
 from scipy.stats import binned_statistic
@@ -71,7 +71,7 @@ def load_diffstar_sfh_tables(
     __, log_mah_table = mah_halopop(mah_params, t_table, LGT0)
 
     sfh_table, smh_table = calc_sfh_galpop(
-        sfh_params, mah_params, t_table, lgt0=LGT0, return_smh=True
+        sfh_params, mah_params, t_table, lgt0=LGT0, fb=FB, return_smh=True
     )
     log_sfh_table = np.log10(sfh_table)
     log_smh_table = np.log10(smh_table)
diff --git a/scripts/diffstarpop_scripts/smhm_utils_smdpl_mgash.py b/scripts/diffstarpop_scripts/smhm_utils_smdpl_mgash.py
index 2ec5211..ddbaff0 100644
--- a/scripts/diffstarpop_scripts/smhm_utils_smdpl_mgash.py
+++ b/scripts/diffstarpop_scripts/smhm_utils_smdpl_mgash.py
@@ -6,7 +6,7 @@ import h5py
 import numpy as np
 from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS, mah_halopop
 from diffsky.diffndhist import tw_ndhist_weighted
-from diffstar.defaults import DEFAULT_DIFFSTAR_PARAMS, LGT0, T_TABLE_MIN
+from diffstar.defaults import DEFAULT_DIFFSTAR_PARAMS, FB, LGT0, T_TABLE_MIN
 from diffstar.sfh_model import calc_sfh_galpop
 from scipy.stats import binned_statistic
 from astropy.cosmology import Planck13
@@ -155,7 +155,7 @@ def load_diffstar_sfh_tables(
     __, log_mah_table = mah_halopop(mah_params, t_table, LGT0)
 
     sfh_table, smh_table = calc_sfh_galpop(
-        sfh_params, mah_params, t_table, lgt0=LGT0, return_smh=True
+        sfh_params, mah_params, t_table, lgt0=LGT0, fb=FB, return_smh=True
     )
     log_sfh_table = np.log10(sfh_table)
     log_smh_table = np.log10(smh_table)
-- 
2.43.0


From 34b6dfad15c2c9964612789c412d912c9f5a22b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 13/17] fix: collect target tables when a subvolume was skipped

---
 .../diffstarpop_scripts/measure_smhm_smdpl_script_mpi_mgash.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scripts/diffstarpop_scripts/measure_smhm_smdpl_script_mpi_mgash.py b/scripts/diffstarpop_scripts/measure_smhm_smdpl_script_mpi_mgash.py
index 35365d4..de6325a 100644
--- a/scripts/diffstarpop_scripts/measure_smhm_smdpl_script_mpi_mgash.py
+++ b/scripts/diffstarpop_scripts/measure_smhm_smdpl_script_mpi_mgash.py
@@ -198,7 +198,10 @@ if __name__ == "__main__":
 
         for i in subvols:
             fnout = os.path.join(outdrn, "_tmp_subvol_%d_smdpl_smhm.h5" % i)
+            if not os.path.isfile(fnout):
+                continue  # no sumstat counts for this subvolume
             with h5py.File(fnout, "r") as hdfout:
+                age_targets = hdfout["age_targets"][:]
                 wcounts = wcounts + hdfout["wcounts_i"][:]
                 whist = whist + hdfout["whist_i"][:]
                 counts = counts + hdfout["counts_i"][:]
-- 
2.43.0


From b4c138e283a1f39d5cfc7968301c16384b36dbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 14/17] fix: names of subvolumes of different lengths

---
 .../diffstarpop_scripts/smhm_utils_smdpl_mgash.py    | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/scripts/diffstarpop_scripts/smhm_utils_smdpl_mgash.py b/scripts/diffstarpop_scripts/smhm_utils_smdpl_mgash.py
index ddbaff0..24f5bf7 100644
--- a/scripts/diffstarpop_scripts/smhm_utils_smdpl_mgash.py
+++ b/scripts/diffstarpop_scripts/smhm_utils_smdpl_mgash.py
@@ -69,11 +69,11 @@ def return_subvol_str_diffmah(subvol, sim_name, diffstar_drn, diffstar_bnpat):
         subvols = [x.split("_")[-1].split(".")[0] for x in matching_files]
     subvols_len = np.array([len(x) for x in subvols])
 
-    if np.any(subvols_len == 1):
-        subvol_str = f"{subvol:d}"
-    elif np.all(subvols_len == subvols_len.max()):
+    if np.all(subvols_len == subvols_len.max()):
         nchar_subvol = subvols_len.max()
         subvol_str = f"{subvol:0{nchar_subvol}d}"
+    else:
+        subvol_str = f"{subvol:d}"
     return subvol_str
 
 
@@ -84,11 +84,11 @@ def return_subvol_str(subvol, sim_name, diffstar_drn, diffstar_bnpat):
     subvols = [x.split("_")[-1].split(".")[0] for x in matching_files]
     subvols_len = np.array([len(x) for x in subvols])
 
-    if np.any(subvols_len == 1):
-        subvol_str = f"{subvol:d}"
-    elif np.all(subvols_len == subvols_len.max()):
+    if np.all(subvols_len == subvols_len.max()):
         nchar_subvol = subvols_len.max()
         subvol_str = f"{subvol:0{nchar_subvol}d}"
+    else:
+        subvol_str = f"{subvol:d}"
     return subvol_str
 
 
-- 
2.43.0


From a1e514aa781bb05177bcc7ef13457cb0b0f51cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 15/17] fix: fit Galacticus halos with more ranks than halos

---
 .../galacticus_analysis/galacticus_diffmah_fitter_script.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/galacticus_analysis/galacticus_diffmah_fitter_script.py b/scripts/galacticus_analysis/galacticus_diffmah_fitter_script.py
index 1ebf68f..8952382 100644
--- a/scripts/galacticus_analysis/galacticus_diffmah_fitter_script.py
+++ b/scripts/galacticus_analysis/galacticus_diffmah_fitter_script.py
@@ -61,8 +61,8 @@ if __name__ == "__main__":
     nhalos_tot = egsd.get_nhalos_tot(fn)
     _a = np.arange(0, nhalos_tot).astype("i8")
     indx_for_rank = np.array_split(_a, nranks)[rank]
-    istart = indx_for_rank[0]
-    iend = indx_for_rank[-1] + 1
+    istart = sum(x.size for x in np.array_split(_a, nranks)[:rank])
+    iend = istart + indx_for_rank.size
 
     _res = egsd.extract_galacticus_mah_tables(fn, istart, iend)
     mahs_for_rank, times_for_rank, is_cen_for_rank, t_infall_for_rank = _res
@@ -75,7 +75,7 @@ if __name__ == "__main__":
 
     comm.Barrier()
 
-    t_max_for_rank = np.array([t[-1] for t in times_for_rank]).max()
+    t_max_for_rank = max((t[-1] for t in times_for_rank), default=-np.inf)
     T0 = comm.allreduce(t_max_for_rank, op=MPI.MAX)
     comm.Barrier()
 
-- 
2.43.0


From 3db94200f073f9c5d653c725b102a76de2cbb645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 16/17] fix: collate Galacticus halo fits of ranks which hold
 one halo or none

---
 scripts/galacticus_analysis/galacticus_diffmah_fitter_script.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/galacticus_analysis/galacticus_diffmah_fitter_script.py b/scripts/galacticus_analysis/galacticus_diffmah_fitter_script.py
index 8952382..0d6e9e7 100644
--- a/scripts/galacticus_analysis/galacticus_diffmah_fitter_script.py
+++ b/scripts/galacticus_analysis/galacticus_diffmah_fitter_script.py
@@ -122,6 +122,7 @@ if __name__ == "__main__":
         for fit_fn in fit_data_fnames:
             assert os.path.isfile(fit_fn)
             fit_data = np.genfromtxt(fit_fn, dtype="str")
+            fit_data = fit_data.reshape((-1, len(cfh.FIT_COLNAMES)))
             collector.append(fit_data)
         chunk_fit_results = np.concatenate(collector)
 
-- 
2.43.0


From 898d9fc7a6978ba9b41dc6ac607f205123c2673a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 17/17] fix: a rate of exactly one solar mass per year counts
 in the mean rates

The logarithm of such a rate is zero, which was taken for no star formation.
---
 .../calculate_quality_diffstar_fits_mgash.py  | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/scripts/diffstarpop_scripts/calculate_quality_diffstar_fits_mgash.py b/scripts/diffstarpop_scripts/calculate_quality_diffstar_fits_mgash.py
index c2df9cb..a654d60 100644
--- a/scripts/diffstarpop_scripts/calculate_quality_diffstar_fits_mgash.py
+++ b/scripts/diffstarpop_scripts/calculate_quality_diffstar_fits_mgash.py
@@ -100,7 +100,7 @@ def calculate_plot_smdpl_nomerging(mpeak_bins):
 
         out = load_SMDPL_nomerging_data([subvol], binaries_drn)
         (halo_ids, log_smahs, sfrh, SMDPL_t, log_mahs, logmp0) = out
-        log_sfrh = np.where(sfrh > 0.0, np.log10(sfrh), 0.0)
+        log_sfrh = np.where(sfrh > 0.0, np.log10(sfrh), np.nan)
 
         _log_smahs_data = log_smahs[has_fit]
         _log_sfrh_data = log_sfrh[has_fit]
@@ -111,7 +111,7 @@ def calculate_plot_smdpl_nomerging(mpeak_bins):
         smahs_fits = np.where(_log_smahs_fits == 0.0, np.nan, 10**_log_smahs_fits)
         sfrh_fits = np.where(_log_sfrh_fits == 0.0, np.nan, 10**_log_sfrh_fits)
         smahs_data = np.where(_log_smahs_data == 0.0, np.nan, 10**_log_smahs_data)
-        sfrh_data = np.where(_log_sfrh_data == 0.0, np.nan, 10**_log_sfrh_data)
+        sfrh_data = 10**_log_sfrh_data
 
         logmp0_data = logmp0[has_fit]
 
@@ -205,7 +205,7 @@ def calculate_plot_smdpl_dr1(mpeak_bins):
 
         out = load_SMDPL_DR1_data([subvol], binaries_drn)
         (halo_ids, log_smahs, sfrh, SMDPL_t, log_mahs, logmp0) = out
-        log_sfrh = np.where(sfrh > 0.0, np.log10(sfrh), 0.0)
+        log_sfrh = np.where(sfrh > 0.0, np.log10(sfrh), np.nan)
 
         _log_smahs_data = log_smahs[has_fit]
         _log_sfrh_data = log_sfrh[has_fit]
@@ -216,7 +216,7 @@ def calculate_plot_smdpl_dr1(mpeak_bins):
         smahs_fits = np.where(_log_smahs_fits == 0.0, np.nan, 10**_log_smahs_fits)
         sfrh_fits = np.where(_log_sfrh_fits == 0.0, np.nan, 10**_log_sfrh_fits)
         smahs_data = np.where(_log_smahs_data == 0.0, np.nan, 10**_log_smahs_data)
-        sfrh_data = np.where(_log_sfrh_data == 0.0, np.nan, 10**_log_sfrh_data)
+        sfrh_data = 10**_log_sfrh_data
 
         logmp0_data = logmp0[has_fit]
 
@@ -266,7 +266,7 @@ def calculate_plot_tng(mpeak_bins):
     mpeak_binsc = 0.5 * (mpeak_bins[1:] + mpeak_bins[:-1])
     out = load_tng_data(binaries_drn)
     (halo_ids, log_smahs, sfrh, tng_t, log_mahs, logmp0) = out
-    log_sfrh = np.where(sfrh > 0.0, np.log10(sfrh), 0.0)
+    log_sfrh = np.where(sfrh > 0.0, np.log10(sfrh), np.nan)
     nt = len(tng_t)
     n_subvol_smdpl = 20
 
@@ -315,7 +315,7 @@ def calculate_plot_tng(mpeak_bins):
         smahs_fits = np.where(_log_smahs_fits == 0.0, np.nan, 10**_log_smahs_fits)
         sfrh_fits = np.where(_log_sfrh_fits == 0.0, np.nan, 10**_log_sfrh_fits)
         smahs_data = np.where(_log_smahs_data == 0.0, np.nan, 10**_log_smahs_data)
-        sfrh_data = np.where(_log_sfrh_data == 0.0, np.nan, 10**_log_sfrh_data)
+        sfrh_data = 10**_log_sfrh_data
 
         logmp0_data = logmp0[indx][has_fit]
 
@@ -379,7 +379,7 @@ def calculate_plot_galcus_insitu(mpeak_bins):
     logmp0 = log_mah_fit[:, -1]
 
     # (halo_ids, log_smahs, sfrh, tng_t, log_mahs, logmp0) = out
-    log_sfrh = np.where(sfrh > 0.0, np.log10(sfrh), 0.0)
+    log_sfrh = np.where(sfrh > 0.0, np.log10(sfrh), np.nan)
     nt = len(galcus_t)
 
     mstar_data_mean = np.zeros((len(mpeak_binsc), nt))
@@ -418,7 +418,7 @@ def calculate_plot_galcus_insitu(mpeak_bins):
     smahs_fits = np.where(_log_smahs_fits == 0.0, np.nan, 10**_log_smahs_fits)
     sfrh_fits = np.where(_log_sfrh_fits == 0.0, np.nan, 10**_log_sfrh_fits)
     smahs_data = np.where(_log_smahs_data == 0.0, np.nan, 10**_log_smahs_data)
-    sfrh_data = np.where(_log_sfrh_data == 0.0, np.nan, 10**_log_sfrh_data)
+    sfrh_data = 10**_log_sfrh_data
 
     logmp0_data = logmp0[has_fit]
 
@@ -482,7 +482,7 @@ def calculate_plot_galcus_inplusexsitu(mpeak_bins):
     logmp0 = log_mah_fit[:, -1]
 
     # (halo_ids, log_smahs, sfrh, tng_t, log_mahs, logmp0) = out
-    log_sfrh = np.where(sfrh > 0.0, np.log10(sfrh), 0.0)
+    log_sfrh = np.where(sfrh > 0.0, np.log10(sfrh), np.nan)
     nt = len(galcus_t)
 
     mstar_data_mean = np.zeros((len(mpeak_binsc), nt))
@@ -521,7 +521,7 @@ def calculate_plot_galcus_inplusexsitu(mpeak_bins):
     smahs_fits = np.where(_log_smahs_fits == 0.0, np.nan, 10**_log_smahs_fits)
     sfrh_fits = np.where(_log_sfrh_fits == 0.0, np.nan, 10**_log_sfrh_fits)
     smahs_data = np.where(_log_smahs_data == 0.0, np.nan, 10**_log_smahs_data)
-    sfrh_data = np.where(_log_sfrh_data == 0.0, np.nan, 10**_log_sfrh_data)
+    sfrh_data = 10**_log_sfrh_data
 
     logmp0_data = logmp0[has_fit]
 
-- 
2.43.0

