"""Regenerates /verif/properties.jsonl (kept as a script so wording stays in one place)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))

prop("C01", "Star formation history is the composed in-situ model at every time",
 "For any galaxy, halo growth history, baryon fraction, reference age and any array of positive times, the star formation rate returned at each time is the baryon fraction times the halo mass at that time, times the mass-dependent main-sequence efficiency, times the quenching factor at that time, floored at the model's minimum rate of 1e-14 Msun/yr. "
 "It is always finite and at or above that floor, and the value at one time never depends on which other times are requested, on their order or on how many there are.",
 ["inputs"], "all in-bounds galaxy and halo parameters, all baryon fractions and reference ages, all time grids (any length, unsorted, repeated, before/after the halo's peak time, beyond the present), both float widths",
 "Tests evaluate a few default or random galaxies on one fixed grid and mostly assert finiteness or agreement between two entry points that share the same kernel.",
 ["diffstar/sfh_model.py", "diffstar/kernels/history_kernel_builders.py", "diffstar/kernels/main_sequence_kernels.py"],
 [("composition of halo mass, efficiency and quenching, then the floor", "diffstar/kernels/history_kernel_builders.py:_sfh_singlegal_scalar"), ("rolling power-law efficiency", "diffstar/kernels/main_sequence_kernels.py:_sfr_eff_plaw"), ("baryonic mass times efficiency", "diffstar/kernels/main_sequence_kernels.py:sfh_ms_kernel")],
 ["diffstar.calc_sfh_singlegal", "diffstar.calc_sfh_galpop"])
prop("C02", "A galaxy population equals the stack of its individual galaxies",
 "Every population entry point (star formation histories, stellar mass histories, gas histories) returns, row by row and field by field, what the single-galaxy entry point returns for that galaxy, in the input order. "
 "A galaxy's row does not depend on how many other galaxies there are, on their values, or on where it sits in the population.",
 ["inputs"], "all populations of any size (including one galaxy, and sizes equal to the number of times or of parameters), all orderings and all other members, including extreme ones",
 "Tests compare a single population size with distinct dimensions against a loop, so transposition, broadcasting and cross-talk at special sizes or with unusual members are never exercised.",
 ["diffstar/sfh_model.py", "diffstar/mgas_model.py", "diffstar/kernels/history_kernel_builders.py", "diffstar/utils.py"],
 [("vmapped population kernels", "diffstar/kernels/history_kernel_builders.py:_sfh_galpop_kern"), ("population wrappers", "diffstar/sfh_model.py:calc_sfh_galpop"), ("population gas wrapper", "diffstar/mgas_model.py:calc_mgas_galpop")],
 ["diffstar.calc_sfh_galpop", "diffstar.calc_mgas_galpop", "diffstar.utils.cumulative_mstar_formed_galpop"])
prop("C03", "Quenching factor: untouched before, deepest at centre, settled after",
 "For any in-bounds quenching parameters the quenching factor is in (0, 1]: exactly 1 before the event starts, falling monotonically to 10**lg_drop at the event centre, rising monotonically to 10**lg_rejuv at the event end and constant after it. "
 "The event spans exactly 10**qlglgdt dex in log cosmic time, symmetric about lg_qt, and its shape in log10 is the triweight cumulative distribution on each half.",
 ["inputs"], "all in-bounds quenching parameters (bounded or unbounded form) and all times, in particular at and next to the edges and centre of the event, very narrow and very wide events, and no-rejuvenation or full-rejuvenation limits",
 "Tests check a few random parameter draws for range and shape; they do not reach window edges, extreme widths, or parameter corners.",
 ["diffstar/kernels/quenching_kernels.py"],
 [("two successive triweight transitions", "diffstar/kernels/quenching_kernels.py:_jax_partial_u_tw_kern"), ("duration in dex to kernel width", "diffstar/kernels/quenching_kernels.py:_quenching_kern"), ("clamped triweight CDF", "diffstar/kernels/quenching_kernels.py:_jax_tw")],
 ["diffstar.kernels.quenching_kernels._quenching_kern", "diffstar.kernels.quenching_kernels._quenching_kern_u_params", "ratio of star formation histories with and without quenching"])
prop("C04", "Galaxy parameter bounding is in-bounds, ordered, named and invertible",
 "Transforming any unbounded galaxy parameters gives physical parameters inside their documented bounds, each depending monotonically on its own unbounded counterpart only, except that the lower bound of lg_rejuv is lg_drop, so a galaxy never rejuvenates below its own drop. "
 "The unbounding transform is its inverse, every value keeps its own name in both directions, and scalar and array inputs agree element by element.",
 ["inputs"], "all unbounded parameter values (including very large ones) and all strictly in-bounds physical parameters, scalars and arrays",
 "Tests round-trip a few random or default points and never probe saturation, per-parameter dependence or the coupled rejuvenation bound everywhere.",
 ["diffstar/defaults.py", "diffstar/kernels/main_sequence_kernels.py", "diffstar/kernels/quenching_kernels.py", "diffstar/utils.py"],
 [("sigmoid bounding tables", "diffstar/kernels/main_sequence_kernels.py:MS_BOUNDING_SIGMOID_PDICT"), ("rejuvenation bound coupled to drop", "diffstar/kernels/quenching_kernels.py:_get_bounded_lg_rejuv"), ("public transforms", "diffstar/defaults.py:get_bounded_diffstar_params")],
 ["diffstar.get_bounded_diffstar_params", "diffstar.get_unbounded_diffstar_params"])
prop("C05", "Cumulative stellar mass is the running trapezoidal integral from birth",
 "The stellar mass formed by each time in an increasing table is 1e9 times the trapezoidal integral of the star formation rate from the birth time 0.001 Gyr, where the rate is taken to be the minimum rate, through every tabulated time up to that one. "
 "It is therefore non-decreasing for non-negative rates, scales and adds with the rates, does not depend on later entries, and is what the history functions return when stellar mass is requested alongside the star formation history.",
 ["inputs", "histories"], "all increasing time tables of any length (including a single time) and spacing, and all star formation rate tables including zeros and large dynamic range",
 "Tests compare with one quadrature on one smooth grid with a loose tolerance; initial interval, irregular grids, prefixes and single-time tables are not pinned down.",
 ["diffstar/utils.py", "diffstar/sfh_model.py"],
 [("sequential scan carrying (time, rate, integral)", "diffstar/utils.py:_cumtrapz_scan_func"), ("birth padding and unit conversion", "diffstar/utils.py:cumulative_mstar_formed"), ("population version", "diffstar/utils.py:cumulative_mstar_formed_galpop")],
 ["diffstar.utils.cumulative_mstar_formed", "diffstar.utils.cumulative_mstar_formed_galpop", "calc_sfh_* with return_smh=True"],
 [("carryover", "(previous time, previous rate, accumulated integral)", "diffstar/utils.py:_cumtrapz_scan_func")])
prop("C06", "Time-averaged star formation is mass formed over the trailing window",
 "The averaged star formation rate at time t is the stellar mass at t minus the stellar mass interpolated linearly at t minus the delay, divided by the delay in years; before the table starts the earlier mass is the first tabulated mass. "
 "It is never negative, and for a constant star formation rate it equals that rate once the window lies inside the table.",
 ["inputs"], "all increasing time tables, non-decreasing (and also decreasing) mass tables and all positive delays, shorter than one step or longer than the whole table",
 "Tests use one random table and assert only sign or finiteness.",
 ["diffstar/utils.py"], [("interpolation at the delayed time, clipped at zero", "diffstar/utils.py:compute_fstar")],
 ["diffstar.utils.compute_fstar"])
prop("C07", "Gas mass is accreted baryons minus stars formed, with matching rate",
 "For any galaxy and increasing time table, the gas history reports the same star formation and stellar mass histories as the star formation functions, and a gas mass equal to the integrated baryonic accretion of the halo (baryon fraction times halo growth rate, zero after the halo's peak time) minus the stellar mass. "
 "The reported gas rate is the change of gas mass across each time cell divided by the cell's duration, where cells meet at midpoints of consecutive times and tile the table.",
 ["inputs"], "all galaxy and halo parameters, baryon fractions and reference ages, and increasing time tables of two or more entries, regular or not, crossing the halo's peak time",
 "Tests only check shapes and finiteness for the default galaxy on a linear grid.",
 ["diffstar/mgas_model.py", "diffstar/utils.py"],
 [("accretion minus star formation", "diffstar/mgas_model.py:calc_mgas_singlegal"), ("time cells", "diffstar/utils.py:_jax_get_dt_array"), ("population version", "diffstar/mgas_model.py:calc_mgas_galpop")],
 ["diffstar.calc_mgas_singlegal", "diffstar.calc_mgas_galpop", "diffstar.utils._get_dt_array"])
prop("C08", "Restarting fitter keeps the best attempt and stops only when allowed",
 "The restarting minimizer makes at least one and at most max_iter attempts (when max_iter is at least one) and stops early as soon as, and only once, some attempt has achieved a loss at or below the tolerance. "
 "It returns the parameters, loss and success flag of one and the same attempt, the one with the smallest loss that is not NaN, where an attempt that found no usable starting point counts as the initial guess with loss 999.99 and flag -1, and it returns that fallback when every loss is NaN; each attempt draws its random start from the normal distribution around the initial guess with the given scatter, redrawing until the gradient there has no NaN and giving up after 1001 draws.",
 ["histories", "inputs", "fault_sequences"], "all sequences of attempt outcomes (converged, poor, NaN, infinite, tied, exactly at tolerance, no usable start), all tolerances and iteration limits, all gradient-failure patterns",
 "Tests run one or two well-behaved fits that succeed on the first attempt; outcome sequences mixing NaN, failed starts and ties never occur.",
 ["diffstar/fitting_helpers/utils.py"],
 [("restart loop and bookkeeping lists", "diffstar/fitting_helpers/utils.py:minimizer_wrapper"), ("random start with NaN-gradient rejection", "diffstar/fitting_helpers/utils.py:return_random_pinit")],
 ["diffstar.fitting_helpers.utils.minimizer_wrapper", "diffstar.fitting_helpers.utils.return_random_pinit"],
 [("loss_best_list", "losses of the attempts made so far", "diffstar/fitting_helpers/utils.py:minimizer_wrapper"), ("loss_best_current", "best loss so far, decides continuation", "diffstar/fitting_helpers/utils.py:minimizer_wrapper")])
prop("C09", "Adam backup reports the best visited point and honest termination",
 "The Adam minimizer evaluates the loss at its starting point and then after each update, stops at the first non-finite parameters, loss or gradient, and returns the visited parameters with the smallest recorded loss together with that loss and the full record of visited points up to termination. "
 "The termination flag is 1 only if every requested step was taken; the combined minimizer returns success 1 with the quasi-Newton result if that converged, and otherwise the result of Adam started from the given guess (or its finite warm-up result), with success 0 if Adam completed and -1 if it did not.",
 ["histories", "inputs", "fault_sequences"], "all loss functions, step counts, step sizes, warm-up counts and all positions at which a non-finite value first appears",
 "Tests run Adam on a smooth quadratic; early termination, non-monotone losses, warm-up divergence and the fallback path are unreached.",
 ["diffstar/fitting_helpers/utils.py"],
 [("Adam loop with finiteness guard", "diffstar/fitting_helpers/utils.py:_jax_adam_wrapper"), ("warm-up and termination flag", "diffstar/fitting_helpers/utils.py:jax_adam_wrapper_v2"), ("fallback", "diffstar/fitting_helpers/utils.py:minimizer")],
 ["diffstar.fitting_helpers.utils.jax_adam_wrapper_v2", "diffstar.fitting_helpers.utils.minimizer"],
 [("loss_arr/params_arr", "record of visited points", "diffstar/fitting_helpers/utils.py:_jax_adam_wrapper")])
prop("C10", "Fit targets and weights include exactly the trustworthy snapshots",
 "The data prepared for fitting a star formation history contain its cumulative stellar mass, the floored star formation rates, and the time-averaged rate floored in specific rate and at a thousandth of its own maximum. "
 "A snapshot is effectively ignored (weight 1e10) when its mass is not within the allowed dex of the final mass, is not above the minimum mass (never stricter than half a dex below the final mass) or is earlier than the minimum fit time, except that snapshots within 0.1 dex of the final mass (of the peak averaged rate, for the averaged-rate weight) always get weight 0.5, and averaged-rate snapshots earlier than the averaging delay plus 0.01 Gyr are always ignored.",
 ["inputs"], "all star formation history tables (including zeros, early truncation, very low mass, late bursts), time tables and all settings of the cuts, delay, floor, reference age and baryon fraction",
 "Tests run the fitter on synthetic smooth galaxies with default settings and look only at the fit quality.",
 ["diffstar/fitting_helpers/diffstar_fitting_helpers.py"],
 [("targets", "diffstar/fitting_helpers/diffstar_fitting_helpers.py:get_loss_data_default"), ("weights", "diffstar/fitting_helpers/diffstar_fitting_helpers.py:get_weights")],
 ["diffstar.fitting_helpers.diffstar_fitting_helpers.get_loss_data_default", "diffstar.fitting_helpers.diffstar_fitting_helpers.get_weights"])
prop("C11", "Fit objective compares the model history with all targets",
 "The fitting loss at any unbounded parameters is 30 times the mean squared weighted error in log stellar mass, plus the mean squared weighted errors in log averaged rate and in the clipped specific rate residual, plus half the squared final averaged-rate error, plus a penalty that approaches 100 when quenching is centred before the time of peak averaged rate and 0 when after. "
 "It is evaluated from the model history for the same halo, reference age and baryon fraction as the data, the supplied gradient is its derivative, and the fitter returns bounded parameters whose loss is the one it reports.",
 ["inputs"], "all unbounded parameters and all fit data sets and settings (floor, delay, weights, reference age, baryon fraction)",
 "Tests only assert that the loss is finite or small for self-generated data at default settings.",
 ["diffstar/fitting_helpers/diffstar_fitting_helpers.py"],
 [("objective", "diffstar/fitting_helpers/diffstar_fitting_helpers.py:loss_default_clipssfrh"), ("gradient", "diffstar/fitting_helpers/diffstar_fitting_helpers.py:loss_grad_default_clipssfrh_np"), ("fit driver", "diffstar/fitting_helpers/diffstar_fitting_helpers.py:diffstar_fitter")],
 ["diffstar.fitting_helpers.diffstar_fitting_helpers.loss_default_clipssfrh", "diffstar.fitting_helpers.diffstar_fitting_helpers.diffstar_fitter"])
prop("C12", "Fit results survive writing, collating and loading unchanged",
 "For every galaxy the text line written for it, the collated file built from all lines in order, and the columns loaded back carry the same galaxy id exactly, the same parameters and loss to the six written digits, and the same success flag, each under its own column name. "
 "Galaxies without a fit carry -99 in every parameter, loss -1 and flag -1, and a table whose column count differs from the header is refused.",
 ["inputs", "histories"], "all sequences of fitted and unfitted galaxies, ids up to 64 bits, all finite parameter values and losses and all flags",
 "Tests check the number of tokens in one line; no test collates or reloads a file.",
 ["diffstar/fitting_helpers/diffstar_fitting_helpers.py", "diffstar/data_loaders/utils.py", "diffstar/data_loaders/load_smah_data.py"],
 [("line formats", "diffstar/fitting_helpers/diffstar_fitting_helpers.py:get_outline"), ("no-fit line", "diffstar/fitting_helpers/diffstar_fitting_helpers.py:get_outline_nofit"), ("collation", "diffstar/fitting_helpers/diffstar_fitting_helpers.py:write_collated_data"), ("loaders", "diffstar/data_loaders/load_smah_data.py:load_fit_sfh")],
 ["get_header", "get_outline", "get_outline_nofit", "write_collated_data", "load_flat_hdf5", "load_fit_sfh"])
prop("C13", "Catalogue loading returns the requested rows, with unfit halos masked",
 "Loading any row range of a flat file returns, for each requested column, exactly those rows in file order, so consecutive ranges concatenate to the whole. "
 "Loading halo growth fits additionally marks halos with negative loss or too few fitted points with -1 in every growth parameter and the default halo's present mass, leaves every other halo's parameters untouched with its mass at the requested age, and treats each halo independently of the others and of the range it was loaded in.",
 ["inputs", "histories"], "all files, column subsets, row ranges (empty, partial, overlapping, past the end, negative), patterns of unfit halos, fit-point thresholds and reference ages",
 "Tests load one small test file in full and check a handful of values.",
 ["diffstar/data_loaders/utils.py", "diffstar/data_loaders/load_smah_data.py"],
 [("row slicing", "diffstar/data_loaders/utils.py:load_flat_hdf5"), ("no-fit masking", "diffstar/data_loaders/load_smah_data.py:load_smdpl_diffmah_fits"), ("path wrapper", "diffstar/data_loaders/load_smah_data.py:load_precomputed_diffmah_fits")],
 ["diffstar.data_loaders.load_flat_hdf5", "diffstar.data_loaders.load_precomputed_diffmah_fits"])
prop("C14", "Galacticus extraction keeps each galaxy's formed mass on its own row",
 "Extracting any range of galaxies gives one row per galaxy in the range, in order, holding that galaxy's total and in-situ mass formed per time step summed over metallicity bins (first half and second half of its stored rows respectively), and zeros for galaxies with no stored history, so that extracting a range equals that range of a full extraction. "
 "The target histories are the disk plus bulge formed mass divided by the step duration in years (the first step starting at time zero), and the written block reads back as the same rows.",
 ["inputs", "histories"], "all catalogues (number of galaxies, metallicity bins, steps, patterns of empty galaxies) and all extraction ranges",
 "Tests cover only the text of paths or a tiny block read; extraction is not run by any test.",
 ["diffstar/data_loaders/extract_galacticus_sfh_data.py", "diffstar/data_loaders/load_galacticus_sfh.py"],
 [("extraction", "diffstar/data_loaders/extract_galacticus_sfh_data.py:extract_galacticus_sfh_tables"), ("targets", "diffstar/data_loaders/load_galacticus_sfh.py:load_galacticus_sfh_target_data"), ("block I/O", "diffstar/data_loaders/load_galacticus_sfh.py:load_galacticus_sfh_data_block")],
 ["extract_galacticus_sfh_tables", "extract_galacticus_mah_tables", "get_nhalos_tot", "load_galacticus_sfh_target_data", "write_galacticus_sfh_data_block", "load_galacticus_sfh_data_block", "load_galacticus_diffstar_data"])
prop("C15", "Simulation loaders return consistent, aligned histories",
 "Every simulation loader returns, galaxy by galaxy in file order, the stored star formation history on the stored times and a log stellar mass equal to the log of its cumulative integral. "
 "Where a halo mass history is returned it is the running maximum of the log of the stored masses in the simulation's stated units (little-h removed where stored with it, masses below 1e7 treated as absent), and the present-day halo mass is its last entry.",
 ["inputs"], "all catalogues (sizes, times, zero star formation, non-monotonic or missing halo masses) for every supported simulation and galaxy type",
 "The loaders are not run by tests because the simulation data are not in the repository.",
 ["diffstar/data_loaders/load_smah_data.py"],
 [("Bolshoi/MDPL2 loaders", "diffstar/data_loaders/load_smah_data.py:load_bolshoi_data"), ("TNG loader", "diffstar/data_loaders/load_smah_data.py:load_tng_data"), ("SMDPL loaders", "diffstar/data_loaders/load_smah_data.py:load_SMDPL_DR1_data")],
 ["load_bolshoi_data", "load_bolshoi_small_data", "load_tng_data", "load_tng_small_data", "load_mdpl_data", "load_mdpl_small_data", "load_SMDPL_nomerging_data", "load_SMDPL_DR1_data"])
prop("C16", "Monte Carlo populations are reproducible, keyed per galaxy and local",
 "A Monte Carlo population is a deterministic function of its inputs and random key, and galaxy i of a population of n is exactly the single-galaxy realization with the i-th of n keys split from the population key, so changing one galaxy's inputs changes only that galaxy. "
 "Within a galaxy the main-sequence draw, the two quenched-sequence draws and the quenching coin each consume a different one of four keys split from the galaxy's key, so the same normal deviates are used whatever the model parameters, and different galaxies have independent draws.",
 ["inputs", "histories", "configurations"], "all keys (raw or typed), population sizes, galaxy inputs, model parameters and call orders",
 "Tests check shapes and finiteness for one key and size and never relate single and population realizations.",
 ["diffstar/diffstarpop/mc_diffstarpop_mgash.py", "diffstar/diffstarpop/kernels/diffstarpop_mgash.py"],
 [("per-galaxy key split", "diffstar/diffstarpop/mc_diffstarpop_mgash.py:mc_diffstar_u_params_galpop"), ("four-way split within a galaxy", "diffstar/diffstarpop/kernels/diffstarpop_mgash.py:mc_diffstar_u_params_singlegal_kernel")],
 ["mc_diffstar_params_singlegal", "mc_diffstar_params_galpop", "mc_diffstar_u_params_singlegal", "mc_diffstar_u_params_galpop", "mc_diffstar_sfh_singlegal", "mc_diffstar_sfh_galpop"])
prop("C17", "Each galaxy gets a valid unquenched and quenched realization and coin flip",
 "For every galaxy the main-sequence realization is never quenched (its history is the unquenched one over all cosmic time), both realizations have physical parameters inside their bounds, and the quenched probability lies in [0, 1]. "
 "The quenched flag is exactly whether a uniform deviate from the galaxy's own key is below that probability, centrals (host id -1) use the central probability whatever their infall information, and every other host id uses the satellite probability.",
 ["inputs"], "all galaxies (halo mass, peak time, host id, infall masses and times), all in-bounds population parameters including every shipped calibration, all keys",
 "Tests use a few fixed halos with default parameters and host ids -1 or 1 and check only ranges.",
 ["diffstar/diffstarpop/kernels/diffstarpop_mgash.py", "diffstar/diffstarpop/mc_diffstarpop_mgash.py", "diffstar/kernels/quenching_kernels.py"],
 [("central/satellite choice and coin", "diffstar/diffstarpop/kernels/diffstarpop_mgash.py:mc_diffstar_u_params_singlegal_kernel"), ("unquenched parameters", "diffstar/kernels/quenching_kernels.py:DEFAULT_Q_U_PARAMS_UNQUENCHED")],
 ["mc_diffstar_params_galpop", "mc_diffstar_u_params_galpop", "mc_diffstar_sfh_galpop"])
prop("C18", "Satellite quenching only adds, grows with time, and stays a probability",
 "The satellite quenched probability is the pre-infall probability plus a fraction of the remaining probability, so it lies between the pre-infall probability and 1 and never decreases with time since infall; long before infall it equals the pre-infall probability. "
 "The asymptotic fraction interpolates, in subhalo-to-host mass ratio and host mass, between the four configured corner values, and the delay interpolates in host mass between the two configured delays, with the fixed transition speeds of the model.",
 ["inputs"], "all in-bounds satellite quenching parameters, mass ratios, host masses, infall times (including negative) and pre-infall probabilities",
 "Tests evaluate a few points and check range only.",
 ["diffstar/diffstarpop/kernels/satquenchpop_model.py", "diffstar/diffstarpop/kernels/diffstarpop_mgash.py"],
 [("probability update", "diffstar/diffstarpop/kernels/satquenchpop_model.py:get_qprob_sat"), ("corner interpolation", "diffstar/diffstarpop/kernels/satquenchpop_model.py:_qprob_hi_vs_sub_host_mass")],
 ["get_qprob_sat", "predict_sat_frac_delta_qprob", "quenched probability returned by the Monte Carlo functions"])
prop("C19", "Population scaling relations give finite means, valid scatters, probabilities",
 "For every in-bounds set of population parameters, halo mass and peak time, each galaxy-parameter mean and scatter follows its own configured relation with halo mass (a two-slope line through its pivot, or a line smoothly clipped to its documented range), and only the quenching-time mean additionally shifts with peak time. "
 "Clipped means and all scatters are finite and inside their documented ranges, including for flat relations (zero slope), covariances are diagonal with the squared scatters, and central and satellite quenched fractions are probabilities from their own parameters.",
 ["inputs"], "all in-bounds population parameters (including zero and extreme slopes and every shipped calibration), all halo masses and peak times",
 "Tests check finiteness and range on a grid of halo masses with random parameters from the interior.",
 ["diffstar/diffstarpop/kernels/sfh_pdf_mgash.py", "diffstar/diffstarpop/utils.py"],
 [("means", "diffstar/diffstarpop/kernels/sfh_pdf_mgash.py:_get_mean_u_params_qseq"), ("covariances", "diffstar/diffstarpop/kernels/sfh_pdf_mgash.py:_get_covariance_qseq_q_block"), ("clipped line", "diffstar/diffstarpop/utils.py:smoothly_clipped_line"), ("quenched fractions", "diffstar/diffstarpop/kernels/sfh_pdf_mgash.py:_frac_quench_cen")],
 ["diffstar.diffstarpop.kernels.sfh_pdf_mgash._sfh_pdf_scalar_kernel", "frac_q and drawn parameters of the Monte Carlo functions"])
prop("C20", "Population parameters keep names, bounds and inverses; overrides are exact",
 "Bounding any unbounded population parameters gives values inside the published bounds of the parameter with the same name, monotone in its own input and independent of the others, and unbounding inverts it. "
 "Supplying a subset of parameters by name replaces exactly those and keeps the defaults for all others, and every shipped simulation calibration is complete, inside bounds and equal to the bounded form of its own unbounded version.",
 ["inputs", "configurations"], "all unbounded values, all in-bounds values, all subsets and field orders of named parameters, all shipped calibrations",
 "Tests round-trip default or random values positionally; mis-association between equally bounded neighbours or subset/order effects are not visible to them.",
 ["diffstar/diffstarpop/kernels/defaults_mgash.py", "diffstar/diffstarpop/kernels/sfh_pdf_mgash.py", "diffstar/diffstarpop/kernels/satquenchpop_model.py", "diffstar/diffstarpop/param_utils.py", "diffstar/diffstarpop/kernels/params/params_diffstarpopfits_mgash.py"],
 [("name-based transforms", "diffstar/diffstarpop/kernels/defaults_mgash.py:get_bounded_diffstarpop_params"), ("overrides", "diffstar/diffstarpop/param_utils.py:get_all_params_from_varied"), ("calibrations", "diffstar/diffstarpop/kernels/params/__init__.py")],
 ["get_bounded_diffstarpop_params", "get_unbounded_diffstarpop_params", "get_all_params_from_varied", "get_all_diffstarpop_u_params", "SIMULATION_FIT_PARAMS"])
prop("C21", "Monte Carlo histories are the histories of the returned parameters",
 "The main-sequence and quenched star formation histories returned with a Monte Carlo realization are exactly what the star formation history function gives for the returned main-sequence and quenched parameters, the same halos, times, reference age and baryon fraction, and the parameters, probability and flag are the same as those of the parameters-only realization with the halo's own peak time. "
 "Selecting between two parameter sets by a flag takes, galaxy by galaxy and for every parameter, the first set where the flag is true and the second where it is false.",
 ["inputs"], "all halos, keys, time grids, reference ages, baryon fractions, population parameters and selection masks, single galaxies and populations",
 "Tests check only shapes and finiteness of the returned histories.",
 ["diffstar/diffstarpop/mc_diffstarpop_mgash.py", "diffstar/diffstarpop/param_utils.py"],
 [("history of realized parameters", "diffstar/diffstarpop/mc_diffstarpop_mgash.py:mc_diffstar_sfh_galpop"), ("selection", "diffstar/diffstarpop/param_utils.py:mc_select_diffstar_params")],
 ["mc_diffstar_sfh_singlegal", "mc_diffstar_sfh_galpop", "mc_select_diffstar_params"])
prop("C22", "Differentiable histograms conserve weight and respect bins",
 "The differentiable histogram gives each N-dimensional bin the sum over points of the product over dimensions of the triweight kernel mass inside the bin, times the point's weight where weights are given. "
 "Counts are therefore non-negative for non-negative weights, additive over points and over adjacent bins, independent of point and bin order, linear in the weights, and total one per point when bins cover its kernel.",
 ["inputs"], "all point sets, scatters (per point and dimension), weights, bins (in any order, overlapping or not), and numbers of dimensions",
 "Only indirect tests exist (a stellar-to-halo mass relation on one dataset).",
 ["diffstar/diffstarpop/sumstats/diffndhist.py", "diffstar/utils.py", "diffstar/diffstarpop/utils.py"],
 [("bin weight", "diffstar/diffstarpop/sumstats/diffndhist.py:_tw_bin_weight_lax_kern"), ("n-d product and sum", "diffstar/diffstarpop/sumstats/diffndhist.py:tw_ndhist"), ("weighted sum", "diffstar/diffstarpop/sumstats/diffndhist.py:tw_ndhist_weighted"), ("scalar triweight", "diffstar/utils.py:tw_cuml_jax_kern")],
 ["tw_ndhist", "tw_ndhist_weighted", "compute_smhm", "tw_cuml_jax_kern", "tw_bin_jax_kern"])
prop("C23", "Predicted distributions are quenched-weighted mixtures that sum to one",
 "Each predicted stellar mass distribution, and each distribution of specific star formation rate at fixed stellar mass, is the normalized smooth histogram of every halo's main-sequence realization weighted by one minus its quenched probability and its quenched realization weighted by that probability, each evaluated at the observation time of that halo's redshift bin with specific rates floored at 1e-12 per year. "
 "Every distribution is non-negative and sums to one, halo-mass bins are combined with the given halo abundances and redshift indices, and satellites follow the same rule as centrals with their own data.",
 ["inputs", "configurations"], "all population parameters, halo samples, keys, observation times, bins, abundances and target selections",
 "Tests evaluate one small data set and check that loss and gradients are finite.",
 ["diffstar/diffstarpop/loss_kernels/mstar_ssfr_loss_mgash_anyz.py"],
 [("mass distribution", "diffstar/diffstarpop/loss_kernels/mstar_ssfr_loss_mgash_anyz.py:mstar_kern_tobs"), ("specific rate distribution", "diffstar/diffstarpop/loss_kernels/mstar_ssfr_loss_mgash_anyz.py:mstar_ssfr_kern_tobs"), ("satellites", "diffstar/diffstarpop/loss_kernels/mstar_ssfr_loss_mgash_anyz.py:mstar_ssfr_sat_kern_tobs")],
 ["mstar_kern_tobs", "mstar_ssfr_kern_tobs", "mstar_ssfr_sat_kern_tobs", "get_pred_*_data_wrapper"])
prop("C24", "Population losses are scaled mean squared errors that add up",
 "Each population loss is 1000 times the mean squared difference between predicted and target distributions, zero exactly when they coincide, and the combined losses are the sums of the corresponding single losses, each on its own data. "
 "The flat-array wrappers return the same loss as the named-parameter functions and the gradient of that loss in the order of the flat parameters.",
 ["inputs", "configurations"], "all population parameters, target distributions and loss data, for the mass, central, satellite and combined losses",
 "Tests assert loss > 0 and finite gradients at one parameter point.",
 ["diffstar/diffstarpop/loss_kernels/mstar_ssfr_loss_mgash_anyz.py"],
 [("mean squared error", "diffstar/diffstarpop/loss_kernels/mstar_ssfr_loss_mgash_anyz.py:_mse"), ("combined losses", "diffstar/diffstarpop/loss_kernels/mstar_ssfr_loss_mgash_anyz.py:loss_combined_3loss_kern"), ("flat wrappers", "diffstar/diffstarpop/loss_kernels/mstar_ssfr_loss_mgash_anyz.py:loss_combined_3loss_wrapper")],
 ["loss_mstar_kern_tobs", "loss_mstar_ssfr_kern_tobs", "loss_mstar_ssfr_sat_kern_tobs", "loss_combined_kern", "loss_combined_3loss_kern", "*_wrapper"])
prop("C25", "Derivatives of the histories are finite and equal to the model's own slope",
 "Automatic derivatives of star formation and stellar mass histories with respect to every galaxy and halo parameter, and of Monte Carlo histories and quenched probabilities with respect to every population parameter, are finite and equal to the limit of finite differences of the returned values wherever the model is smooth. "
 "No parameter that changes a returned value is cut off from differentiation.",
 ["inputs"], "all in-bounds parameters and times away from the kinks of the model (rate floor, halo peak time), including times far outside the quenching event",
 "Tests at most check that one loss gradient is finite; a gradient that is finite but wrong or silently zero passes.",
 ["diffstar/sfh_model.py", "diffstar/kernels/history_kernel_builders.py", "diffstar/utils.py", "diffstar/diffstarpop/kernels/diffstarpop_mgash.py"],
 [("differentiable kernels", "diffstar/kernels/history_kernel_builders.py:_sfh_singlegal_scalar"), ("reparametrized draws", "diffstar/diffstarpop/kernels/diffstarpop_mgash.py:mc_diffstar_u_params_singlegal_kernel")],
 ["jax.grad / jax.jacobian of calc_sfh_singlegal, get_bounded_diffstar_params, mc_diffstar_sfh_singlegal"])
prop("C26", "Calls are pure: no input is modified and no call affects another",
 "No public function modifies its input arrays or parameter tuples or the package's default parameters, and calling a function again with equal inputs gives the same result whatever other calls (with other shapes, values, options or errors) were made in between. "
 "Equal inputs given as numpy arrays of any memory layout or jax arrays, as Python, numpy or zero-dimensional scalars (and as lists where lists are accepted) give equal results. The restarting fitter alone draws from numpy's global random state, which counts as its input; no other call reads or moves it.",
 ["histories", "inputs"], "all interleavings of calls to the public functions, with changing shapes, options and argument types, including calls that raise",
 "Each test calls functions in isolation or in one fixed order and never re-checks inputs afterwards.",
 ["diffstar/sfh_model.py", "diffstar/mgas_model.py", "diffstar/utils.py", "diffstar/fitting_helpers/diffstar_fitting_helpers.py", "diffstar/diffstarpop/mc_diffstarpop_mgash.py"],
 [("pure jitted functions with static options", "diffstar/sfh_model.py:calc_sfh_singlegal"), ("defaults as immutable tuples, copies before modification", "diffstar/fitting_helpers/diffstar_fitting_helpers.py:get_loss_data_default")],
 ["every public function"])
prop("C27", "Sharded fitting runs fit every galaxy once and collate in catalogue order",
 "However many ranks a fitting run is split over and whatever order the ranks proceed in between barriers, every galaxy of the catalogue is handled by exactly one rank, with its own halo, history and fit eligibility, and the collated file has one row per galaxy in catalogue order, fitted or marked as not fitted. "
 "Collation never starts before every rank has finished writing, and temporary files are removed only after collation.",
 ["schedules", "configurations", "inputs"], "all rank counts (including as many ranks as galaxies), catalogue sizes, eligibility patterns and rank schedules allowed by the barriers",
 "The run scripts need an MPI cluster and simulation data and have no tests.",
 ["scripts/history_fitting_script_TNG_mgash.py", "scripts/galacticus_diffstar_fitter_script_mgash.py", "scripts/diffstar_fitting_script_umachine_mgash.py"],
 [("partition", "scripts/galacticus_diffstar_fitter_script_mgash.py"), ("barriers and collation", "scripts/history_fitting_script_TNG_mgash.py")],
 ["files written by the scripts under a stand-in communicator"])
prop("C28", "Numerical helpers obey their contracts on all shapes and values",
 "Correlation/covariance conversions are mutually inverse and leave zero entries zero; the bin-edge interpolation agrees with linear interpolation for any bracketing index; time-cell durations tile the axis; the sigmoids are monotone between their asymptotes with the stated midpoint and the inverse sigmoid inverts; the smoothly clipped line is finite, inside its bounds and equal to the line away from them. "
 "Broadcasting of scalars and equal-length arrays returns equal-length arrays in order and refuses unequal lengths.",
 ["inputs"], "all matrices with positive diagonal, tables, bracketing indices, shapes, dtypes and slopes of either sign",
 "Tests check a handful of random matrices and tables.",
 ["diffstar/utils.py", "diffstar/diffstarpop/utils.py"],
 [("covariance helpers", "diffstar/diffstarpop/utils.py:covariance_from_correlation"), ("interpolation", "diffstar/utils.py:jax_np_interp"), ("broadcast", "diffstar/utils.py:get_1d_arrays"), ("sigmoids", "diffstar/utils.py:_sigmoid")],
 ["correlation_from_covariance", "covariance_from_correlation", "jax_np_interp", "get_1d_arrays", "_get_dt_array", "_sigmoid", "_inverse_sigmoid", "sigmoid_poly", "smoothly_clipped_line"])
prop("C29", "Population fit tables pair every cell with its own halos, target and weight",
 "The data assembled for a population fit have one row for exactly each cell (target redshift and halo mass bin) which holds enough sampled halos of the fitted kind (nhalos for the stellar-to-halo mass relation, 50 for the distributions), ordered by redshift and then mass. "
 "A row holds nhalos halos drawn from its own cell and kind, without repeats while the cell has that many, with their own growth parameters, host id and present-day mass, the age of its redshift, a random key of its own, the requested reference age and baryon fraction, and the measured mean or normalised distribution of its own cell. "
 "For specific rates, every redshift lists its own rows in order, each weighted by its mass bin's share of the redshift's halos of that kind; unused places weigh zero and do not affect predictions; and each chosen stellar mass bin's target is the share-weighted mixture of the halo bins' normalised distributions (negative counts as zero), normalised to one, or zero without galaxies.",
 ["inputs", "configurations"], "all measured target files and halo samples in which every redshift has a populated cell, all numbers of halos per row, reference ages and baryon fractions",
 "The script needs measured simulation files and has no tests.",
 ["scripts/diffstarpop_scripts/fit_get_loss_helpers_mgash.py", "diffstar/diffstarpop/loss_kernels/mstar_ssfr_loss_mgash_anyz.py"],
 [("row assembly", "scripts/diffstarpop_scripts/fit_get_loss_helpers_mgash.py:get_loss_data_pdfs_mstar"), ("dense tables", "scripts/diffstarpop_scripts/fit_get_loss_helpers_mgash.py:prepare_ragged_loss_data"), ("rate targets", "scripts/diffstarpop_scripts/fit_get_loss_helpers_mgash.py:get_loss_data_pdfs_ssfr_central")],
 ["get_loss_data_smhm", "get_loss_data_pdfs_mstar", "get_loss_data_pdfs_mstar_cen", "get_loss_data_pdfs_mstar_sat", "get_loss_data_pdfs_ssfr_central", "get_loss_data_pdfs_ssfr_satellite"])
prop("C30", "Saved fit data load back unchanged",
 "Loading a file written by save_loss_data_h5 returns the three saved tuples in order, every one with its items in order: each array with the same shape, type and values, each scalar with its value, and each ragged list with all its items in order, however many there are; the file names each item of a tuple by its place. "
 "A tuple without the number of items its names require raises ValueError and leaves an earlier file of that name as it was, and saving leaves its inputs as they were. "
 "The script writes, for 10 and for 100 halos per row, the data its helpers assemble, so that they load back in the order in which the fit unpacks them.",
 ["inputs", "histories"], "all shapes and numbers of ragged items (beyond 10000), all values including NaN, infinity and negative zero, saves over earlier files, rejected saves",
 "The script runs on import and has no tests; a list long enough to change the order of its names never arises in a small example.",
 ["scripts/diffstarpop_scripts/save_loss_data.py", "scripts/diffstarpop_scripts/fit_mstar_ssfr_pdfs_mgash.py"],
 [("writer", "scripts/diffstarpop_scripts/save_loss_data.py:save_loss_data_h5"), ("reader", "scripts/diffstarpop_scripts/save_loss_data.py:load_loss_data_h5")],
 ["save_loss_data_h5", "load_loss_data_h5"])
prop("C31", "Measured target tables count each fitted galaxy once in its own cell",
 "The measured tables use exactly the galaxies whose halo and history fits both succeeded, each once, whichever rank or subvolume holds it. "
 "For each target redshift (the first tabulated time at or after its age) and each bin of halo mass at that time they hold the number of galaxies, the sum and so the mean of their log stellar masses, and the same for centrals and satellites; the distributions of stellar mass and of specific rate (not below 1e-12 per year) for centrals and satellites are soft histograms of the bin's own galaxies. "
 "Sampled halos are distinct galaxies of their own cell, with their own growth parameters, host id, type and time: each part gives its quota of each cell, or all members if it has fewer. "
 "The collected output is the sum over all parts, each read only after it was written, and temporary files are removed only after the output exists.",
 ["inputs", "schedules", "configurations"], "all assignments of subvolumes or galaxies to ranks, all fit outcomes, subvolumes without fits, all halo populations off the bin edges",
 "The scripts need simulation files and MPI, and have no tests.",
 ["scripts/diffstarpop_scripts/smhm_utils_tng_mgash.py", "scripts/diffstarpop_scripts/smhm_utils_galacticus_mgash.py", "scripts/diffstarpop_scripts/smhm_utils_smdpl_mgash.py", "scripts/diffstarpop_scripts/measure_smhm_smdpl_script_mpi_mgash.py", "scripts/diffstarpop_scripts/measure_smhm_tng_script_mpi_mgash.py", "scripts/diffstarpop_scripts/measure_smhm_galacticus_script_mpi_mgash.py"],
 [("cells", "scripts/diffstarpop_scripts/smhm_utils_smdpl_mgash.py:compute_diff_histograms_mstar_atmobs_z"), ("parts and collection", "scripts/diffstarpop_scripts/measure_smhm_smdpl_script_mpi_mgash.py")],
 ["the output files of measure_smhm_{smdpl,tng,galacticus}_script_mpi_mgash.py"])
prop("C32", "Population fits save the best parameters they visited",
 "The fitting script starts at the requested parameters (the default, a named simulation's, or those of a file) and evaluates the loss of the requested type on the data assembled for the requested directory and number of halos. "
 "Each of the n steps is one Adam update of size 0.01; a point whose loss is not finite is replaced, for its step, by the point one update of the latest usable gradient away, and the step is lost if that is unusable too; a gradient which is not finite ends the fit. "
 "The saved unbounded parameters (in single precision) are those of the smallest loss among the visited points whose loss and gradient are finite, and the saved bounded parameters are their image.",
 ["histories", "inputs", "configurations"], "all sequences of losses and gradients, finite or not, from a usable start; all numbers of steps, starts and options",
 "The outcome depends on the whole history of evaluations; the script has no tests.",
 ["scripts/diffstarpop_scripts/fit_mstar_ssfr_pdfs_mgash.py"],
 [("fitting loop", "scripts/diffstarpop_scripts/fit_mstar_ssfr_pdfs_mgash.py")],
 ["the file written by fit_mstar_ssfr_pdfs_mgash.py"])
prop("C33", "Quality curves average data and fit of the same fitted galaxies",
"For each simulation the quality file holds, in each bin of present-day halo mass and at each time of the simulation, the means of the simulated and of the fitted stellar mass and star formation rate over exactly the galaxies of all parts whose fits both succeeded and whose mass is strictly inside the bin; each galaxy contributes its own data and its own fit, interpolated linearly from its table to that time. "
"Rates of galaxies with stellar mass are not below 1e-12 per year times the mass; a galaxy for which nothing is recorded (a rate of zero, or a log mass of zero) counts in the number but adds nothing; every positive rate counts. A bin without galaxies holds NaN. "
"The in-situ file uses in-situ rates and the other one total rates, with the stellar mass formed by them; with all simulations chosen, each file is the one its simulation alone gives.",
["inputs", "configurations"], "all numbers of parts, fit outcomes, masses off the bin edges, histories with quiet or empty times",
"The script needs simulation files and has no tests; a galaxy paired with a neighbour's fit leaves plausible curves.",
["scripts/diffstarpop_scripts/calculate_quality_diffstar_fits_mgash.py"],
[("curves", "scripts/diffstarpop_scripts/calculate_quality_diffstar_fits_mgash.py")],
["the output files of calculate_quality_diffstar_fits_mgash.py"])
prop("C34", "Galacticus halo fits give one row per halo for any number of ranks",
"The halo fitting script writes one row per halo in the order of the catalogue, however many ranks share it and in whatever order they move (more ranks than halos included). "
"Each halo that lives at least the minimum time is fitted exactly once, to its own times and the running maximum of its own masses, continued at its final mass to the last time of the whole catalogue if it ends earlier; its row holds the result of that fit. Shorter-lived halos are marked with -99 and algorithm -1 and not fitted. "
"Rank files are read only after every rank has written its own, and removed only after the collated file exists; none are left.",
["schedules", "inputs", "configurations"], "all numbers of halos and ranks, all orders in which ranks move, all halo lifetimes and end times, leftovers of interrupted runs",
"The script needs MPI and simulation files and has no tests; a rank holding no halo or one halo never arises in a sample run.",
["scripts/galacticus_analysis/galacticus_diffmah_fitter_script.py", "diffstar/data_loaders/extract_galacticus_sfh_data.py"],
[("fitting and collation", "scripts/galacticus_analysis/galacticus_diffmah_fitter_script.py"), ("halo tables", "diffstar/data_loaders/extract_galacticus_sfh_data.py:extract_galacticus_mah_tables")],
["the output file of galacticus_diffmah_fitter_script.py"])
with open(os.path.join(HERE, "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
