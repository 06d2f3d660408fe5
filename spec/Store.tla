------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* Files which keep tuples of named fields.  A field is a tree: a leaf     *)
(* (number) or a sequence of trees.  Rectangular trees are kept as one     *)
(* dataset, ragged ones item by item under numbered names, which a reader  *)
(* must put back into numerical order.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* decimal digits of i >= 0, padded with zeros to at least w digits
RECURSIVE Digits(_)
Digits(i) == IF i < 10 THEN <<i>> ELSE Append(Digits(i \div 10), i % 10)
RECURSIVE Padded(_, _)
Padded(d, w) == IF Len(d) >= w THEN d ELSE Padded(<<0>> \o d, w)
Name(i, w) == Padded(Digits(i), w)
RECURSIVE Before(_, _)
Before(a, b) == IF a = <<>> THEN b # <<>> ELSE IF b = <<>> THEN FALSE
                ELSE a[1] < b[1] \/ (a[1] = b[1] /\ Before(Tail(a), Tail(b)))
RECURSIVE Value(_)
Value(d) == IF d = <<>> THEN 0 ELSE 10 * Value(SubSeq(d, 1, Len(d) - 1)) + d[Len(d)]
\* items of a group in the order in which a reader takes them
InOrderOf(S, less(_, _)) == [k \in 1..Cardinality(S) |-> CHOOSE x \in S : Cardinality({y \in S : less(y, x)}) = k - 1]
ByText(S) == InOrderOf(S, Before)
ByNumber(S) == LET less(a, b) == Value(a) < Value(b) IN InOrderOf(S, less)
\* names of the items of the three tuples, in order
SHARED == <<"mah_params_data", "logmp0_data", "upid_data", "lgmu_infall_data", "logmhost_infall_data", "gyr_since_infall_data", "ran_key_data",
            "t_obs_targets", "lgt0", "fb">>
MSTAR_NAMES == SHARED \o <<"logmstar_bins_pdf", "mstar_counts_target">>
RATES(mhalo, target) == SHARED \o <<"ndbins_lo", "ndbins_hi", "logmstar_bins_pdf", "logssfr_bins_pdf", mhalo, "indx_pdf", "target_mstar_ids", target>>
NAMES == <<MSTAR_NAMES, RATES("mhalo_pdf_cen_ragged", "target_data"), RATES("mhalo_pdf_sat_ragged", "target_data_sat")>>
GROUPS == <<"loss_data_mstar", "loss_data_ssfr", "loss_data_ssfr_sat">>
RangeOf(s) == {s[i] : i \in 1..Len(s)}
=============================================================================
