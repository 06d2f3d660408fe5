------------------------------ MODULE Population ----------------------------
(***************************************************************************)
(* The galaxy population model: scaling relations of the mean and scatter  *)
(* of every galaxy parameter with halo mass, quenched probabilities of     *)
(* centrals and satellites, and the Monte Carlo realization of a galaxy    *)
(* from its own random key.                                                *)
(*                                                                         *)
(* Population parameters are a record p whose fields are PopNames.         *)
(***************************************************************************)
EXTENDS Galaxy

PopNames ==
  <<
     "frac_quench_cen_x0_tpeak", "frac_quench_cen_k_tpeak", "frac_quench_cen_x0_ylotpeak", "frac_quench_cen_x0_yhitpeak",
     "frac_quench_cen_ylo_ylotpeak", "frac_quench_cen_ylo_yhitpeak", "frac_quench_cen_k", "frac_quench_cen_yhi",
     "frac_quench_sat_x0_tpeak", "frac_quench_sat_k_tpeak", "frac_quench_sat_x0_ylotpeak", "frac_quench_sat_x0_yhitpeak",
     "frac_quench_sat_ylo_ylotpeak", "frac_quench_sat_ylo_yhitpeak", "frac_quench_sat_k", "frac_quench_sat_yhi",
     "mean_ulgm_mseq_xtp", "mean_ulgm_mseq_ytp", "mean_ulgm_mseq_lo", "mean_ulgm_mseq_hi",
     "mean_ulgy_mseq_xtp", "mean_ulgy_mseq_ytp", "mean_ulgy_mseq_lo", "mean_ulgy_mseq_hi",
     "mean_ul_mseq_int", "mean_ul_mseq_slp", "mean_uh_mseq_int", "mean_uh_mseq_slp",
     "mean_ulgm_qseq_xtp", "mean_ulgm_qseq_ytp", "mean_ulgm_qseq_lo", "mean_ulgm_qseq_hi",
     "mean_ulgy_qseq_xtp", "mean_ulgy_qseq_ytp", "mean_ulgy_qseq_lo", "mean_ulgy_qseq_hi",
     "mean_ul_qseq_int", "mean_ul_qseq_slp", "mean_uh_qseq_int", "mean_uh_qseq_slp",
     "mean_uqt_xtp", "mean_uqt_ytp", "mean_uqt_lo", "mean_uqt_hi",
     "mean_uqs_int", "mean_uqs_slp", "mean_udrop_int", "mean_udrop_slp",
     "mean_urej_int", "mean_urej_slp", "std_ulgm_mseq_int", "std_ulgm_mseq_slp",
     "std_ulgy_mseq_int", "std_ulgy_mseq_slp", "std_ul_mseq_int", "std_ul_mseq_slp",
     "std_uh_mseq_int", "std_uh_mseq_slp", "std_ulgm_qseq_int", "std_ulgm_qseq_slp",
     "std_ulgy_qseq_int", "std_ulgy_qseq_slp", "std_ul_qseq_int", "std_ul_qseq_slp",
     "std_uh_qseq_int", "std_uh_qseq_slp", "std_uqt_int", "std_uqt_slp",
     "std_uqs_int", "std_uqs_slp", "std_udrop_int", "std_udrop_slp",
     "std_urej_int", "std_urej_slp", "delta_uqt_x0", "delta_uqt_k",
     "delta_uqt_ylo", "delta_uqt_yhi", "delta_uqt_slope", "qp_lgmh_crit",
     "td_lgmhc", "td_mlo", "td_mhi", "qphi_lgmu_crit",
     "lgmu_lo_mh_lo", "lgmu_hi_mh_lo", "lgmu_lo_mh_hi", "lgmu_hi_mh_hi"
  >>
PopLo ==
  <<R("1.0"), R("0.01"), R("11.0"), R("11.0"), R("0.0"), R("0.0"), R("0.01"), R("0.0"),
     R("1.0"), R("0.01"), R("11.0"), R("11.0"), R("0.0"), R("0.0"), R("0.01"), R("0.0"),
     R("11.0"), R("11.0"), R("-1.0"), R("-5.0"), R("11.0"), R("-13.0"), R("-1.0"), R("-5.0"),
     R("-3.0"), R("-20.0"), R("-5.0"), R("-20.0"), R("11.0"), R("11.0"), R("-1.0"), R("-5.0"),
     R("11.0"), R("-13.0"), R("-1.0"), R("-5.0"), R("-3.0"), R("-20.0"), R("-5.0"), R("-20.0"),
     R("11.0"), R("0.0"), R("-1.0"), R("-1.0"), R("-5.0"), R("-20.0"), R("-3.0"), R("-20.0"),
     R("-10.0"), R("-20.0"), R("0.01"), R("-1.0"), R("0.01"), R("-1.0"), R("0.01"), R("-1.0"),
     R("0.01"), R("-1.0"), R("0.01"), R("-1.0"), R("0.01"), R("-1.0"), R("0.01"), R("-1.0"),
     R("0.01"), R("-1.0"), R("0.01"), R("-1.0"), R("0.01"), R("-1.0"), R("0.01"), R("-1.0"),
     R("0.01"), R("-1.0"), R("1.0"), R("0.01"), R("-1.0"), R("-1.0"), R("-0.1"), R("11.0"),
     R("11.0"), R("-5.0"), R("-5.0"), R("-4.0"), R("0.0"), R("0.0"), R("0.0"), R("0.0")>>
PopHi ==
  <<R("14.0"), R("10.0"), R("14.0"), R("14.0"), R("1.0"), R("1.0"), R("5.0"), R("1.0"),
     R("14.0"), R("10.0"), R("14.0"), R("14.0"), R("1.0"), R("1.0"), R("5.0"), R("1.0"),
     R("14.0"), R("14.0"), R("5.0"), R("1.0"), R("14.0"), R("-8.0"), R("5.0"), R("1.0"),
     R("5.0"), R("20.0"), R("3.0"), R("20.0"), R("14.0"), R("14.0"), R("5.0"), R("1.0"),
     R("14.0"), R("-8.0"), R("5.0"), R("1.0"), R("5.0"), R("20.0"), R("3.0"), R("20.0"),
     R("14.0"), R("2.0"), R("0.0"), R("0.0"), R("2.0"), R("20.0"), R("2.0"), R("20.0"),
     R("2.0"), R("20.0"), R("1.0"), R("1.0"), R("1.0"), R("1.0"), R("3.0"), R("1.0"),
     R("3.0"), R("1.0"), R("1.0"), R("1.0"), R("1.0"), R("1.0"), R("3.0"), R("1.0"),
     R("3.0"), R("1.0"), R("0.5"), R("1.0"), R("1.0"), R("1.0"), R("2.0"), R("1.0"),
     R("2.0"), R("1.0"), R("14.0"), R("5.0"), R("1.0"), R("1.0"), R("0.1"), R("15.0"),
     R("15.0"), R("10.0"), R("10.0"), R("-0.1"), R("1.0"), R("1.0"), R("1.0"), R("1.0")>>
PopDefault ==
  <<R("9.731"), R("9.989"), R("13.998"), R("13.654"), R("0.999"), R("0.302"), R("2.169"), R("0.999"),
     R("9.464"), R("0.587"), R("11.097"), R("13.986"), R("0.501"), R("0.001"), R("4.995"), R("0.999"),
     R("12.9"), R("12.526"), R("0.745"), R("-0.061"), R("11.885"), R("-10.536"), R("1.644"), R("0.461"),
     R("-2.806"), R("-0.321"), R("-4.995"), R("1.479"), R("13.349"), R("12.24"), R("0.345"), R("-0.122"),
     R("11.938"), R("-9.896"), R("0.922"), R("0.45"), R("-0.597"), R("0.255"), R("-1.44"), R("-0.799"),
     R("11.305"), R("1.181"), R("-0.001"), R("-0.445"), R("0.665"), R("0.073"), R("-2.997"), R("0.96"),
     R("-4.668"), R("2.971"), R("0.063"), R("-0.058"), R("0.057"), R("0.246"), R("0.871"), R("-0.999"),
     R("0.011"), R("0.014"), R("0.44"), R("-0.309"), R("0.045"), R("0.119"), R("0.762"), R("0.636"),
     R("0.011"), R("0.001"), R("0.054"), R("0.021"), R("0.077"), R("0.074"), R("0.288"), R("-0.999"),
     R("0.965"), R("-0.998"), R("1.001"), R("0.578"), R("-0.569"), R("0.309"), R("0.098"), R("13.0"),
     R("13.0"), R("2.0"), R("-0.5"), R("-1.5"), R("0.1"), R("0.5"), R("0.5"), R("0.9")>>
NPop == Len(PopNames)
PopIdx == [n \in {PopNames[i] : i \in 1..NPop} |-> CHOOSE i \in 1..NPop : PopNames[i] = n]
PopRec(v) == [n \in DOMAIN PopIdx |-> v[PopIdx[n]]]
\* the satellite quenching part is the last nine
SatNames == SubSeq(PopNames, NPop - 8, NPop)

PopBound(i, u) == PopBounded(u, PopLo[i], PopHi[i])
PopUnbound(i, p) == PopUnbounded(p, PopLo[i], PopHi[i])
\* replacement of a subset (a record) of the defaults by name
Override(default, sub) == [n \in DOMAIN default |-> IF n \in DOMAIN sub THEN sub[n] ELSE default[n]]

----------------------------------------------------------------------------
\* Scaling relations with present-day log halo mass x
LGM_X0 == R("12.5")
TwoSlope(x, xtp, ytp, lo, hi) == ytp (+) (Sigmoid(x, xtp, R("3.0"), lo, hi) (.) (x (-) xtp))
Line(x, y0, m, ylo, yhi) == ClippedLine(x, LGM_X0, y0, m, ylo, yhi)

DeltaQt(p, x, tpeak) ==
    Sigmoid(tpeak, p.delta_uqt_x0, p.delta_uqt_k, p.delta_uqt_ylo, p.delta_uqt_yhi)
    (+) ((x (-) LGM_X0) (.) p.delta_uqt_slope)

\* documented ranges of clipped means (indx_lo, indx_hi, qlglgdt, drop, rejuv)
MeanLo == [ul |-> R("-3.0"), uh |-> R("-5.0"), uqs |-> R("-5.0"), udrop |-> R("-3.0"), urej |-> R("-10.0")]
MeanHi == [ul |-> R("5.0"), uh |-> R("3.0"), uqs |-> R("2.0"), udrop |-> R("2.0"), urej |-> R("2.0")]
StdLo == R("0.01")
StdHi == [ulgm |-> R("1.0"), ulgy |-> R("1.0"), ul |-> R("3.0"), uh |-> R("3.0"),
          uqt |-> R("0.5"), uqs |-> R("1.0"), udrop |-> R("2.0"), urej |-> R("2.0")]

MeansMs(p, x) ==
    << TwoSlope(x, p.mean_ulgm_mseq_xtp, p.mean_ulgm_mseq_ytp, p.mean_ulgm_mseq_lo, p.mean_ulgm_mseq_hi),
       TwoSlope(x, p.mean_ulgy_mseq_xtp, p.mean_ulgy_mseq_ytp, p.mean_ulgy_mseq_lo, p.mean_ulgy_mseq_hi),
       Line(x, p.mean_ul_mseq_int, p.mean_ul_mseq_slp, MeanLo.ul, MeanHi.ul),
       Line(x, p.mean_uh_mseq_int, p.mean_uh_mseq_slp, MeanLo.uh, MeanHi.uh) >>
MeansQ(p, x, tpeak) ==
    << TwoSlope(x, p.mean_ulgm_qseq_xtp, p.mean_ulgm_qseq_ytp, p.mean_ulgm_qseq_lo, p.mean_ulgm_qseq_hi),
       TwoSlope(x, p.mean_ulgy_qseq_xtp, p.mean_ulgy_qseq_ytp, p.mean_ulgy_qseq_lo, p.mean_ulgy_qseq_hi),
       Line(x, p.mean_ul_qseq_int, p.mean_ul_qseq_slp, MeanLo.ul, MeanHi.ul),
       Line(x, p.mean_uh_qseq_int, p.mean_uh_qseq_slp, MeanLo.uh, MeanHi.uh),
       TwoSlope(x, p.mean_uqt_xtp, p.mean_uqt_ytp, p.mean_uqt_lo, p.mean_uqt_hi) (+) DeltaQt(p, x, tpeak),
       Line(x, p.mean_uqs_int, p.mean_uqs_slp, MeanLo.uqs, MeanHi.uqs),
       Line(x, p.mean_udrop_int, p.mean_udrop_slp, MeanLo.udrop, MeanHi.udrop),
       Line(x, p.mean_urej_int, p.mean_urej_slp, MeanLo.urej, MeanHi.urej) >>
StdsMs(p, x) ==
    << Line(x, p.std_ulgm_mseq_int, p.std_ulgm_mseq_slp, StdLo, StdHi.ulgm),
       Line(x, p.std_ulgy_mseq_int, p.std_ulgy_mseq_slp, StdLo, StdHi.ulgy),
       Line(x, p.std_ul_mseq_int, p.std_ul_mseq_slp, StdLo, StdHi.ul),
       Line(x, p.std_uh_mseq_int, p.std_uh_mseq_slp, StdLo, StdHi.uh) >>
StdsQ(p, x) ==
    << Line(x, p.std_ulgm_qseq_int, p.std_ulgm_qseq_slp, StdLo, StdHi.ulgm),
       Line(x, p.std_ulgy_qseq_int, p.std_ulgy_qseq_slp, StdLo, StdHi.ulgy),
       Line(x, p.std_ul_qseq_int, p.std_ul_qseq_slp, StdLo, StdHi.ul),
       Line(x, p.std_uh_qseq_int, p.std_uh_qseq_slp, StdLo, StdHi.uh),
       Line(x, p.std_uqt_int, p.std_uqt_slp, StdLo, StdHi.uqt),
       Line(x, p.std_uqs_int, p.std_uqs_slp, StdLo, StdHi.uqs),
       Line(x, p.std_udrop_int, p.std_udrop_slp, StdLo, StdHi.udrop),
       Line(x, p.std_urej_int, p.std_urej_slp, StdLo, StdHi.urej) >>
StdHis == <<StdHi.ulgm, StdHi.ulgy, StdHi.ul, StdHi.uh, StdHi.uqt, StdHi.uqs, StdHi.udrop, StdHi.urej>>
\* ranges of the clipped means: <<position in MeansQ, lo, hi>>
ClippedMeans == << <<3, MeanLo.ul, MeanHi.ul>>, <<4, MeanLo.uh, MeanHi.uh>>, <<6, MeanLo.uqs, MeanHi.uqs>>,
                   <<7, MeanLo.udrop, MeanHi.udrop>>, <<8, MeanLo.urej, MeanHi.urej>> >>

----------------------------------------------------------------------------
\* Quenched probabilities before infall
FracQCen(p, x, tpeak) ==
    LET x0 == Sigmoid(tpeak, p.frac_quench_cen_x0_tpeak, p.frac_quench_cen_k_tpeak, p.frac_quench_cen_x0_ylotpeak, p.frac_quench_cen_x0_yhitpeak)
        ylo == Sigmoid(tpeak, p.frac_quench_cen_x0_tpeak, p.frac_quench_cen_k_tpeak, p.frac_quench_cen_ylo_ylotpeak, p.frac_quench_cen_ylo_yhitpeak)
    IN Sigmoid(x, x0, p.frac_quench_cen_k, ylo, p.frac_quench_cen_yhi)
FracQSat(p, x, tpeak) ==
    LET x0 == Sigmoid(tpeak, p.frac_quench_sat_x0_tpeak, p.frac_quench_sat_k_tpeak, p.frac_quench_sat_x0_ylotpeak, p.frac_quench_sat_x0_yhitpeak)
        ylo == Sigmoid(tpeak, p.frac_quench_sat_x0_tpeak, p.frac_quench_sat_k_tpeak, p.frac_quench_sat_ylo_ylotpeak, p.frac_quench_sat_ylo_yhitpeak)
    IN Sigmoid(x, x0, p.frac_quench_sat_k, ylo, p.frac_quench_sat_yhi)

\* every output of the scaling relations: probabilities (1, 2), means of the
\* main sequence (3..6) and of the quenched sequence (7..14), scatters of the
\* main (15..18) and of the quenched sequence (19..26)
PopOuts(p, x, t) == <<FracQCen(p, x, t), FracQSat(p, x, t)>> \o MeansMs(p, x) \o MeansQ(p, x, t) \o StdsMs(p, x) \o StdsQ(p, x)

\* Satellites: a fraction of the remaining probability is added after infall.
LGMH_K == R("5.0")
LGMU_K == R("2.0")
QUENCH_K == R("5.0")
QprobHi(p, lgmu, lgmhost) ==
    Sigmoid(lgmhost, p.qp_lgmh_crit, LGMH_K,
            Sigmoid(lgmu, p.qphi_lgmu_crit, LGMU_K, p.lgmu_lo_mh_lo, p.lgmu_hi_mh_lo),
            Sigmoid(lgmu, p.qphi_lgmu_crit, LGMU_K, p.lgmu_lo_mh_hi, p.lgmu_hi_mh_hi))
TDelay(p, lgmhost) == Sigmoid(lgmhost, p.td_lgmhc, LGMH_K, p.td_mlo, p.td_mhi)
SatFraction(p, lgmu, lgmhost, gyr) ==
    Sigmoid(gyr, TDelay(p, lgmhost), QUENCH_K, FZero, QprobHi(p, lgmu, lgmhost))
AddQuench(q0, frac) == q0 (+) (frac (.) (FOne (-) q0))
SatQprob(p, lgmu, lgmhost, gyr, q0) == AddQuench(q0, SatFraction(p, lgmu, lgmhost, gyr))

\* h = [logmp0, tpeak, upid, lgmu, lgmhost, gyr]
QuenchProb(p, h) ==
    IF h.upid = -1 THEN FracQCen(p, h.logmp0, h.tpeak)
    ELSE SatQprob(p, h.lgmu, h.lgmhost, h.gyr, FracQSat(p, h.logmp0, h.tpeak))

----------------------------------------------------------------------------
\* Realization of a galaxy.  z[k] are the four standard normal deviates which
\* the k-th of the four keys of the galaxy yields and r[k] its uniform deviate.
\* A draw is an assignment of keys to <<main sequence, quenched sequence (main
\* sequence block), quenched sequence (quenching block), coin>>.
DrawMs(p, h, z) ==
    LET m == MeansMs(p, h.logmp0)  s == StdsMs(p, h.logmp0)
        f(i) == m[i] (+) (s[i] (.) z[i])
    IN Vec(4, f) \o <<U_UNQUENCHED, U_UNQUENCHED, U_UNQUENCHED, U_UNQUENCHED>>
DrawQ(p, h, z1, z2) ==
    LET m == MeansQ(p, h.logmp0, h.tpeak)  s == StdsQ(p, h.logmp0)
        f(i) == m[i] (+) (s[i] (.) (IF i <= 4 THEN z1[i] ELSE z2[i - 4]))
    IN Vec(8, f)
IsQuenched(p, h, r) == r \prec QuenchProb(p, h)
\* a galaxy on the main sequence has the unquenched history
MainSeqSfh(gal, mah, ts, lgt0, fb) ==
    LET f(i) == LET s == MsSfr(gal, mah, ts[i], lgt0, fb) IN IF s \prec SFR_MIN THEN SFR_MIN ELSE s
    IN Vec(Len(ts), f)
\* choice between two parameter sets
Select(a, b, flag) == IF flag THEN a ELSE b
=============================================================================
