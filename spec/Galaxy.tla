------------------------------- MODULE Galaxy ------------------------------
(***************************************************************************)
(* A single galaxy: parameters, their bounds, and the in-situ star         *)
(* formation rate at one time.                                             *)
(*                                                                         *)
(*   gal = <<lgmcrit, lgy_at_mcrit, indx_lo, indx_hi,                      *)
(*           lg_qt, qlglgdt, lg_drop, lg_rejuv>>                           *)
(*   mah = <<logm0, logtc, early_index, late_index, t_peak>>               *)
(***************************************************************************)
EXTENDS Kernels

SFR_MIN == R("1e-14")
T_BIRTH == R("0.001")
YR_PER_GYR == R("1e9")
INDX_K == R("9.0")
MAH_K == R("3.5")

GalNames == <<"lgmcrit", "lgy_at_mcrit", "indx_lo", "indx_hi",
              "lg_qt", "qlglgdt", "lg_drop", "lg_rejuv">>
MahNames == <<"logm0", "logtc", "early_index", "late_index", "t_peak">>

GalLo == <<R("9.0"), R("-12.0"), R("0.0"), R("-5.0"), R("0.1"), R("-3.0"), R("-3.0"), R("-3.0")>>
GalHi == <<R("13.5"), R("-8.0"), R("5.0"), R("0.0"), R("2.0"), R("-0.01"), R("0.0"), R("0.0")>>
GalDefault == <<R("12.0"), R("-10.0"), R("1.0"), R("-1.0"),
                R("1.0"), R("-0.50725"), R("-1.01773"), R("-0.212307")>>
\* unbounded quenching parameters of a galaxy that never quenches
U_UNQUENCHED == R("5.0")

----------------------------------------------------------------------------
\* Bounding.  Only lg_rejuv is coupled: its lower bound is lg_drop, while the
\* location and speed of its sigmoid stay those of the full interval.
RejuvK == R("4.0") (/) (GalHi[8] (-) GalLo[8])
RejuvX0 == FHalf (.) (GalLo[8] (+) GalHi[8])
BoundRejuv(u, lgdrop) == Sigmoid(u, RejuvX0, RejuvK, lgdrop, GalHi[8])
UnboundRejuv(p, lgdrop) == InvSigmoid(p, RejuvX0, RejuvK, lgdrop, GalHi[8])

BoundGal(u) ==
    LET b(i) == Bounded(u[i], GalLo[i], GalHi[i])
        first == Vec(7, b)
    IN Append(first, BoundRejuv(u[8], first[7]))
UnboundGal(p) ==
    LET b(i) == Unbounded(p[i], GalLo[i], GalHi[i])
    IN Append(Vec(7, b), UnboundRejuv(p[8], p[7]))

\* (up to a slack for the rounding of the bounding transform itself)
GalInBoundsTol(p, tol) ==
    /\ \A i \in 1..7 : (GalLo[i] (-) tol) \preceq p[i] /\ p[i] \preceq (GalHi[i] (+) tol)
    /\ (p[7] (-) tol) \preceq p[8] /\ p[8] \preceq (GalHi[8] (+) tol)
GalInBounds(p) == GalInBoundsTol(p, R("1e-14"))

----------------------------------------------------------------------------
\* Halo growth (environment: computed by diffmah): rolling power law in time,
\* frozen at the peak time.
LogMahNoPeak(mah, t, lgt0) ==
    LET lgt == FLog10(t)
        idx == Sigmoid(lgt, mah[2], MAH_K, mah[3], mah[4])
    IN (idx (.) (lgt (-) lgt0)) (+) mah[1]
LogMah(mah, t, lgt0) ==
    IF t \prec mah[5] THEN LogMahNoPeak(mah, t, lgt0) ELSE LogMahNoPeak(mah, mah[5], lgt0)
\* dM/dt in Msun/yr; zero strictly after the peak time
Dmhdt(mah, t, lgt0) ==
    IF mah[5] \prec t THEN FZero ELSE
    LET lgt == FLog10(t)
        s == Logistic(MAH_K (.) (lgt (-) mah[2]))
        idx == mah[3] (+) ((mah[4] (-) mah[3]) (.) s)
        didx == (mah[4] (-) mah[3]) (.) ((MAH_K (.) s) (.) (FOne (-) s))
        slope == idx (+) (didx (.) (lgt (-) lgt0))
        m == FPow10((idx (.) (lgt (-) lgt0)) (+) mah[1])
    IN ((m (.) slope) (/) t) (/) YR_PER_GYR

----------------------------------------------------------------------------
\* Main sequence: log efficiency is linear in log halo mass about lgmcrit with
\* slope rolling from indx_lo to indx_hi.
LogEff(lgm, gal) ==
    LET slope == Sigmoid(lgm, gal[1], INDX_K, gal[3], gal[4])
    IN gal[2] (+) (slope (.) (lgm (-) gal[1]))
MsSfr(gal, mah, t, lgt0, fb) ==
    LET lgm == LogMah(mah, t, lgt0)
    IN (fb (.) FPow10(lgm)) (.) FPow10(LogEff(lgm, gal))

----------------------------------------------------------------------------
\* Quenching: log10 of the factor drops from 0 to drop along a triweight CDF
\* over the first half of the event and returns to rejuv over the second half.
\* dt is the full duration in dex.
LogQuench(lgt, lgqt, dt, drop, rejuv) ==
    LET h == dt (/) R("12.0")
        y == (lgt (-) lgqt) (/) h
    IN IF y \prec FZero
       THEN drop (.) TwCdf(y (+) R("3.0"))
       ELSE drop (-) ((drop (-) rejuv) (.) TwCdf(y (-) R("3.0")))
Quench(lgt, lgqt, dt, drop, rejuv) == FPow10(LogQuench(lgt, lgqt, dt, drop, rejuv))
GalQuench(gal, t) == Quench(FLog10(t), gal[5], FPow10(gal[6]), gal[7], gal[8])

\* half-width of the quenching event, and its three phases
QuenchStart(gal) == gal[5] (-) (FHalf (.) FPow10(gal[6]))
QuenchEnd(gal) == gal[5] (+) (FHalf (.) FPow10(gal[6]))

----------------------------------------------------------------------------
\* The star formation rate
RawSfr(gal, mah, t, lgt0, fb) == MsSfr(gal, mah, t, lgt0, fb) (.) GalQuench(gal, t)
Sfr(gal, mah, t, lgt0, fb) ==
    LET s == RawSfr(gal, mah, t, lgt0, fb) IN IF s \prec SFR_MIN THEN SFR_MIN ELSE s
SfhTable(gal, mah, ts, lgt0, fb) ==
    LET f(i) == Sfr(gal, mah, ts[i], lgt0, fb) IN Vec(Len(ts), f)
=============================================================================
