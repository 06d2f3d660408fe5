------------------------------- MODULE MC_C06 -------------------------------
(* Averaged rates of histories built step by step: never negative, equal   *)
(* to a constant rate inside the table, local in time.                     *)
EXTENDS Histories, TLC
CONSTANTS Depth
VARIABLES ts, fs, delay
vars == <<ts, fs, delay>>
Steps == <<R("0.25"), R("1.5")>>
Rates == <<FZero, R("2.0"), R("7.0")>>
Delays == {R("0.1"), R("0.25"), R("1.0"), R("2.0"), R("20.0")}
Init == ts = <<R("0.5")>> /\ (\E k \in 1..3 : fs = <<Rates[k]>>) /\ delay \in Delays
Next == /\ Len(ts) < Depth
        /\ \E d \in 1..2, k \in 1..3 : /\ ts' = Append(ts, ts[Len(ts)] (+) Steps[d])
                                       /\ fs' = Append(fs, Rates[k])
                                       /\ (Len(ts') = Depth => PrintT(<<"SCEN", FStr(delay)>> \o
                                            [i \in 1..(2 * Depth) |-> FStr(IF i <= Depth THEN ts'[i] ELSE fs'[i - Depth])]))
        /\ UNCHANGED delay
Spec == Init /\ [][Next]_vars
M(t, f) == CumMass(t, f)
Now == Fstar(ts, M(ts, fs), delay)
Const == \A i \in 1..Len(fs) : fs[i] = fs[1]
NonNegative == \A i \in 1..Len(ts) : FZero \preceq Now[i]
ConstantRate == Const => \A i \in 1..Len(ts) : ts[1] \preceq (ts[i] (-) delay) => Close(Now[i], fs[1], R("1e-9"), R("1e-12"))
BeforeTable == \A i \in 1..Len(ts) : (ts[i] (-) delay) \preceq ts[1] =>
    Close(Now[i], ((M(ts, fs)[i] (-) M(ts, fs)[1]) (/) delay) (/) YR_PER_GYR, R("1e-12"), R("1e-30"))
\* never above the largest rate by more than the part formed outside the window
Bounded_ == \A i \in 1..Len(ts) : Now[i] \preceq (FSeqMax(fs) (.) (R("1.0000001") (+) ((ts[i] (-) ts[1]) (/) delay)))
Past == [][LET a == Fstar(ts, M(ts, fs), delay) IN SubSeq(Fstar(ts', M(ts', fs'), delay), 1, Len(ts)) = a]_vars
=============================================================================
