----------------------------- MODULE Trace_C12 -----------------------------
EXTENDS TraceBase, Catalog
\* header and column names
Header(e) == Cl("columns", e.colnames = FitColumns)
             \cup Cl("header", e.header_words = <<"#">> \o FitColumns /\ e.newlines = 1)
\* one written line: its words as text
Line(e) ==
    Then(Cl("words", Len(e.words) = 11 /\ e.newlines = 1 /\ e.ends_line),
         Cl("id", e.words[1] = e.id)
         \cup (IF e.fit
               THEN Cl("parameters", \A k \in 1..8 : SixDigits(R(e.words[1 + k]), F32(e.p[k])))
                    \cup Cl("loss", SixDigits(R(e.words[10]), e.loss))
                    \cup Cl("flag", e.words[11] = ToString(e.flag))
               ELSE Cl("nofit_parameters", \A k \in 1..8 : FEq(R(e.words[1 + k]), NOFIT))
                    \cup Cl("nofit_loss", FEq(R(e.words[10]), NOFIT_LOSS))
                    \cup Cl("nofit_flag", e.words[11] = "-1")))
\* a collated file read back: columns by name, against the lines' words
Cols(e, name) == e.columns[name]
Loaded(e) ==
    LET n == Len(e.lines)
        val(i, c) == R(e.lines[i][c])
    IN Then(Cl("names", \A c \in 1..11 : FitColumns[c] \in DOMAIN e.columns),
       Then(Cl("rows", \A c \in 1..11 : Len(Cols(e, FitColumns[c])) = n),
         Cl("id", \A i \in 1..n : Cols(e, "halo_id")[i] = e.lines[i][1])
         \cup Cl("success", \A i \in 1..n : Cols(e, "success")[i] = e.lines[i][11])
         \cup UNION {Cl(FitColumns[c], \A i \in 1..n : Close(Cols(e, FitColumns[c])[i], val(i, c), R("1e-15"), FZero)) : c \in 2..10}))
FitSfh(e) ==
    LET n == Len(e.lines) IN
    Then(Cl("shape", e.shape_ms = <<n, 4>> /\ e.shape_q = <<n, 4>>),
         Cl("main_sequence", \A i \in 1..n, k \in 1..4 : Close(e.ms[i][k], R(e.lines[i][1 + k]), R("1e-15"), FZero))
         \cup Cl("quenching", \A i \in 1..n, k \in 1..4 : Close(e.q[i][k], R(e.lines[i][5 + k]), R("1e-15"), FZero)))
Check(e) ==
    IF e.op = "refuse" THEN Cl("accepted_mismatch", Has(e, "exc"))
    ELSE IF Has(e, "exc") THEN Raised(e)
    ELSE CASE e.op = "header" -> Header(e)
           [] e.op = "line" -> Line(e)
           [] e.op = "loaded" -> Loaded(e)
           [] e.op = "fit_sfh" -> FitSfh(e)
           [] OTHER -> {"unexplained"}
TInv == Report(l, Check(Trace[l]))
=============================================================================
