-------------------------- MODULE SimulationTrace --------------------------
(***************************************************************************)
(* C31.  in : [p, N, fs, calls: <<[Nsim, direc]>>, files]                  *)
(*       out: runs[i] = [table: <<[name, values]>>, figures: <<[path,      *)
(*                       panels: << <<[kind, label, x, y]>> >>, pdf]>>,    *)
(*                       same, rng_ok, warn_ok]                            *)
(*            refs[i] = the valuation (C29) with the documented parameters *)
(* A run values the bank at each factor value, then an analyst fits        *)
(* Merton's model to each equity value and volatility in turn (one step    *)
(* each), then the table and the figures are made.                         *)
(***************************************************************************)
EXTENDS TraceBase, MertonFit
VARIABLES c, i, k, fits, bad
vars == <<c, i, k, fits, bad>>
View == <<c, i, k>>
P(x) == In(x).p
NRuns(x) == Len(In(x).calls)
Run(x, n) == Out(x).runs[n]
Ref(x, n) == Out(x).refs[n]
Init == c \in 1 .. NCases /\ i = 1 /\ k = 0 /\ fits = <<>> /\ bad = {}
Usable(x) == Returned(x)
K == Len(In(c).fs)
Fresh == Run(c, i).same = i
Going == Usable(c) /\ i <= NRuns(c)
\* the documented parameters are those of the simulation
Begin == /\ Going /\ k = 0
         /\ bad' = bad \cup Must("harness: documented parameters", /\ \A x \in DOMAIN Sim : RNear(P(c)[x], Sim[x], 0, "1E-14")
                                                                  /\ SNear(In(c).fs, SimFs, 1, "1E-14") /\ In(c).N = Cohorts0)
         /\ k' = 1 /\ fits' = <<>> /\ UNCHANGED <<c, i>>
FitOne == /\ Going /\ k >= 1 /\ k <= K
          /\ \E v \in {Ref(c, Run(c, i).same)} : \E p \in {P(c)} :
               fits' = Append(fits, Fit(v.Et[k], p.D, p.r, p.y, p.H, v.sigEt[k]))
          /\ k' = k + 1 /\ UNCHANGED <<c, i, bad>>
\* the fits of a repeated call are those of the call it repeats
Skip == /\ Going /\ k = 1 /\ ~Fresh
        /\ k' = K + 2 /\ UNCHANGED <<c, i, fits, bad>>
MProb(x) == IF fits[x].ok THEN DefaultProb(fits[x].A, fits[x].s, P(c).D, P(c).r, P(c).y, P(c).H) ELSE "NaN"
MSpread(x) == IF fits[x].ok THEN MertonSpread(fits[x].A, fits[x].s, P(c).D, P(c).r, P(c).y, P(c).H) ELSE "NaN"
\* ---- the table ----------------------------------------------------------
Shown == <<"No shock", "+ve shock", "-ve shock">>
Column(mFt) == LET j == NoShock(mFt, P(c)) IN <<j, j + Shift, j - Shift>>
\* two decimals; what the analyst's fit leaves open is not compared
Entry(row, n, want, slack) ==
    IF ~RIsFinite(want) THEN {}
    ELSE IF RIsFinite(row.values[n]) /\ RLe(RAbs(RSub(row.values[n], want)), RAdd("0.0050001", slack)) THEN {}
    ELSE MustD("Table 1: " \o row.name, FALSE, Shown[n] \o ": got " \o RStr(row.values[n]) \o " want " \o RStr(want))
Row(name, want(_), cols, slack) ==
    LET rows == {n \in Idx(Run(c, i).table) : Run(c, i).table[n].name = name}
    IN  IF Cardinality(rows) # 1 THEN MustD("Table 1 has its rows", FALSE, name)
        ELSE LET row == Run(c, i).table[CHOOSE n \in rows : TRUE] IN UNION {Entry(row, n, want(cols[n]), slack) : n \in 1 .. 3}
Table(v) ==
    LET cols == Column(v.mFt)
        p == P(c)
    IN  Row("Agg. Borrower Asset Value", LAMBDA x : v.mFt[x], cols, 0)
        \cup Row("Bank Asset Value", LAMBDA x : v.Lt[x], cols, 0)
        \cup Row("Bank Market Equity/Market Assets", LAMBDA x : RDiv(v.Et[x], RAdd(v.Et[x], v.Bt[x])), cols, 0)
        \cup Row("Bank 5Y RN Default Prob.", LAMBDA x : v.mdef[x], cols, 0)
        \cup Row("Bank Credit Spread (%)", LAMBDA x : RMul(100, Spread(p.D, v.Bt[x], p.r, p.H)), cols, 0)
        \cup Row("Merton 5Y RN Default Prob.", LAMBDA x : MProb(x), cols, 0)
        \cup Row("Merton Credit Spread (%)", LAMBDA x : RMul(100, MSpread(x)), cols, 0)
        \cup Must("a positive shock raises and a negative one lowers borrowers' assets",
                  RLt(v.mFt[cols[3]], v.mFt[cols[1]]) /\ RLt(v.mFt[cols[1]], v.mFt[cols[2]]))
\* ---- the figures --------------------------------------------------------
Figs(name) == {n \in Idx(Run(c, i).figures) : Run(c, i).figures[n].path = name}
Panels(name) == Run(c, i).figures[CHOOSE n \in Figs(name) : TRUE].panels
\* open points of a series are not compared
Agree(s, t, tol) == Len(s) = Len(t) /\ \A n \in Idx(t) : RIsNaN(t[n]) \/ RNear(s[n], t[n], 1, tol)
FitsWell == "1E-5"
Series(clause, panel, kind, label, x, y, tol) ==
    Must(clause, \E n \in Idx(panel) : /\ panel[n].kind = kind /\ panel[n].label \in {"", label}
                                       /\ Agree(panel[n].x, x, "1E-6") /\ Agree(panel[n].y, y, tol))
Guide(clause, panel, x, y) ==
    Must(clause, \E n \in Idx(panel) : panel[n].kind = "line" /\ Agree(panel[n].x, x, "1E-6") /\ Agree(panel[n].y, y, "1E-6"))
Figure2(v) ==
    LET j == NoShock(v.mFt, P(c))
        p == P(c)
        F == v.FH[j]
        paid == RSub(RExp(RMul(p.y, p.H)), 1)
        \* face value of the loans when the debt matures, half a maturity earlier on average
        f == RMul(SMax(v.face[j]), RExp(RNeg(RDiv(RMul(p.r, RSub(p.T, p.H)), 2))))
        g == Panels("figure2_PayoffsAtDMat.pdf")
    IN  IF Len(g) # 3 THEN MustD("Figure 2 has three panels", FALSE, Len(g))
        ELSE Series("Figure 2 (a): bank asset value with its payout", g[1], "points", "", F, [n \in Idx(F) |-> RAdd(v.LH[j][n], RMul(v.face[j][n], paid))], "1E-6")
             \cup Series("Figure 2 (b): bank equity value", g[2], "points", "", F, v.EH[j], "1E-6")
             \cup Series("Figure 2 (c): bank debt value", g[3], "points", "", F, v.BH[j], "1E-6")
             \cup Guide("Figure 2 (a): payoff of a single loan", g[1], <<0, f>>, <<0, f>>)
             \cup Guide("Figure 2 (a): at most the face value", g[1], <<f, "2.5">>, <<f, f>>)
             \cup Guide("Figure 2 (b): no equity below the debt", g[2], <<0, p.D>>, <<0, 0>>)
             \cup Guide("Figure 2 (b): equity in a single loan", g[2], <<p.D, f>>, <<0, RSub(f, p.D)>>)
             \cup Guide("Figure 2 (b): equity at most face value less debt", g[2], <<f, "2.5">>, <<RSub(f, p.D), RSub(f, p.D)>>)
             \cup Guide("Figure 2 (c): debt of a single loan", g[3], <<0, p.D>>, <<0, p.D>>)
             \cup Guide("Figure 2 (c): at most the face value of debt", g[3], <<p.D, "2.5">>, <<p.D, p.D>>)
One(name, clauses(_)) == LET g == Panels(name) IN IF Len(g) # 1 THEN MustD("one panel", FALSE, name) ELSE clauses(g[1])
Analyst == [x \in 1 .. K |-> MProb(x)]
Figures(v) ==
    LET p == P(c)
        own == [x \in 1 .. K |-> DefaultProb(v.Lt[x], v.sigLt[x], p.D, p.r, p.y, p.H)]
    IN  \E merton \in {RSeq(Analyst)} :
        bad' = bad \cup Table(v) \cup Figure2(v)
        \cup One("figure3_mVe.pdf", LAMBDA g : Series("Figure 3: equity value against borrowers' assets", g, "points", "", v.mFt, v.Et, "1E-6"))
        \cup One("figure4_mdef.pdf", LAMBDA g : Series("Figure 4: default probability", g, "points", "Actual", v.mFt, v.mdef, "1E-6")
                                            \cup Series("Figure 4: default probability by Merton's model", g, "points", "Merton Model", v.mFt, merton, FitsWell))
        \cup One("figure5_panel_a_mdefsingles.pdf", LAMBDA g :
                 Series("Figure 5 (a): default probability", g, "points", "Actual", v.mFt, v.mdef, "1E-6")
                 \cup Series("Figure 5 (a): default probability by Merton's model", g, "points", "Merton Model", v.mFt, merton, FitsWell)
                 \cup Series("Figure 5 (a): a single cohort", g, "line", "Single cohort", v.mFt, v.single, "1E-5")
                 \cup Series("Figure 5 (a): a single borrower", g, "line", "Single borrower", v.mFt, v.borrower, "1E-5"))
        \cup One("figure5_panel_b_mertalt.pdf", LAMBDA g :
                 Series("Figure 5 (b): default probability", g, "points", "Actual", v.mFt, v.mdef, "1E-6")
                 \cup Series("Figure 5 (b): default probability by Merton's model", g, "points", "Merton Model", v.mFt, merton, FitsWell)
                 \cup Series("Figure 5 (b): Merton's model at actual asset value and volatility", g, "line", "Merton w/ actual asset value and volatility", v.mFt, own, "1E-5"))
Names == {"figure2_PayoffsAtDMat.pdf", "figure3_mVe.pdf", "figure4_mdef.pdf", "figure5_panel_a_mdefsingles.pdf", "figure5_panel_b_mertalt.pdf"}
Made == \A n \in Names : Cardinality(Figs(n)) = 1
Show == /\ Going /\ k = K + 1
        /\ IF Made THEN \E v \in {Ref(c, i)} : Figures(v) ELSE bad' = bad
        /\ k' = K + 2 /\ UNCHANGED <<c, i, fits>>
Leave == /\ Going /\ k = K + 2
         /\ bad' = bad \cup Must("five figures in the directory asked for", Made /\ Len(Run(c, i).figures) = 5)
                       \cup Must("figures are readable files", In(c).files => \A n \in Idx(Run(c, i).figures) : Run(c, i).figures[n].pdf)
                       \cup Must("the global generators are left as they were", Run(c, i).rng_ok)
                       \cup Must("the warning filters are left as they were", Run(c, i).warn_ok)
         /\ i' = i + 1 /\ k' = 0 /\ UNCHANGED <<c, fits>>
Open(x) == Cardinality({n \in Idx(fits) : ~fits[n].ok}) > 0
Finish ==
    /\ k = 0 /\ (Usable(c) => i = NRuns(c) + 1)
    /\ Report(c, bad \cup (IF ~Usable(c) THEN MustD("returns", FALSE, Out(c).exc) ELSE Must("the same call gives the same table and figures", Out(c).again)),
              IF ~Usable(c) THEN <<>> ELSE
              Tag("repeated call", \E n \in 1 .. NRuns(c) : Run(c, n).same # n) \o Tag("working directory", \E n \in 1 .. NRuns(c) : In(c).calls[n].direc = "cwd")
              \o Tag("files written", In(c).files) \o Tag("every fit decided", fits # <<>> /\ ~Open(c)) \o Tag("a fit left open", Open(c))
              \o Tag("outside the table of single borrowers", \E n \in 1 .. NRuns(c) : Run(c, n).same = n /\ \E x \in Idx(Ref(c, n).borrower) : RIsNaN(Ref(c, n).borrower[x])))
    /\ k' = -1 /\ UNCHANGED <<c, i, fits, bad>>
Next == Begin \/ (Going /\ Fresh /\ FitOne) \/ Skip \/ Show \/ Leave \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
