--------------------------- MODULE TraceUnscented ---------------------------
(***************************************************************************)
(* Validation of recorded executions against module Unscented, as          *)
(* TraceKalman does against module Kalman.                                 *)
(*                                                                         *)
(* The unscented recursion is only defined while the covariances it meets  *)
(* are positive definite (with a weight 1 - n/3 < 0 they need not be).  A  *)
(* case is followed as long as they are, by a margin beyond rounding, and  *)
(* as long as no number runs off.                                          *)
(***************************************************************************)
EXTENDS Unscented, Compare, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VTRACE)

Terms(ts) == TLCEval([k \in 1 .. Len(ts) |-> TLCEval([c |-> RParse(ts[k].c), e |-> ts[k].e])])
FunOf(f) == TLCEval([i \in 1 .. Len(f) |-> TLCEval([num |-> Terms(f[i].num), den |-> Terms(f[i].den), lim |-> NumVec(f[i].lim)])])
\* the default: the argument as it is, plus noise if there is a noise argument
Identity(kind, n) == IF kind = "additive" THEN Same(n) ELSE SamePlus(n)
ModelOf == TLCEval([c \in DOMAIN Cases |->
    LET r == Cases[c]
        funs(g, k) == IF g.form = "none" THEN <<Identity(r.kind, k)>> ELSE TLCEval([s \in 1 .. Len(g.v) |-> FunOf(g.v[s])])
        cov(g, k) == IF g.form = "none" THEN Eye(k) ELSE NumMat(g.v)
    IN  TLCEval([kind |-> r.kind, n |-> r.n, m |-> r.m,
         f |-> funs(r.f, r.n), g |-> funs(r.g, r.m),
         Q |-> cov(r.transition_covariance, r.n), R |-> cov(r.observation_covariance, r.m),
         mu0 |-> IF r.initial_state_mean.form = "none" THEN ZeroVec(r.n) ELSE NumVec(r.initial_state_mean.v),
         S0 |-> cov(r.initial_state_covariance, r.n)])])
ObsOf == TLCEval([c \in DOMAIN Cases |->
    TLCEval([s \in DOMAIN Cases[c].obs |->
        TLCEval([miss |-> Cases[c].obs[s].miss,
         y |-> IF Cases[c].obs[s].miss THEN <<>> ELSE NumVec(Cases[c].obs[s].y)])])])
Tol == TLCEval([c \in DOMAIN Cases |-> TLCEval([r \in DOMAIN Cases[c].readings |-> RParse(Cases[c].readings[r].tol)])])

VARIABLES case, bad, mscale, cscale
tvars == <<uvars, case, bad, mscale, cscale>>

Readings == Cases[case].readings
Of(kind) == {r \in DOMAIN Readings : Readings[r].kind = kind /\ Readings[r].err = ""}
Mark(r, s, clauses) == {[reading |-> r, time |-> s, clause |-> c.clause, detail |-> c.detail] : c \in clauses}

BadForm(c) ==
    LET rs == Cases[c].readings
        n == ModelOf[c].n
    IN  UNION {Mark(r, 0,
          IF rs[r].err # "" THEN {ClauseOf("raised", rs[r].err)}
          ELSE BadShape("mean", rs[r].mean, <<rs[r].count, n>>)
               \cup BadShape("cov", rs[r].cov, <<rs[r].count, n, n>>))
          : r \in DOMAIN rs}
Malformed == {x.reading : x \in {y \in bad : y.time = 0}}

BadBelief(r, s, k, bel, ms, cs) ==
    Mark(r, s, BadEntries("mean", Readings[r].mean.data, (k - 1) * um.n, bel.mean, RMul(Tol[case][r], ms))
               \cup BadEntries("cov", Readings[r].cov.data, (k - 1) * um.n * um.n, Flatten(bel.cov), RMul(Tol[case][r], cs)))
BadAt(kind, s, bel, ms, cs) ==
    UNION {BadBelief(r, s, s - Readings[r].first + 1, bel, ms, cs) :
           r \in {q \in Of(kind) \ Malformed : Readings[q].first <= s /\ s < Readings[q].first + Readings[q].count}}

RECURSIVE MaxOver(_, _)
MaxOver(f, k) == IF k = 0 THEN R0 ELSE RMax(f[k], MaxOver(f, k - 1))
Largest(pts) == MaxOver(Vec(Len(pts), LAMBDA i : VMaxAbs(pts[i])), Len(pts))

\* what the numbers of the case are multiples of
UnitOf == TLCEval([c \in DOMAIN Cases |-> RParse(Cases[c].unit)])
Moderate == RLt(mscale, RMul(RInt(100000), UnitOf[case]))

\* positive definite by a margin in whatever units its components are, and of moderate size
Firm(S, sizes) ==
    /\ RLt(VMaxAbs(sizes), RMul(RParse("1e10"), RMul(UnitOf[case], UnitOf[case])))
    /\ \A i \in 1 .. Rows(S) : RLt(R0, S[i][i])
    /\ IsPSD(Mtx(Rows(S), Rows(S), LAMBDA i, j : IF i # j THEN S[i][j]
              ELSE RSub(S[i][i], RMul(RParse("1e-5"), RMax(S[i][i], RMul(RParse("1e-1"), sizes[i]))))))

TInit ==
    /\ case \in DOMAIN Cases
    /\ UStart(ModelOf[case], ObsOf[case])
    /\ mscale = LET mo == ModelOf[case] o == ObsOf[case]
                IN  RMax(RMax(VMaxAbs(mo.mu0), RSqrt(MMaxAbs(mo.S0), 60)), MaxOver(Vec(Len(o), LAMBDA i : IF o[i].miss THEN R0 ELSE VMaxAbs(o[i].y)), Len(o)))
    /\ cscale = LET mo == ModelOf[case] IN RMax(MMaxAbs(mo.S0), MMaxAbs(mo.Q))
    /\ bad = BadForm(case)

\* magnitudes, for the tolerances: largest number met, largest product of deviations met
Grow(pts, b) == /\ mscale' = RMax(mscale, RMax(Largest(pts), RMax(VMaxAbs(b.mean), RSqrt(MMaxAbs(b.cov), 60))))
                /\ cscale' = RMax(cscale, RMax(VMaxAbs(Spread(pts)), MMaxAbs(b.cov)))

TPredict ==
    /\ UPredict
    /\ \E x \in {IF upts' = <<>> THEN <<upred'.mean>> ELSE Part(upts', 1, um.n)} : Grow(x, upred')
    /\ UNCHANGED <<case, bad>>
TSee ==
    /\ USee
    /\ UNCHANGED <<case, bad, mscale, cscale>>
TCorrect ==
    /\ UCorrect
    /\ UNCHANGED case
    /\ Grow(usees, ufilt'[ut])
    /\ bad' = IF uphase' = "lost" \/ ~Moderate' THEN bad ELSE bad \cup BadAt("filtered", ut, ufilt'[ut], mscale', cscale')
TSkip ==
    /\ USkip
    /\ bad' = bad \cup BadAt("filtered", ut, ufilt'[ut], mscale, cscale)
    /\ UNCHANGED <<case, mscale, cscale>>
TTurn ==
    /\ UTurn
    /\ bad' = bad \cup BadAt("smoothed", ut, usmo'[1], mscale, cscale)
    /\ UNCHANGED <<case, mscale, cscale>>
TSmoothStep ==
    /\ USmoothStep
    /\ bad' = IF uphase' = "lost" THEN bad ELSE bad \cup BadAt("smoothed", ut', usmo'[1], mscale, cscale)
    /\ UNCHANGED <<case, mscale, cscale>>

Report(b, up) == PrintT("@@" \o ToJson([case |-> Cases[case].id, bad |-> SetSeq(b), gaveup |-> up]))
\* calls that raised are wrong where the result is defined
TFinish ==
    /\ UFinish
    /\ Report(bad, FALSE)
    /\ UNCHANGED <<case, bad, mscale, cscale>>
TLost ==
    /\ uphase # "done" /\ (uphase = "lost" \/ ~Moderate)
    /\ uphase' = "done"
    /\ Report({b \in bad : b.time # 0}, TRUE)
    /\ UNCHANGED <<um, uobs, ut, upred, upts, usees, ufilt, usmo, case, bad, mscale, cscale>>
TNext == \/ Moderate /\ (TPredict \/ TSee \/ TCorrect \/ TSkip \/ TTurn \/ TSmoothStep \/ TFinish)
         \/ TLost
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
