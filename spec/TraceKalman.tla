---------------------------- MODULE TraceKalman ----------------------------
(***************************************************************************)
(* Validation of recorded executions against module Kalman.                *)
(*                                                                         *)
(* A recorded case is a model as it was handed to the real code, the       *)
(* observations, and readings: results the real code returned, each with   *)
(* what it claims to be (kind) and who returned it.  The machine of        *)
(* module Kalman runs on the model; at each of its steps every reading     *)
(* that speaks about this step has to agree with the new state.  Verdicts  *)
(* are total: a case runs to its end and prints all clauses broken.        *)
(***************************************************************************)
EXTENDS Kalman, Config, Compare, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VTRACE)
LnBits == 120
Ln2Pi == RLn(RMul(R2, RPi(LnBits)), LnBits)

ModelOf == TLCEval([c \in DOMAIN Cases |->
    LET g == Cases[c].given
        num == [p \in Parameters |-> [form |-> g[p].form, v |-> IF p \in Matrices THEN NumMats(g[p].v) ELSE NumVecs(g[p].v)]]
    IN  TLCEval(Denotes(num, Cases[c].n_dim_state, Cases[c].n_dim_obs))])
ObsOf == TLCEval([c \in DOMAIN Cases |->
    TLCEval([s \in DOMAIN Cases[c].obs |->
        TLCEval([miss |-> Cases[c].obs[s].miss,
         y |-> IF Cases[c].obs[s].miss THEN <<>> ELSE NumVec(Cases[c].obs[s].y)])])])
Tol == TLCEval([c \in DOMAIN Cases |-> TLCEval([r \in DOMAIN Cases[c].readings |-> RParse(Cases[c].readings[r].tol)])])

VARIABLES case, bad, mscale, cscale, ll
tvars == <<kvars, case, bad, mscale, cscale, ll>>

Readings == Cases[case].readings
Of(kind) == {r \in DOMAIN Readings : Readings[r].kind = kind /\ Readings[r].err = ""}
Mark(r, s, clauses) == {[reading |-> r, time |-> s, clause |-> c.clause, detail |-> c.detail] : c \in clauses}

\* magnitude of the numbers a case is about, for the tolerances
RSumAbs(k, r) == VSum(Vec(Len(k), LAMBDA j : RAbs(RMul(k[j], r[j]))))
RECURSIVE MaxOver(_, _)
MaxOver(f, k) == IF k = 0 THEN R0 ELSE RMax(f[k], MaxOver(f, k - 1))
MScale0(c) == LET m == ModelOf[c]
              IN  RMax(RMax(VMaxAbs(m.mu0), RSqrt(MMaxAbs(m.S0), 60)),
                       MaxOver(Vec(Len(m.b), LAMBDA i : VMaxAbs(m.b[i])), Len(m.b)))
\* what the terms of an observation's residual amount to in units of the state
Pull(s, bel) ==
    LET o == ObsFrom(md, s, bel)
        K == MMul(MMulT(bel.cov, At(md.C, s)), PInv(o.cov))
        r == Vec(md.m, LAMBDA i : RMax(RAbs(obs[s].y[i]), RMax(RAbs(At(md.d, s)[i]), RAbs(o.mean[i]))))
    IN  VMaxAbs(Vec(md.n, LAMBDA i : RSumAbs(K[i], r)))
CScale0(c) == LET m == ModelOf[c]
              IN  RMax(MMaxAbs(m.S0), MaxOver(Vec(Len(m.Q), LAMBDA i : MMaxAbs(m.Q[i])), Len(m.Q)))

\* shapes, and calls that failed: judged once, before the first step
Arity(r) == Readings[r].count
BadForm(c) ==
    LET rs == Cases[c].readings
        n == ModelOf[c].n
    IN  UNION {Mark(r, 0,
          IF rs[r].err # "" THEN {ClauseOf("raised", rs[r].err)}
          ELSE IF rs[r].kind = "loglik" THEN {}
          ELSE BadShape("mean", rs[r].mean, IF rs[r].single THEN <<n>> ELSE <<rs[r].count, n>>)
               \cup BadShape("cov", rs[r].cov, IF rs[r].single THEN <<n, n>> ELSE <<rs[r].count, n, n>>))
          : r \in DOMAIN rs}
Malformed == {x.reading : x \in {y \in bad : y.time = 0}}

\* a belief at time s against block k of the readings
BadBelief(r, s, k, bel, ms, cs) ==
    Mark(r, s, BadEntries("mean", Readings[r].mean.data, (k - 1) * md.n, bel.mean, RMul(Tol[case][r], ms))
               \cup BadEntries("cov", Readings[r].cov.data, (k - 1) * md.n * md.n, Flatten(bel.cov), RMul(Tol[case][r], cs)))
\* readings of `kind` cover times first .. first+count-1
BadAt(kind, s, bel, ms, cs) ==
    UNION {BadBelief(r, s, s - Readings[r].first + 1, bel, ms, cs) :
           r \in {q \in Of(kind) \ Malformed : Readings[q].first <= s /\ s < Readings[q].first + Readings[q].count}}

BadLogLik(total) ==
    UNION {Mark(r, t, BadScalar("loglikelihood", Readings[r].val, total,
                RMul(Tol[case][r], RAdd(RInt(1 + Len(obs) * md.m), RAbs(total))))) : r \in Of("loglik")}

TInit ==
    /\ case \in DOMAIN Cases
    /\ StartWith(ModelOf[case], ObsOf[case])
    /\ bad = BadForm(case)
    /\ mscale = MScale0(case) /\ cscale = CScale0(case) /\ ll = R0

GrowM(bel) == RMax(mscale, RMax(VMaxAbs(bel.mean), RSqrt(MMaxAbs(bel.cov), 60)))
GrowC(bel) == RMax(cscale, MMaxAbs(bel.cov))

TPredict ==
    /\ Predict
    /\ mscale' = GrowM(pred'[t']) /\ cscale' = GrowC(pred'[t'])
    /\ bad' = bad \cup BadAt("predicted", t', pred'[t'], mscale', cscale')
    /\ UNCHANGED <<case, ll>>

Absorbed ==
    /\ mscale' = (IF obs[t].miss THEN GrowM(filt'[t]) ELSE RMax(GrowM(filt'[t]), BR(Pull(t, pred[t]))))
    /\ cscale' = cscale
    /\ bad' = bad \cup BadAt("filtered", t, filt'[t], mscale', cscale')
    /\ UNCHANGED case

NeedLL == Of("loglik") # {}
TCorrect ==
    /\ Correct /\ Absorbed
    /\ ll' = IF ~NeedLL THEN ll
             ELSE RRound(RSub(ll, RHalf(RAdd(RMul(RInt(md.m), Ln2Pi),
                                        RAdd(RLn(inno'[t].det, LnBits), inno'[t].maha)))), 200)
TSkip == Skip /\ Absorbed /\ UNCHANGED ll

NeedSmoothing == Of("smoothed") # {}
TTurn ==
    /\ NeedSmoothing /\ Turn
    /\ bad' = bad \cup BadAt("smoothed", t, smo'[1], mscale, cscale)
    /\ UNCHANGED <<case, mscale, cscale, ll>>
TSmoothStep ==
    /\ SmoothStep
    /\ bad' = bad \cup BadAt("smoothed", t', smo'[1], mscale, cscale)
    /\ UNCHANGED <<case, mscale, cscale, ll>>

TFinish ==
    /\ \/ Finish
       \/ ~NeedSmoothing /\ phase = "filtered" /\ t = Len(obs) /\ phase' = "done"
          /\ UNCHANGED <<md, obs, t, pred, filt, smo, inno>>
    /\ bad' = bad \cup BadLogLik(ll)
    /\ PrintT("@@" \o ToJson([case |-> Cases[case].id, bad |-> SetSeq(bad')]))
    /\ UNCHANGED <<case, mscale, cscale, ll>>

TNext == TPredict \/ TCorrect \/ TSkip \/ TTurn \/ TSmoothStep \/ TFinish
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
