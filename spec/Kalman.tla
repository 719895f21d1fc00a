------------------------------- MODULE Kalman -------------------------------
(***************************************************************************)
(* The Kalman filter and Rauch-Tung-Striebel smoother as a state machine.  *)
(*                                                                         *)
(* A run goes forward through the observations: Predict makes the          *)
(* belief about the next state, then either Correct absorbs the            *)
(* observation or Skip leaves the belief as it is because the observation  *)
(* is missing.  Turn ends the forward pass, SmoothStep goes back in time.  *)
(* `loglik` collects what each Correct says about the observation seen:    *)
(* the pair of its Mahalanobis distance and its covariance determinant.    *)
(***************************************************************************)
EXTENDS LG

VARIABLES md,      \* the model
          obs,     \* the observations, fixed during a run
          phase,   \* "predicted" | "filtered" | "smoothing" | "done"
          t,       \* time step the machine is at
          pred,    \* pred[s], s <= t: belief about x_s given observations before s
          filt,    \* filt[s]: belief about x_s given observations up to s
          smo,     \* smo[k]: smoothed belief about x_{t+k-1} (smoothing goes backward)
          inno     \* inno[s]: [maha, det] of the observation at s, [maha |-> 0, det |-> 1] if skipped
kvars == <<md, obs, phase, t, pred, filt, smo, inno>>

NoInno == [maha |-> R0, det |-> R1]

StartWith(model, os) ==
    /\ md = model /\ obs = os
    /\ phase = "predicted" /\ t = 1
    /\ pred = <<Prior(model)>> /\ filt = <<>> /\ smo = <<>> /\ inno = <<>>

Predict ==
    /\ phase = "filtered" /\ t < Len(obs)
    /\ t' = t + 1
    /\ pred' = Append(pred, PredictFrom(md, t, filt[t]))
    /\ phase' = "predicted"
    /\ UNCHANGED <<md, obs, filt, smo, inno>>

Correct ==
    /\ phase = "predicted" /\ ~obs[t].miss
    /\ filt' = Append(filt, CorrectWith(md, t, pred[t], obs[t].y))
    /\ inno' = Append(inno,
                LET o == ObsFrom(md, t, pred[t])
                IN  [maha |-> BR(LET r == VSub(obs[t].y, o.mean) IN RDot(r, MVec(PInv(o.cov), r))),
                     det |-> BR(DetPSD(o.cov))])
    /\ phase' = "filtered"
    /\ UNCHANGED <<md, obs, t, pred, smo>>

Skip ==
    /\ phase = "predicted" /\ obs[t].miss
    /\ filt' = Append(filt, pred[t])
    /\ inno' = Append(inno, NoInno)
    /\ phase' = "filtered"
    /\ UNCHANGED <<md, obs, t, pred, smo>>

Turn ==
    /\ phase = "filtered" /\ t = Len(obs)
    /\ smo' = <<filt[t]>>
    /\ phase' = "smoothing"
    /\ UNCHANGED <<md, obs, t, pred, filt, inno>>

SmoothStep ==
    /\ phase = "smoothing" /\ t > 1
    /\ t' = t - 1
    /\ smo' = <<SmoothFrom(md, t - 1, filt[t - 1], pred[t], smo[1])>> \o smo
    /\ UNCHANGED <<md, obs, phase, pred, filt, inno>>

Finish ==
    /\ phase = "smoothing" /\ t = 1
    /\ phase' = "done"
    /\ UNCHANGED <<md, obs, t, pred, filt, smo, inno>>

Next == Predict \/ Correct \/ Skip \/ Turn \/ SmoothStep \/ Finish

---------------------------------------------------------------------------
(* What the machine has to guarantee (checked on MCKalman's models).       *)

T == Len(obs)
Upto(s) == Ascending({u \in Seen(obs) : u <= s})
All == Ascending(Seen(obs))

\* filt[s] is the distribution of x_s given the observations seen up to s
FilterIsConditional ==
    phase = "filtered" => filt[t] = Posterior(md, obs, t, t, Upto(t))
PredictIsConditional ==
    phase = "predicted" => pred[t] = Posterior(md, obs, t, t, Upto(t - 1))
\* smo is the distribution given all of them
SmootherIsConditional ==
    phase = "smoothing" => smo[1] = Posterior(md, obs, T, t, All)

\* the innovations' densities multiply up to the density of all that was seen
RECURSIVE ProdDet(_)
ProdDet(k) == IF k = 0 THEN R1 ELSE RMul(inno[k].det, ProdDet(k - 1))
LikelihoodIsEvidence ==
    (phase = "filtered" /\ Upto(t) # <<>>) =>
        LET e == Evidence(md, obs, t, Upto(t))
        IN  /\ ProdDet(t) = DetPSD(e.cov)
            /\ RSgn(DetPSD(e.cov)) > 0 =>
                 VSum(Vec(t, LAMBDA s : inno[s].maha)) = Mahalanobis(Stacked(md, obs, Upto(t)), e.mean, e.cov)

\* covariances are symmetric positive semidefinite; information never hurts
CovarianceValid ==
    /\ phase = "filtered" =>
         /\ IsSymmetric(filt[t].cov) /\ IsPSD(filt[t].cov)
         /\ LoewnerLe(filt[t].cov, pred[t].cov)
    /\ phase = "smoothing" =>
         /\ IsSymmetric(smo[1].cov) /\ IsPSD(smo[1].cov)
         /\ LoewnerLe(smo[1].cov, filt[t].cov)

\* the smoother starts where the filter ends
SmootherStartsAtFilter == phase = "smoothing" => smo[Len(smo)] = filt[T]

\* what has been believed about the past is not revised by the forward pass
PastKept == phase \in {"predicted", "filtered"} =>
              /\ \A s \in 1 .. Len(filt) : filt'[s] = filt[s]
              /\ \A s \in 1 .. Len(pred) : pred'[s] = pred[s]
ForwardAppends == [][PastKept]_kvars
=============================================================================
