------------------------------ MODULE Fitting -------------------------------
(***************************************************************************)
(* em as a state machine.  Each iteration is an EStep, which takes the     *)
(* posterior moments under the current parameters, followed by one MStep   *)
(* per parameter in the order of FitOrder; a parameter that is not to be   *)
(* fitted is left as it is.                                                *)
(***************************************************************************)
EXTENDS EM

VARIABLES md,     \* the current parameters
          obs,
          vars,   \* parameters to be fitted
          left,   \* iterations left
          stage,  \* 0: E step is due; k: the k-th parameter of FitOrder is due
          e,      \* moments of the last E step
          before  \* parameters these moments belong to
fvars == <<md, obs, vars, left, stage, e, before>>

StartFit(model, os, V, k) ==
    /\ md = model /\ obs = os /\ vars = V /\ left = k
    /\ stage = 0 /\ e = <<>> /\ before = <<>>

EStep ==
    /\ left > 0 /\ stage = 0
    /\ e' = Expect(md, obs)
    /\ before' = md
    /\ stage' = 1
    /\ UNCHANGED <<md, obs, vars, left>>

MStep ==
    /\ stage > 0
    /\ md' = IF FitOrder[stage] \in vars /\ Determined(FitOrder[stage], obs)
             THEN RoundModel(Fit(FitOrder[stage], md, e, obs)) ELSE md
    /\ IF stage = Len(FitOrder) THEN stage' = 0 /\ left' = left - 1
                                ELSE stage' = stage + 1 /\ left' = left
    /\ UNCHANGED <<obs, vars, e, before>>
=============================================================================
