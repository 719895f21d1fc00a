----------------------------- MODULE ScenKalman -----------------------------
(***************************************************************************)
(* The inputs module Kalman is exercised with: a behaviour of this module  *)
(* puts together one scenario, choice by choice.  The driver fills in      *)
(* numbers, runs the real code, and TraceKalman judges what it returned.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS MinN, MaxN, MinM, MaxM, Lengths,
          OffsetForms,   \* admissible forms of transition / observation matrices and offsets
          CovForms,      \* of transition / observation covariances
          InitForms,     \* of initial mean and covariance
          Styles

VARIABLES stage, sc
Order == <<"transition_matrices", "transition_offsets", "observation_matrices", "observation_offsets",
           "transition_covariance", "observation_covariance", "initial_state_mean", "initial_state_covariance">>
FormsOf(p) == IF p \in {"transition_covariance", "observation_covariance"} THEN CovForms
              ELSE IF p \in {"initial_state_mean", "initial_state_covariance"} THEN InitForms
              ELSE OffsetForms

Init == stage = 0 /\ sc = [n |-> 0, m |-> 0, T |-> 0, style |-> "", form |-> <<>>, seen |-> <<>>, dims |-> FALSE]

Shape == /\ stage = 0
         /\ \E n \in MinN .. MaxN, m \in MinM .. MaxM, T \in Lengths, st \in Styles :
               sc' = [sc EXCEPT !.n = n, !.m = m, !.T = T, !.style = st]
         /\ stage' = 1
Form == /\ stage = 1
        /\ IF Len(sc.form) = Len(Order)
           THEN stage' = 2 /\ \E b \in BOOLEAN : sc' = [sc EXCEPT !.dims = b]
           ELSE /\ \E f \in FormsOf(Order[Len(sc.form) + 1]) : sc' = [sc EXCEPT !.form = Append(@, f)]
                /\ stage' = 1
\* mostly seen
Mask == /\ stage = 2 /\ Len(sc.seen) < sc.T
        /\ \E k \in 1 .. 8 :
             sc' = [sc EXCEPT !.seen = Append(@, IF k = 1 THEN "missing"
                                                 ELSE IF k = 2 /\ sc.m > 1 THEN "partial" ELSE "seen")]
        /\ UNCHANGED stage
Emit == /\ stage = 2 /\ Len(sc.seen) = sc.T
        /\ PrintT("@@" \o ToJson([n |-> sc.n, m |-> sc.m, T |-> sc.T, style |-> sc.style, form |-> sc.form,
                                  seen |-> sc.seen, dims |-> sc.dims]))
        /\ stage' = 3 /\ UNCHANGED sc
Next == Shape \/ Form \/ Mask \/ Emit
Spec == Init /\ [][Next]_<<stage, sc>>
=============================================================================
