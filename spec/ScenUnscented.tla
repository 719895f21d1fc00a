---------------------------- MODULE ScenUnscented ----------------------------
(***************************************************************************)
(* The inputs module Unscented is exercised with, put together choice by   *)
(* choice.  The driver fills in numbers and functions of the chosen sort.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Kinds, MinN, MaxN, MaxM, Lengths,
          FunForms,   \* "none", "const", "tv"
          CovForms, InitForms,
          Units,      \* of all spaces: 1 or a power of two (strings)
          Sorts       \* of functions

VARIABLES stage, sc
Order == <<"transition_covariance", "observation_covariance", "initial_state_mean", "initial_state_covariance">>
FormsOf(p) == IF p \in {"initial_state_mean", "initial_state_covariance"} THEN InitForms ELSE CovForms

Init == stage = 0 /\ sc = [kind |-> "", n |-> 0, m |-> 0, T |-> 0, f |-> "", g |-> "", fsort |-> "", gsort |-> "",
                           form |-> <<>>, seen |-> <<>>, dims |-> FALSE, unit |-> ""]
Shape == /\ stage = 0
         /\ \E k \in Kinds, n \in MinN .. MaxN, m \in 1 .. MaxM, T \in Lengths :
               sc' = [sc EXCEPT !.kind = k, !.n = n, !.m = m, !.T = T]
         /\ stage' = 1
\* observing the state as it is (the default) takes as many dimensions
Functions == /\ stage = 1
             /\ \E f \in FunForms, g \in FunForms, s \in Sorts, u \in Sorts :
                  /\ g = "none" => sc.n = sc.m
                  /\ sc' = [sc EXCEPT !.f = f, !.g = g, !.fsort = s, !.gsort = u]
             /\ stage' = 2
Form == /\ stage = 2
        /\ IF Len(sc.form) = Len(Order)
           THEN stage' = 3 /\ \E b \in BOOLEAN, u \in Units : sc' = [sc EXCEPT !.dims = b, !.unit = u]
           ELSE stage' = 2 /\ \E f \in FormsOf(Order[Len(sc.form) + 1]) : sc' = [sc EXCEPT !.form = Append(@, f)]
\* mostly seen
Mask == /\ stage = 3 /\ Len(sc.seen) < sc.T
        /\ \E k \in 1 .. 8 :
             sc' = [sc EXCEPT !.seen = Append(@, IF k = 1 THEN "missing"
                                                 ELSE IF k = 2 /\ sc.m > 1 THEN "partial" ELSE "seen")]
        /\ UNCHANGED stage
Emit == /\ stage = 3 /\ Len(sc.seen) = sc.T
        /\ PrintT("@@" \o ToJson(sc))
        /\ stage' = 4 /\ UNCHANGED sc
Next == Shape \/ Functions \/ Form \/ Mask \/ Emit
Spec == Init /\ [][Next]_<<stage, sc>>
=============================================================================
