------------------------------ MODULE MCCausal ------------------------------
(***************************************************************************)
(* The machine of module Kalman refines module Causal: two of its runs on  *)
(* the same model, on any two sequences of observations, only make reports *)
(* that are enabled there.  The last smoothed belief counts as a report    *)
(* after the whole sequence.                                               *)
(***************************************************************************)
EXTENDS MCKalman
Same(a, b) == a = b
VARIABLE known
INSTANCE Causal WITH Agrees <- Same
VARIABLES runs
cvars == <<kvars, known, runs>>

\* other values, missing observations in other places, other lengths
Y2(m, s) == Vec(m, LAMBDA i : RInt(((2 * s + i) % 3) - 1))
Others(m, T0) == {[s \in 1 .. T0 |-> IF s \in M THEN [miss |-> TRUE, y |-> <<>>]
                                     ELSE [miss |-> FALSE, y |-> IF s < k THEN YAt(m, s) ELSE Y2(m, s)]] :
                  M \in SUBSET (1 .. T0), k \in 1 .. T0 + 1}

Hist(os, s) == [i \in 1 .. s |-> IF os[i].miss THEN <<>> ELSE os[i].y]
CInit == Fresh /\ runs = 0
         /\ \E T0 \in 1 .. MaxT : \E mo \in Models(MaxT) : \E os \in Others(mo.m, T0) : StartWith(mo, os)
Run ==
    /\ Next /\ UNCHANGED runs
    /\ IF phase' = "filtered" THEN Report(Hist(obs, t), filt'[t])
       ELSE IF phase = "filtered" /\ phase' = "smoothing" THEN Report(Hist(obs, t), smo'[1])
       ELSE UNCHANGED known
Again ==
    /\ phase = "done" /\ runs = 0 /\ runs' = 1
    /\ \E T0 \in 1 .. MaxT : \E os \in Others(md.m, T0) :
          /\ md' = md /\ obs' = os /\ phase' = "predicted" /\ t' = 1
          /\ pred' = <<Prior(md)>> /\ filt' = <<>> /\ smo' = <<>> /\ inno' = <<>>
    /\ UNCHANGED known
CNext == Run \/ Again
CSpec == CInit /\ [][CNext]_cvars
\* never is a report refused: the machine gets to its end
NotRefused == (phase = "predicted" => ENABLED Run) /\ (phase = "filtered" => ENABLED Run)
=============================================================================
