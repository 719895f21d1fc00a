------------------------------- MODULE Causal -------------------------------
(***************************************************************************)
(* Filtering is causal: what a filter reports after the observations       *)
(* <<o_1 .. o_t>> is a function of these observations, whatever follows.   *)
(*                                                                         *)
(* The machine watches reports: `known` is the function as far as it has   *)
(* been seen.  Report(h, b) is enabled only if b is what was reported for  *)
(* the history h before, if anything was.                                  *)
(***************************************************************************)
EXTENDS Sequences, FiniteSets

CONSTANT Agrees(_, _)   \* two reported beliefs are the same, up to rounding

VARIABLE known          \* set of [hist, bel], a partial function of hist
Fresh == known = {}

Before(h) == {k \in known : k.hist = h}
Report(h, b) ==
    /\ \A k \in Before(h) : Agrees(k.bel, b)
    /\ known' = IF Before(h) = {} THEN known \cup {[hist |-> h, bel |-> b]} ELSE known

IsFunction == \A j, k \in known : j.hist = k.hist => j = k
=============================================================================
