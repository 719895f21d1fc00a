------------------------------ MODULE Threads -------------------------------
(***************************************************************************)
(* Queries that run at the same time: in several threads, or one called    *)
(* from within a function of another.  A query begins with the values its  *)
(* object and its arguments have then, and while it runs no one may change *)
(* them; what happens to other objects is no concern of it.  When it ends  *)
(* it has done what the operation of module Objects does at once: a        *)
(* history of overlapping queries is, in the order of their ends, a        *)
(* history of module Objects.                                              *)
(***************************************************************************)
EXTENDS Objects

VARIABLE running    \* thread -> [o, key] of the query it is in
thvars == <<ovars, running>>

Idle(th) == th \notin DOMAIN running
Begin(th, o, key) ==
    /\ Idle(th)
    /\ running' = (th :> [o |-> o, key |-> key]) @@ running
    /\ UNCHANGED ovars
End(th, out, returned) ==
    /\ ~Idle(th)
    /\ Query(running[th].key, out, returned)
    /\ running' = [h \in DOMAIN running \ {th} |-> running[h]]
\* objects someone is looking at
Busy == {running[th].o : th \in DOMAIN running}
\* the program may change objects no query runs on (or that share cells with one)
Untouched(o) == \A p \in Busy : Cells(p) \cap Cells(o) = {}
AssignIdle(o, a, v) == Untouched(o) /\ Assign(o, a, v) /\ UNCHANGED running
PokeIdle(o, a, v) == Untouched(o) /\ Poke(o, a, v) /\ UNCHANGED running
=============================================================================
