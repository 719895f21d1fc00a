---------------------------- MODULE ScenThreads -----------------------------
(***************************************************************************)
(* Programs of several threads to exercise module Threads with: an object  *)
(* (values as in ScenObjects), another one (a copy, or with other values), *)
(* the queries of each thread, and in which turns the threads are let on:  *)
(* [th, lines] - thread th runs for so many lines of the library.  With    *)
(* functions: queries made by a function in its k-th call.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Families, Dims, Turns,
          Lines    \* how long a turn may be

VARIABLES stage, fam, dim, val, second, threads, nested, turns
svars == <<stage, fam, dim, val, second, threads, nested, turns>>

Covs == {"transition_covariance", "observation_covariance", "initial_state_covariance"}
Noise == {"transition_covariance", "observation_covariance"}
LinearParams == Covs \cup {"initial_state_mean", "transition_matrices", "transition_offsets", "observation_matrices", "observation_offsets"}
SigmaParams == Covs \cup {"initial_state_mean", "transition_functions", "observation_functions"}
Params == IF fam = "sigma" THEN SigmaParams ELSE LinearParams
Queries == IF fam = "sigma" THEN <<"filter", "smooth", "filter", "smooth", "filter_update", "sample">>
           ELSE <<"filter", "smooth", "loglikelihood", "filter", "smooth", "filter_update", "sample", "fit">>
Forms(a) ==
    CASE a \in {"initial_state_mean", "initial_state_covariance"} -> {0, 1, 3}
      [] a \in Noise -> IF fam = "linear" THEN {0, 1, 2, 3} ELSE {0, 1, 3}
      [] OTHER -> {0, 1, 2, 3}

Init == /\ stage = "family" /\ fam = "" /\ dim = <<>> /\ val = <<>> /\ second = "" /\ threads = <<>> /\ nested = <<>> /\ turns = <<>>
Family == /\ stage = "family" /\ stage' = "values"
          /\ \E f \in Families, d \in Dims : fam' = f /\ dim' = d
          /\ UNCHANGED <<val, second, threads, nested, turns>>
Values == /\ stage = "values"
          /\ IF DOMAIN val = Params THEN stage' = "second" /\ UNCHANGED val
             ELSE LET a == CHOOSE x \in Params : x \notin DOMAIN val
                  IN  \E v \in Forms(a) : val' = (a :> v) @@ val /\ stage' = stage
          /\ UNCHANGED <<fam, dim, second, threads, nested, turns>>
Second == /\ stage = "second" /\ stage' = "thread"
          /\ \E s \in {"shallow", "deep", "other", "unused"} : second' = s
          /\ UNCHANGED <<fam, dim, val, threads, nested, turns>>
Ask == stage = "thread" /\ \E o \in IF second = "unused" THEN {1} ELSE 1 .. 2, i \in DOMAIN Queries, x \in 1 .. 3, s \in 1 .. 2, new \in BOOLEAN :
          LET query == [o |-> o, q |-> Queries[i], x |-> x, b |-> (x + s) % 3, s |-> s, given |-> TRUE]
          IN  \* one more for the last thread, or the first one of a new thread
              /\ IF threads = <<>> \/ (new /\ Len(threads) < 3) THEN threads' = Append(threads, <<query>>)
                 ELSE Len(threads[Len(threads)]) < 3 /\ threads' = [threads EXCEPT ![Len(threads)] = Append(@, query)]
              /\ UNCHANGED <<stage, fam, dim, val, second, nested, turns>>
Enough == /\ stage = "thread" /\ Len(threads) > 1 /\ stage' = "turns"
          /\ UNCHANGED <<fam, dim, val, second, threads, nested, turns>>
Turn == /\ stage = "turns" /\ Len(turns) < Turns
        /\ \E th \in DOMAIN threads, k \in Lines : turns' = Append(turns, [th |-> th, lines |-> k])
        /\ UNCHANGED <<stage, fam, dim, val, second, threads, nested>>
Nest == /\ stage = "turns" /\ fam = "sigma" /\ Len(turns) = Turns /\ Len(nested) < 2
        /\ \E at \in {1, 2, 3, 4, 6, 8, 12, 17}, o \in 1 .. 2, i \in DOMAIN Queries, x \in 1 .. 3, s \in 1 .. 2 :
              nested' = Append(nested, [at |-> at, query |-> [o |-> o, q |-> Queries[i], x |-> x, b |-> (x + s) % 3, s |-> s, given |-> TRUE]])
        /\ UNCHANGED <<stage, fam, dim, val, second, threads, turns>>
Emit == /\ stage = "turns" /\ Len(turns) = Turns /\ (fam = "sigma" => Len(nested) = 2)
        /\ PrintT("@@" \o ToJson([family |-> fam, n |-> dim[1], m |-> dim[2], val |-> val, second |-> second, threads |-> threads,
                                  nested |-> nested, turns |-> turns]))
        /\ stage' = "done" /\ UNCHANGED <<fam, dim, val, second, threads, nested, turns>>
Next == Family \/ Values \/ Second \/ Ask \/ Enough \/ Turn \/ Nest \/ Emit
Spec == Init /\ [][Next]_svars
DimsAll == {<<1, 1>>, <<2, 1>>, <<2, 2>>, <<1, 2>>, <<3, 2>>, <<2, 3>>}
=============================================================================
