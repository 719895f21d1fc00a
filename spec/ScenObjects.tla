---------------------------- MODULE ScenObjects -----------------------------
(***************************************************************************)
(* Histories to exercise module Objects with: a behaviour is a program of  *)
(* Length operations on up to MaxObjects objects of one family of classes. *)
(* Values are indices: 0, 1 constants, 2 one per time step, 3 not given,   *)
(* 4 an indefinite covariance, 5 fitted.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Families, Dims, Length, MaxObjects, Mix

VARIABLES stage, fam, dim, kind, objs, ops, results
svars == <<stage, fam, dim, kind, objs, ops, results>>

Covs == {"transition_covariance", "observation_covariance", "initial_state_covariance"}
Noise == {"transition_covariance", "observation_covariance"}
LinearParams == Covs \cup {"initial_state_mean", "transition_matrices", "transition_offsets", "observation_matrices", "observation_offsets"}
SigmaParams == Covs \cup {"initial_state_mean", "transition_functions", "observation_functions"}
Params == IF fam = "sigma" THEN SigmaParams ELSE LinearParams
Queries == IF fam = "sigma" THEN <<"filter", "smooth", "filter_update", "filter_update", "sample">>
           ELSE <<"filter", "smooth", "loglikelihood", "filter_update", "filter_update", "sample">>
\* the forms a parameter may have
Forms(a) ==
    CASE a \in {"initial_state_mean", "initial_state_covariance"} -> {0, 1, 3}
      [] a \in Noise -> IF fam = "linear" THEN {0, 1, 2, 3} ELSE {0, 1, 3}
      [] OTHER -> {0, 1, 2, 3}

\* values of the attribute em_vars: what fitting fits unless it is told
EmVars == <<[as |-> "none", vars |-> Covs \cup {"initial_state_mean"}],
            [as |-> "all", vars |-> LinearParams],
            [as |-> "tuple", vars |-> {"transition_matrices", "observation_offsets"}],
            [as |-> "list", vars |-> {"transition_covariance", "initial_state_mean"}],
            [as |-> "set", vars |-> {"observation_covariance", "observation_matrices"}],
            [as |-> "tuple", vars |-> {}]>>
\* what is done how often
Purity  == <<"query", "query", "query", "query", "query", "assign", "assign", "poke", "fit", "scribble", "rewrite", "reseed", "copy">>
Copying == <<"query", "query", "query", "assign", "poke", "fit", "reseed", "copy", "copy", "copy", "copy">>
Misuse  == <<"query", "query", "query", "wrong", "wrong", "wrong", "assign", "indefinite", "repair", "badseed", "copy", "fit">>
Kinds == CASE Mix = "purity" -> Purity [] Mix = "copying" -> Copying [] Mix = "misuse" -> Misuse

Put(op) == ops' = Append(ops, op)
Broken(o) == objs[o].rs = 3 \/ \E a \in Params : objs[o].val[a] = 4
Varying(o) == {a \in Params : objs[o].val[a] = 2}

Init == stage = "family" /\ fam = "" /\ dim = <<>> /\ kind = "" /\ objs = <<>> /\ ops = <<>> /\ results = 0
\* sometimes an object that is told nothing but its dimensions
Family == /\ stage = "family"
          /\ \E f \in Families, d \in Dims, told \in 1 .. 4 :
               /\ fam' = f /\ dim' = d
               /\ objs' = <<[val |-> IF told = 1 THEN [a \in IF f = "sigma" THEN SigmaParams ELSE LinearParams |-> 3] ELSE <<>>,
                             rs |-> 1, em |-> 1, group |-> 1, sample |-> FALSE]>>
          /\ stage' = "values"
          /\ UNCHANGED <<kind, ops, results>>
\* the first object, parameter by parameter
Values == /\ stage = "values"
          /\ IF DOMAIN objs[1].val = Params
             THEN stage' = "kind" /\ \E s \in {0, 1, 2}, e \in IF fam = "sigma" THEN {1} ELSE DOMAIN EmVars : objs' = [objs EXCEPT ![1].rs = s, ![1].em = e]
             ELSE LET a == CHOOSE x \in Params : x \notin DOMAIN objs[1].val
                  IN  \E v \in Forms(a) : objs' = [objs EXCEPT ![1].val = (a :> v) @@ @] /\ stage' = "values"
          /\ IF stage' = "kind" THEN Put([op |-> "construct", o |-> 1, val |-> objs'[1].val, rs |-> objs'[1].rs, em |-> EmVars[objs'[1].em]]) ELSE UNCHANGED ops
          /\ UNCHANGED <<fam, dim, kind, results>>
Choose == /\ stage = "kind" /\ Len(ops) < Length
          /\ \E i \in 1 .. Len(Kinds) : kind' = Kinds[i] /\ stage' = "op"
          /\ UNCHANGED <<fam, dim, objs, ops, results>>
Done(k) == stage' = "kind" /\ kind' = k /\ UNCHANGED <<fam, dim>>

Query == /\ kind = "query"
         /\ \E o \in DOMAIN objs, q \in 1 .. Len(Queries), x \in 1 .. 3, s \in 0 .. 2, given \in BOOLEAN :
              /\ Put([op |-> "query", o |-> o, q |-> Queries[q], x |-> x, b |-> (x + s) % 3, s |-> s,
                      given |-> IF Mix = "misuse" THEN given ELSE TRUE])
              /\ results' = results + 1
         /\ UNCHANGED objs
AssignEm == /\ kind = "assign" /\ fam # "sigma"
            /\ \E o \in DOMAIN objs, e \in DOMAIN EmVars :
                 /\ Put([op |-> "em_vars", o |-> o, em |-> EmVars[e]])
                 /\ objs' = [objs EXCEPT ![o].em = e]
            /\ UNCHANGED results
Assign == /\ kind = "assign"
          /\ \E o \in DOMAIN objs, a \in Params : \E v \in Forms(a) :
               /\ Put([op |-> "assign", o |-> o, a |-> a, v |-> v])
               /\ objs' = [objs EXCEPT ![o].val[a] = v]
          /\ UNCHANGED results
Lonely(o) == \A p \in DOMAIN objs : p # o => objs[p].group # objs[o].group
Poke == /\ kind = "poke"
        /\ \E o \in DOMAIN objs, a \in LinearParams \cap Params, v \in {0, 1} :
             /\ Lonely(o) /\ objs[o].val[a] \in {0, 1, 5}
             /\ Put([op |-> "poke", o |-> o, a |-> a, v |-> v])
             /\ objs' = [objs EXCEPT ![o].val[a] = v]
        /\ UNCHANGED results
Subsets == {{"transition_matrices"}, {"observation_covariance", "transition_covariance"}, {"initial_state_mean", "initial_state_covariance"},
            {"observation_offsets", "observation_matrices"}, {"transition_offsets", "transition_covariance"}}
Fit == /\ kind = "fit" /\ fam # "sigma"
       /\ \E o \in DOMAIN objs, x \in 1 .. 3, T \in Subsets \cup {{}}, k \in 0 .. 2 : \E S \in {IF T = {} THEN EmVars[objs[o].em].vars ELSE T} :
            /\ ~Broken(o)
            /\ \A a \in Noise : objs[o].val[a] # 2   \* (see C07)
            /\ Put([op |-> "fit", o |-> o, x |-> x, k |-> k, vars |-> T])
            /\ objs' = [objs EXCEPT ![o].val = [a \in Params |-> IF k > 0 /\ a \in S THEN 5 ELSE IF objs[o].val[a] = 3 THEN 5 ELSE objs[o].val[a]]]
       /\ UNCHANGED results
Scribble == /\ kind = "scribble" /\ results > 0
            /\ \E r \in 1 .. results : Put([op |-> "scribble", r |-> r])
            /\ UNCHANGED <<objs, results>>
Rewrite == /\ kind = "rewrite"
           /\ \E x \in 1 .. 3, v \in 0 .. 1 : Put([op |-> "rewrite", x |-> x, v |-> v])
           /\ UNCHANGED <<objs, results>>
Reseed == /\ kind = "reseed"
          /\ \E o \in DOMAIN objs, s \in 0 .. 2 :
               /\ Put([op |-> "reseed", o |-> o, s |-> s]) /\ objs' = [objs EXCEPT ![o].rs = s]
          /\ UNCHANGED results
Copy == /\ kind = "copy" /\ Len(objs) < MaxObjects
        /\ \E o \in DOMAIN objs, how \in {"shallow", "deep", "deep", "pickle", "rebuild"} :
             /\ Put([op |-> "copy", o |-> o, how |-> how])
             /\ objs' = Append(objs, [objs[o] EXCEPT !.group = IF how = "shallow" THEN @ ELSE Len(objs) + 1])
        /\ UNCHANGED results
\* misuse
Wrong == /\ kind = "wrong"
         /\ \E o \in DOMAIN objs, q \in 1 .. Len(Queries), w \in {"wide", "narrow", "badseed", "indefinite belief"}, s \in 0 .. 5 :
              Put([op |-> "wrong", o |-> o, q |-> Queries[q], w |-> w, s |-> s])
         /\ UNCHANGED <<objs, results>>
Indefinite == /\ kind = "indefinite"
              /\ \E o \in DOMAIN objs, a \in Covs :
                   /\ Put([op |-> "assign", o |-> o, a |-> a, v |-> 4]) /\ objs' = [objs EXCEPT ![o].val[a] = 4]
              /\ UNCHANGED results
BadSeed == /\ kind = "badseed"
           /\ \E o \in DOMAIN objs : Put([op |-> "reseed", o |-> o, s |-> 3]) /\ objs' = [objs EXCEPT ![o].rs = 3]
           /\ UNCHANGED results
Repair == /\ kind = "repair"
          /\ \E o \in DOMAIN objs :
               IF objs[o].rs = 3 THEN Put([op |-> "reseed", o |-> o, s |-> 1]) /\ objs' = [objs EXCEPT ![o].rs = 1]
               ELSE \E a \in Covs : /\ objs[o].val[a] = 4 \/ \A c \in Covs : objs[o].val[c] # 4
                                    /\ Put([op |-> "assign", o |-> o, a |-> a, v |-> 0])
                                    /\ objs' = [objs EXCEPT ![o].val[a] = 0]
          /\ UNCHANGED results
Act == stage = "op" /\ Done("") /\ (Query \/ Assign \/ AssignEm \/ Poke \/ Fit \/ Scribble \/ Rewrite \/ Reseed \/ Copy \/ Wrong \/ Indefinite \/ BadSeed \/ Repair)
Other == stage = "op" /\ ~ENABLED Act /\ stage' = "kind" /\ kind' = "" /\ UNCHANGED <<fam, dim, objs, ops, results>>
Emit == /\ stage = "kind" /\ Len(ops) >= Length
        /\ PrintT("@@" \o ToJson([family |-> fam, n |-> dim[1], m |-> dim[2], ops |-> ops]))
        /\ stage' = "done" /\ UNCHANGED <<fam, dim, kind, objs, ops, results>>
Next == Family \/ Values \/ Choose \/ Act \/ Other \/ Emit
Spec == Init /\ [][Next]_svars
DimsAll == {<<1, 1>>, <<2, 1>>, <<2, 2>>, <<1, 2>>, <<3, 2>>, <<2, 3>>}
=============================================================================
