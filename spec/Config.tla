------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* Constructing a filter: which dimensions it has, what a parameter that   *)
(* was not given defaults to, and which constructions are refused.         *)
(*                                                                         *)
(* The argument `given` maps each parameter to [form, v]: form is "none",  *)
(* "const" or "tv" (one entry per time step), v the sequence of entries.   *)
(* ns, no: n_dim_state, n_dim_obs, 0 if not given.                         *)
(***************************************************************************)
EXTENDS Mat

StateSized  == {"transition_matrices", "transition_offsets", "transition_covariance",
                "initial_state_mean", "initial_state_covariance"}
ObsSized    == {"observation_offsets", "observation_covariance"}
Matrices    == {"transition_matrices", "transition_covariance", "observation_matrices",
                "observation_covariance", "initial_state_covariance"}
Vectors     == {"transition_offsets", "observation_offsets", "initial_state_mean"}
Parameters  == Matrices \cup Vectors

\* The votes on a dimension: sizes of the parameters that mention it.
\* size[p] is <<rows>> or <<rows, cols>> of the parameter p (of one entry).
StateVotes(given, size, ns) ==
    {size[p][1] : p \in {q \in StateSized : given[q].form # "none"}}
    \cup (IF given["observation_matrices"].form # "none" THEN {size["observation_matrices"][2]} ELSE {})
    \cup (IF ns # 0 THEN {ns} ELSE {})
ObsVotes(given, size, no) ==
    {size[p][1] : p \in {q \in ObsSized \cup {"observation_matrices"} : given[q].form # "none"}}
    \cup (IF no # 0 THEN {no} ELSE {})

Consistent(votes) == Cardinality(votes) <= 1
Dimension(votes) == IF votes = {} THEN 1 ELSE CHOOSE k \in votes : TRUE

SizeOf(given) == TLCEval([p \in Parameters |->
    IF given[p].form = "none" THEN <<0, 0>>
    ELSE IF p \in Matrices THEN <<Rows(given[p].v[1]), Cols(given[p].v[1])>>
    ELSE <<Len(given[p].v[1])>>])

\* The model a construction denotes.
Denotes(given, ns, no) ==
    LET size == SizeOf(given)
        n == Dimension(StateVotes(given, size, ns))
        m == Dimension(ObsVotes(given, size, no))
        or(p, default) == IF given[p].form = "none" THEN <<default>> ELSE given[p].v
    IN  [n |-> n, m |-> m,
         A |-> or("transition_matrices", Eye(n)),
         b |-> or("transition_offsets", ZeroVec(n)),
         Q |-> or("transition_covariance", Eye(n)),
         C |-> or("observation_matrices", EyeMat(m, n)),
         d |-> or("observation_offsets", ZeroVec(m)),
         R |-> or("observation_covariance", Eye(m)),
         mu0 |-> or("initial_state_mean", ZeroVec(n))[1],
         S0 |-> or("initial_state_covariance", Eye(n))[1]]
=============================================================================
