----------------------------- MODULE TraceConfig -----------------------------
(***************************************************************************)
(* Validation of constructions tried on the real code against module       *)
(* Config.  A case is a list of rows: the sizes of the parameters given,   *)
(* the declared dimensions, and the error raised or the dimensions of the  *)
(* object.                                                                 *)
(***************************************************************************)
EXTENDS Config, Compare, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.VTRACE)
VARIABLES case, row, bad
vars == <<case, row, bad>>
Order == <<"observation_matrices", "transition_matrices", "transition_offsets", "transition_covariance", "initial_state_mean",
           "initial_state_covariance", "observation_offsets", "observation_covariance">>
Index(p) == CHOOSE i \in DOMAIN Order : Order[i] = p

BadRow(r) ==
    LET size == [p \in Parameters |-> r.size[Index(p)]]
        given == [p \in Parameters |-> [form |-> IF size[p] = <<>> THEN "none" ELSE "given"]]
        sv == StateVotes(given, size, r.ns)
        ov == ObsVotes(given, size, r.no)
        what == ToString([p \in {q \in Parameters : size[q] # <<>>} |-> size[p]]) \o " declared " \o ToString(<<r.ns, r.no>>)
    IN  IF Consistent(sv) /\ Consistent(ov)
        THEN IF r.err # "" THEN {ClauseOf("consistent construction refused", what \o ": " \o r.err)}
             ELSE IF r.n = Dimension(sv) /\ r.m = Dimension(ov) THEN {}
             ELSE {ClauseOf("dimensions", what \o ": " \o ToString(<<r.n, r.m>>) \o ", specified " \o ToString(<<Dimension(sv), Dimension(ov)>>))}
        ELSE IF r.err = "ValueError" THEN {}
             ELSE {ClauseOf("contradictory construction not refused by ValueError", what \o ": " \o (IF r.err = "" THEN "accepted" ELSE r.err))}

Init == case \in DOMAIN Cases /\ row = 1 /\ bad = {}
Step == /\ row <= Len(Cases[case].rows)
        /\ \E b \in {BadRow(Cases[case].rows[row])} :
             bad' = IF Cardinality(bad) >= 5 THEN bad ELSE bad \cup {[row |-> row, clause |-> x.clause, detail |-> x.detail] : x \in b}
        /\ row' = row + 1 /\ UNCHANGED case
Finish == /\ row = Len(Cases[case].rows) + 1 /\ row' = row + 1
          /\ PrintT("@@" \o ToJson([case |-> Cases[case].id, bad |-> SetSeq(bad)]))
          /\ UNCHANGED <<case, bad>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
