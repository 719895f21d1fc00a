---------------------------- MODULE TraceDataset ----------------------------
(***************************************************************************)
(* The bundled robot data set: what each documented field holds, in terms  *)
(* of the arrays in the data file (matrices of Matlab: time is the last    *)
(* axis), against what load_robot returned.                                *)
(* A case: raw, the arrays of the file by name; got, the fields returned,  *)
(* by name; number of the time it was loaded.                              *)
(***************************************************************************)
EXTENDS Compare, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.VTRACE)
VARIABLES case, field, bad
vars == <<case, field, bad>>
C == Cases[case]

Raw(name) == C.raw[name]
At2(a, i, j) == a.data[(i - 1) * a.shape[2] + j]
At3(a, k, i, j) == a.data[(k - 1) * a.shape[2] * a.shape[3] + (i - 1) * a.shape[3] + j]
Mat2(r, c, f(_, _)) == [shape |-> <<r, c>>, data |-> [k \in 1 .. r * c |-> f(((k - 1) \div c) + 1, ((k - 1) % c) + 1)]]
Transposed(a) == Mat2(a.shape[2], a.shape[1], LAMBDA i, j : At2(a, j, i))
Column(a) == [shape |-> <<a.shape[1]>>, data |-> [i \in 1 .. a.shape[1] |-> At2(a, i, 1)]]
Row(a) == [shape |-> <<a.shape[2]>>, data |-> [i \in 1 .. a.shape[2] |-> At2(a, 1, i)]]
\* observed from time 2 on: the first time step is masked
Observations(a) == Mat2(a.shape[2] + 1, a.shape[1], LAMBDA t, j : IF t = 1 THEN "masked" ELSE At2(a, j, t - 1))
TimesEye(x, n) == Mat2(n, n, LAMBDA i, j : IF i = j THEN x ELSE "0.0")
Scalar(s) == [shape |-> <<>>, data |-> <<s>>]

N == Raw("A").shape[1]
M == Raw("C").shape[1]
\* field -> what it holds
Holds == [observations |-> Observations(Raw("y")),
          states |-> Transposed(Raw("x")),
          transition_matrix |-> Raw("A"), transition_offsets |-> Transposed(Raw("b")),
          observation_matrix |-> Raw("C"), observation_offset |-> Column(Raw("d")),
          initial_transition_covariance |-> TimesEye("10.0", N), initial_observation_covariance |-> TimesEye("10.0", M),
          transition_covariance |-> Raw("Q"), observation_covariance |-> Raw("R"),
          initial_state_mean |-> Column(Raw("x0")), initial_state_covariance |-> Raw("P_0"),
          filtered_state_means |-> Transposed(Raw("xfilt")), filtered_state_covariances |-> Raw("Vfilt"),
          smoothed_state_means |-> Transposed(Raw("xsmooth")), smoothed_state_covariances |-> Raw("Vsmooth"),
          loglikelihoods |-> Row(Raw("ll")), n_timesteps |-> Scalar("501.0")]
Fields == <<"observations", "states", "transition_matrix", "transition_offsets", "observation_matrix", "observation_offset",
            "initial_transition_covariance", "initial_observation_covariance", "transition_covariance", "observation_covariance",
            "initial_state_mean", "initial_state_covariance", "filtered_state_means", "filtered_state_covariances",
            "smoothed_state_means", "smoothed_state_covariances", "loglikelihoods", "n_timesteps">>

Name == Fields[field]
SameNumber(a, b) == a = b \/ (RIsNum(a) /\ RIsNum(b) /\ RParse(a) = RParse(b))
BadField ==
    IF C.err # "" THEN {ClauseOf("raised", C.err)}
    ELSE IF Name \notin DOMAIN C.got THEN {ClauseOf("field missing", Name)}
    ELSE LET got == C.got[Name]
             want == Holds[Name]
             shape == BadShape(Name, got, want.shape)
             wrong == {i \in DOMAIN want.data : ~SameNumber(got.data[i], want.data[i])}
         IN  IF shape # {} THEN shape
             ELSE IF wrong = {} THEN {}
             ELSE LET i == CHOOSE i \in wrong : \A j \in wrong : i <= j
                  IN  {ClauseOf(Name, "entry " \o ToString(i) \o " is " \o got.data[i] \o ", recorded " \o want.data[i]
                                      \o " (" \o ToString(Cardinality(wrong)) \o " entries differ)")}
Init == case \in DOMAIN Cases /\ field = 1 /\ bad = {}
Step == /\ field <= Len(Fields)
        /\ \E b \in {BadField} : bad' = bad \cup {[field |-> Name, clause |-> x.clause, detail |-> x.detail] : x \in b}
        /\ field' = field + 1 /\ UNCHANGED case
Finish == /\ field = Len(Fields) + 1 /\ field' = field + 1
          /\ PrintT("@@" \o ToJson([case |-> C.id, bad |-> SetSeq(bad)]))
          /\ UNCHANGED <<case, bad>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
