------------------------------ MODULE TraceCov ------------------------------
(***************************************************************************)
(* Recorded covariances against what module Kalman guarantees of them      *)
(* (CovarianceValid): symmetric, positive semidefinite, and never larger   *)
(* with more information - up to rounding, relative to the size of the     *)
(* matrix itself, or of the largest covariance in the case.                *)
(*                                                                         *)
(* A reading: [who, err, of ("own" / "case"), tol, n, covs, above]; covs   *)
(* and above are recorded arrays [count, n, n] (above may be empty): each  *)
(* covs[k] is valid, and below above[k].                                   *)
(***************************************************************************)
EXTENDS Compare, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VTRACE)
VARIABLES case, reading, bad
vars == <<case, reading, bad>>
Readings == Cases[case].readings
Rd == Readings[reading]

\* (by halves: sequences may be long)
RECURSIVE BigIn(_, _, _)
BigIn(data, i, j) == IF i > j THEN R0
                     ELSE IF i = j THEN IF RIsNum(data[i]) THEN RAbs(RParse(data[i])) ELSE R0
                     ELSE LET h == (i + j) \div 2 IN RMax(BigIn(data, i, h), BigIn(data, h + 1, j))
Big(data) == BigIn(data, 1, Len(data))
RECURSIVE BigOver(_, _)
BigOver(rs, i) == IF i = 0 THEN R0 ELSE RMax(RMax(Big(rs[i].covs.data), Big(rs[i].above.data)), BigOver(rs, i - 1))
CaseScale == TLCEval([c \in DOMAIN Cases |-> RMax(RParse(Cases[c].scale), BigOver(Cases[c].readings, Len(Cases[c].readings)))])

AddEye(S, x) == Mtx(Rows(S), Rows(S), LAMBDA i, j : IF i = j THEN RAdd(S[i][j], x) ELSE S[i][j])
Asymmetry(S) == VMaxAbs(Vec(Rows(S) * Rows(S), LAMBDA k : LET i == ((k - 1) \div Rows(S)) + 1 j == ((k - 1) % Rows(S)) + 1
                                                       IN RSub(S[i][j], S[j][i])))
NotValid(S, lim) ==
    IF RLt(lim, Asymmetry(S)) THEN {ClauseOf("symmetric", "differs from its transpose by " \o RStr(Asymmetry(S)))}
    ELSE IF IsPSD(AddEye(Symmetrize(S), lim)) THEN {} ELSE {ClauseOf("positive semidefinite", ToString([i \in 1 .. Rows(S) |-> [j \in 1 .. Rows(S) |-> RStr(S[i][j])]]))}
NotBelow(S, U, lim) ==
    IF IsPSD(AddEye(Symmetrize(MSub(U, S)), lim)) THEN {}
    ELSE {ClauseOf("not larger with more information", ToString([i \in 1 .. Rows(S) |-> [j \in 1 .. Rows(S) |-> RStr(RSub(U[i][j], S[i][j]))]]))}

Block(a, k, n) == SubSeq(a.data, (k - 1) * n * n + 1, k * n * n)
BadAt(k) ==
    LET n == Rd.n
        tol == RParse(Rd.tol)
        data == Block(Rd.covs, k, n)
    IN  IF ~AllNum(data) THEN {ClauseOf("finite", "entry is " \o FirstNonNum(data))}
        ELSE LET S == MatAt(Rd.covs, k, n)
                 lim == RMul(tol, IF Rd.of = "own" THEN Big(data) ELSE CaseScale[case])
             IN  NotValid(S, lim)
                 \cup IF Rd.above.shape = <<>> \/ ~AllNum(Block(Rd.above, k, n)) THEN {}
                      ELSE NotBelow(S, MatAt(Rd.above, k, n), RMul(tol, IF Rd.of = "own" THEN Big(Block(Rd.above, k, n)) ELSE CaseScale[case]))
BadReading ==
    LET at(k, cs) == {[reading |-> reading, time |-> k, clause |-> c.clause, detail |-> c.detail] : c \in cs}
    IN  IF Rd.err # "" THEN at(0, {ClauseOf("raised", Rd.err)})
        ELSE LET shape == BadShape("covariances", Rd.covs, <<Rd.count, Rd.n, Rd.n>>)
             IN  IF shape # {} THEN at(0, shape)
                 ELSE UNION {at(k, BadAt(k)) : k \in 1 .. Rd.count}

Init == case \in DOMAIN Cases /\ reading = 1 /\ bad = {}
Step == /\ reading <= Len(Readings)
        /\ \E b \in {BadReading} : bad' = bad \cup b
        /\ reading' = reading + 1 /\ UNCHANGED case
Finish == /\ reading = Len(Readings) + 1 /\ reading' = reading + 1
          /\ PrintT("@@" \o ToJson([case |-> Cases[case].id, bad |-> SetSeq(bad)]))
          /\ UNCHANGED <<case, bad>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
