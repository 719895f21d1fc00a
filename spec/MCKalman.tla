------------------------------ MODULE MCKalman ------------------------------
(***************************************************************************)
(* Module Kalman on every model of a small family: state dimension 1 .. 2, *)
(* observation dimension 1 .. 2, T <= MaxT, parameters constant or varying *)
(* in time, regular and singular covariances, every pattern of missing     *)
(* observations, exact arithmetic.                                         *)
(***************************************************************************)
EXTENDS Kalman
CONSTANTS MaxT, Dims

I(x) == RInt(x)
V1 == {<<I(0)>>, <<I(2)>>}

\* families by dimension; each element a matrix / vector
Trans(n) == IF n = 1 THEN {<<<<RFrac(1, 2)>>>>, <<<<I(-1)>>>>, <<<<I(0)>>>>}
            ELSE {<<<<I(1), I(1)>>, <<I(0), I(1)>>>>, <<<<RFrac(1, 2), I(-1)>>, <<I(1), RFrac(1, 2)>>>>,
                  <<<<I(1), I(2)>>, <<I(2), I(4)>>>>}
Offs(n) == IF n = 1 THEN {<<I(0)>>, <<I(3)>>} ELSE {<<I(1), I(-2)>>}
TCov(n) == IF n = 1 THEN {<<<<I(1)>>>>, <<<<I(0)>>>>}
           ELSE {<<<<I(2), I(1)>>, <<I(1), I(2)>>>>, <<<<I(1), I(0)>>, <<I(0), I(0)>>>>, <<<<I(1), I(2)>>, <<I(2), I(4)>>>>}
OMat(m, n) == CASE m = 1 /\ n = 1 -> {<<<<I(2)>>>>}
                [] m = 1 /\ n = 2 -> {<<<<I(1), I(0)>>>>, <<<<I(1), I(-1)>>>>}
                [] m = 2 /\ n = 1 -> {<<<<I(1)>>, <<I(3)>>>>}
                [] m = 2 /\ n = 2 -> {<<<<I(1), I(1)>>, <<I(0), I(2)>>>>}
OCov(m) == IF m = 1 THEN {<<<<I(1)>>>>} ELSE {<<<<I(3), I(1)>>, <<I(1), I(1)>>>>}

\* varying in time: element k of the family rotated by t
Varying(S, k) == LET e == CHOOSE f \in [1 .. Cardinality(S) -> S] : \A i, j \in 1 .. Cardinality(S) : f[i] = f[j] => i = j
                 IN  [s \in 1 .. k |-> e[((s - 1) % Cardinality(S)) + 1]]
Const(S) == {<<x>> : x \in S}
Params(S, k) == Const(S) \cup (IF k > 1 /\ Cardinality(S) > 1 THEN {Varying(S, k)} ELSE {})

Models(T0) == UNION {{[n |-> dm[1], m |-> dm[2], A |-> A, b |-> b, Q |-> Q, C |-> C, d |-> d, R |-> R, mu0 |-> mu, S0 |-> S] :
             A \in Params(Trans(dm[1]), T0 - 1), b \in Params(Offs(dm[1]), T0 - 1),
             Q \in Params(TCov(dm[1]), T0 - 1), C \in Params(OMat(dm[2], dm[1]), T0),
             d \in Const(Offs(dm[2])), R \in Params(OCov(dm[2]) \cup {MScale(I(4), x) : x \in OCov(dm[2])}, T0),
             mu \in {CHOOSE v \in Offs(dm[1]) : TRUE}, S \in TCov(dm[1])} : dm \in Dims}

YAt(m, s) == Vec(m, LAMBDA i : RInt(((3 * s * s + 5 * i) % 7) - 3))
ObsSeqs(m, T0) == {[s \in 1 .. T0 |-> [miss |-> s \in M, y |-> YAt(m, s)]] : M \in SUBSET (1 .. T0)}

Init == \E T0 \in 1 .. MaxT : \E mo \in Models(T0) : \E os \in ObsSeqs(mo.m, T0) : StartWith(mo, os)
Dims11 == {<<1, 1>>}
Dims12 == {<<1, 2>>}
Dims21 == {<<2, 1>>}
Dims22 == {<<2, 2>>}
Spec == Init /\ [][Next]_kvars
=============================================================================
