--------------------------- MODULE ScenPrimitives ---------------------------
(***************************************************************************)
(* Inputs for the routines of module Primitives, up to numbers.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Routines, MaxN
VARIABLES stage, sc
vars == <<stage, sc>>
Styles == {"generic", "integer", "scaled"}
\* how arrays are handed over
Reps == <<"plain", "plain", "plain", "fortran", "strided", "frozen">>
Init == stage = 0 /\ sc = [routine |-> "", n |-> 0]
Routine == /\ stage = 0
           /\ \E r \in Routines, n \in 1 .. MaxN, st \in Styles, i \in DOMAIN Reps :
                sc' = [routine |-> r, n |-> n, style |-> st, rep |-> Reps[i]]
           /\ stage' = 1
With(f) == sc' = f @@ sc
Detail ==
    /\ stage = 1
    /\ CASE sc.routine = "udu" -> \E k \in 0 .. sc.n : With([rank |-> k])
         [] sc.routine = "update" -> \E v \in 0 .. 4, s \in {"up", "up", "down", "singular"}, neg \in BOOLEAN, w \in 1 .. 4 :
              \* v = 0: a vector not in an array of vectors
              With([vectors |-> IF s = "singular" THEN v % 2 ELSE v, sign |-> s, negative |-> neg, weight |-> w])
         [] sc.routine = "qr" -> \E k \in {0, 0, 1, 2, 7} : \E d \in BOOLEAN : With([extra |-> k, deficient |-> d])
         [] sc.routine \in {"points", "root points"} -> \E a \in {0, 1, 2, 3}, b \in {0, 1, 2}, k \in {0, 1, 2} : With([alpha |-> a, beta |-> b, kappa |-> k])
         [] sc.routine \in {"moments", "root moments"} -> \E w \in {"default", "equal", "odd"}, q \in BOOLEAN, c \in BOOLEAN : With([weights |-> w, noise |-> q, curved |-> c])
         [] sc.routine = "transform" -> \E q \in BOOLEAN, f \in {"none", "affine", "affine noise"}, k \in 1 .. 3 : With([noise |-> q, function |-> f, m |-> k])
         [] sc.routine = "joint" -> \E k \in 1 .. 3 : With([parts |-> [i \in 1 .. k |-> ((sc.n + i * i) % 3) + 1]])
         [] sc.routine = "density" -> \E x \in 1 .. 4, k \in 1 .. 3 : With([samples |-> x, mixtures |-> k])
    /\ stage' = 2
Emit == stage = 2 /\ PrintT("@@" \o ToJson(sc)) /\ stage' = 3 /\ UNCHANGED sc
Next == Routine \/ Detail \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
