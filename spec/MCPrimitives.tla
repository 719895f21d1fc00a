---------------------------- MODULE MCPrimitives ----------------------------
(***************************************************************************)
(* Module Primitives on all small integer matrices: every L L' with entries*)
(* of L (lower or upper triangular) between -Top and Top, singular ones    *)
(* included; every update of R'DR by an integer vector.                    *)
(***************************************************************************)
EXTENDS Primitives
CONSTANTS N, Top
E == -Top .. Top
Tri == {<<i, j>> \in (1 .. N) \X (1 .. N) : i <= j}
FromTri(f) == Mtx(N, N, LAMBDA i, j : IF i <= j THEN RInt(f[<<i, j>>]) ELSE R0)
Matrices(n) == {Gram(R) : R \in {FromTri(f) : f \in [Tri -> E]}}
Unit == {t \in Tri : t[1] # t[2]}
FromUnit(f) == Mtx(N, N, LAMBDA i, j : IF i = j THEN R1 ELSE IF i < j THEN RInt(f[<<i, j>>]) ELSE R0)
IVec(f) == Vec(N, LAMBDA i : RInt(f[i]))
Updates(n) == {u \in {[R |-> FromUnit(f), D |-> IVec(d), x |-> IVec(x), w |-> w] :
                   f \in [Unit -> E], d \in [1 .. N -> 0 .. 2], x \in [1 .. N -> E], w \in {RInt(2), RFrac(1, 2), RInt(-1), RFrac(-1, 3)}} :
               IsPSD(WithVectors(RtDR(u.R, u.D), <<u.x>>, u.w))}
Init == FInit(Matrices(N)) /\ UInit({[R |-> Eye(N), D |-> ZeroVec(N), x |-> ZeroVec(N), w |-> R0]})
Init2 == FInit({Eye(1)}) /\ UInit(Updates(N))
Spec == Init /\ [][FStep /\ UNCHANGED uvars]_<<fvars, uvars>>
Spec2 == Init2 /\ [][UStep /\ UNCHANGED fvars]_<<fvars, uvars>>
=============================================================================
