----------------------------- MODULE MCSampling -----------------------------
(***************************************************************************)
(* All paths of small models with noises from a finite set: the noises are *)
(* recovered from the path, noises in the range of a (singular) covariance *)
(* are recognised as such and others are not, and noises that run through  *)
(* plus and minus the columns of a root of S standardise to mean square 1. *)
(***************************************************************************)
EXTENDS Sampling
CONSTANT MaxT

I(x) == RInt(x)
S1 == <<<<I(4), I(2)>>, <<I(2), I(1)>>>>          \* singular: range spanned by (2, 1)
S2 == <<<<I(4), I(2)>>, <<I(2), I(5)>>>>
Z2 == ZeroMat(2, 2)
Model(varying) ==
    LET lin(a, b, k) == <<[den |-> <<>>, lim |-> <<>>, num |-> <<[c |-> I(a), e |-> <<1, 0>>], [c |-> I(b), e |-> <<0, 1>>], [c |-> I(k), e |-> <<0, 0>>]>>],
                          [den |-> <<>>, lim |-> <<>>, num |-> <<[c |-> I(1), e |-> <<1, 1>>]>>]>>
    IN  [n |-> 2, m |-> 2, mu0 |-> <<I(1), I(-1)>>, S0 |-> S2,
         f |-> IF varying THEN <<lin(1, 1, 0), lin(0, 2, 1)>> ELSE <<lin(1, -1, 2)>>,
         g |-> IF varying THEN <<lin(2, 0, 0), lin(0, 1, 1), lin(1, 1, 1)>> ELSE <<lin(1, 1, 1)>>,
         Q |-> IF varying THEN <<S1, Z2>> ELSE <<S2>>,
         R |-> IF varying THEN <<S2, S1, Z2>> ELSE <<S1>>]
Noises == {<<I(a), I(b)>> : a \in {-2, 0, 2}, b \in {-1, 0, 1}}
Init == \E varying \in BOOLEAN : SStart(Model(varying))
Next == \/ Len(sx) < MaxT /\ \E w \in Noises : SMove(w)
        \/ \E v \in Noises : SEmit(v)
Spec == Init /\ [][Next]_svars

Recovered ==
    /\ \A t \in 1 .. Len(sx) : StateNoise(sm, sx, t) = sw[t]
    /\ \A t \in 1 .. Len(sy) : ObsNoise(sm, sx, sy, t) = sv[t]
InRange(S, w) == IF S = Z2 THEN w = ZeroVec(2) ELSE IF S = S1 THEN w[1] = RMul(R2, w[2]) ELSE TRUE
RangeKnown ==
    \A t \in 1 .. Len(sx) : LET S == StateCovAt(sm, t) IN (RSgn(OutOfRange(Standard(S), sw[t])) = 0) <=> InRange(S, sw[t])
ASSUME \A S \in {S1, S2, Z2} :
    LET st == Standard(S)
        roots == IF S = S1 THEN <<<<I(2), I(1)>>>> ELSE IF S = S2 THEN <<<<I(2), I(1)>>, <<I(0), I(2)>>>> ELSE <<<<R0, R0>>>>
        z == [k \in 1 .. Len(roots) |-> Standardised(st, roots[k])]
    IN  MSum([k \in 1 .. Len(roots) |-> Outer(z[k], z[k])])
        = Mtx(2, 2, LAMBDA i, j : IF i = j /\ Position(st.idx, i, Len(st.idx)) # 0 THEN R1 ELSE R0)
=============================================================================
