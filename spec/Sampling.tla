------------------------------ MODULE Sampling ------------------------------
(***************************************************************************)
(* Drawing from a model.  A model here is [n, m, f, g, Q, R, mu0, S0]: f,  *)
(* g sequences of functions of (x), Q, R sequences of covariances (length  *)
(* 1: the same at all times), the noise added.  A path is drawn step by    *)
(* step; the noises are what the environment contributes.                  *)
(*                                                                         *)
(* Residuals recovers the noises from a path: the judge's side of it.      *)
(***************************************************************************)
EXTENDS FunData

VARIABLES sm, sx, sy, sw, sv    \* model; states, observations so far; noises drawn
svars == <<sm, sx, sy, sw, sv>>

SStart(mo) == sm = mo /\ sx = <<>> /\ sy = <<>> /\ sw = <<>> /\ sv = <<>>
\* w: the deviation of the first state from mu0, or the noise of a transition
SMove(w) ==
    /\ Len(sx) = Len(sy)
    /\ sx' = Append(sx, IF sx = <<>> THEN VAdd(sm.mu0, w) ELSE VAdd(Apply(At(sm.f, Len(sx)), sx[Len(sx)]), w))
    /\ sw' = Append(sw, w)
    /\ UNCHANGED <<sm, sy, sv>>
SEmit(v) ==
    /\ Len(sy) < Len(sx)
    /\ sy' = Append(sy, VAdd(Apply(At(sm.g, Len(sx)), sx[Len(sx)]), v))
    /\ sv' = Append(sv, v)
    /\ UNCHANGED <<sm, sx, sw>>

StateNoise(mo, x, t) == IF t = 1 THEN VSub(x[1], mo.mu0) ELSE VSub(x[t], Apply(At(mo.f, t - 1), x[t - 1]))
ObsNoise(mo, x, y, t) == VSub(y[t], Apply(At(mo.g, t), x[t]))
StateCovAt(mo, t) == IF t = 1 THEN mo.S0 ELSE At(mo.Q, t - 1)
ObsCovAt(mo, t) == At(mo.R, t)

(* Standardising: for a noise of covariance S = F K F', K regular (its     *)
(* rows and columns idx), the components idx of the noise determine it,    *)
(* and the inverse Cholesky factor of K makes them uncorrelated with unit  *)
(* variance.  As vectors of full length, zero outside idx.                 *)
RECURSIVE Position(_, _, _)
Position(idx, i, k) == IF k = 0 THEN 0 ELSE IF idx[k] = i THEN k ELSE Position(idx, i, k - 1)
Standard(S) ==
    LET idx == RankIdx(S)
    IN  IF idx = <<>> THEN [idx |-> idx, W |-> <<>>, P |-> Eye(Rows(S))]
        ELSE [idx |-> idx,
              W |-> Inv(Chol(SubMat(S, idx, idx), 80)),
              \* distance from the range of S
              P |-> MSub(Eye(Rows(S)), MMul(S, PInv(S)))]
Standardised(st, w) ==
    IF st.idx = <<>> THEN ZeroVec(Len(w))
    ELSE LET z == MVec(st.W, SubVec(w, st.idx))
         IN  Vec(Len(w), LAMBDA i : LET k == Position(st.idx, i, Len(st.idx)) IN IF k = 0 THEN R0 ELSE RRound(z[k], 50))
OutOfRange(st, w) == VMaxAbs(MVec(st.P, w))
=============================================================================
