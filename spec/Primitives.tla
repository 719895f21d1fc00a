----------------------------- MODULE Primitives -----------------------------
(***************************************************************************)
(* The factorisations the square root filters are made of, free of square  *)
(* roots, as machines that work in place of one row or column at a time,   *)
(* and sigma points.  TracePrimitives judges the real routines by what the *)
(* machines are shown here to maintain.                                    *)
(***************************************************************************)
EXTENDS Gauss

\* U D U', D a vector
Rebuild(U, D) == Sandwich(U, Diag(D), U)
\* R'R
Gram(R) == LET Rt == MT(R) IN MMulT(Rt, Rt)
UnitUpper(U) == \A i, j \in 1 .. Rows(U) : (i = j => U[i][j] = R1) /\ (i > j => RSgn(U[i][j]) = 0)
WithVectors(A, X, w) == IF X = <<>> THEN A ELSE MAdd(A, MSum(TLCEval([k \in 1 .. Len(X) |-> MScale(w, Outer(X[k], X[k]))])))

---------------------------------------------------------------------------
(* A = U D U', U unit upper triangular: columns from the last to the first.*)
VARIABLES fa,          \* the matrix to be factored
          fm, fu, fd, fj
fvars == <<fa, fm, fu, fd, fj>>
FInit(S) == /\ fa \in S /\ fm = fa /\ fu = Eye(Rows(fa)) /\ fd = ZeroVec(Rows(fa)) /\ fj = Rows(fa)
FStep ==
    /\ fj > 0
    /\ \E d \in {fm[fj][fj]} :
       \E u \in {Vec(Rows(fa), LAMBDA i : IF i = fj THEN R1 ELSE IF i > fj \/ RSgn(d) = 0 THEN R0 ELSE RDiv(fm[i][fj], d))} :
         /\ fd' = [fd EXCEPT ![fj] = d]
         /\ fu' = Mtx(Rows(fa), Rows(fa), LAMBDA i, j : IF j = fj THEN u[i] ELSE fu[i][j])
         /\ fm' = MSub(fm, MScale(d, Outer(u, u)))
    /\ fj' = fj - 1 /\ UNCHANGED fa
FDone == fj = 0

\* what has been taken out, and what is left, make up the matrix
FactorsRebuild == /\ MAdd(Rebuild(fu, fd), fm) = fa
                  /\ UnitUpper(fu) /\ \A i \in 1 .. Len(fd) : RSgn(fd[i]) >= 0
                  /\ IsPSD(fm)
FactoredAll == FDone => Rebuild(fu, fd) = fa

---------------------------------------------------------------------------
(* A + w x x' where A = R'DR, R unit upper triangular: rows from the first *)
(* to the last.  w may be negative as long as the result is positive       *)
(* semidefinite.                                                           *)
VARIABLES ua, ux0, uw0,    \* as given
          urows, ud, ux, uw, uk
uvars == <<ua, ux0, uw0, urows, ud, ux, uw, uk>>
RtDR(R, D) == LET Rt == MT(R) IN Rebuild(Rt, D)
UInit(S) == \E s \in S :
              /\ ua = RtDR(s.R, s.D) /\ ux0 = s.x /\ uw0 = s.w
              /\ urows = s.R /\ ud = s.D /\ ux = s.x /\ uw = s.w /\ uk = 1
UStep ==
    /\ uk <= Len(ux)
    /\ \E d \in {RAdd(ud[uk], RMul(uw, RMul(ux[uk], ux[uk])))} :
       \E x \in {VSub(ux, VScale(ux[uk], urows[uk]))} :
         IF RSgn(d) = 0
         THEN /\ ud' = [ud EXCEPT ![uk] = R0]
              /\ ux' = x /\ UNCHANGED <<urows, uw>>
         ELSE /\ ud' = [ud EXCEPT ![uk] = d]
              /\ urows' = [urows EXCEPT ![uk] = VAdd(urows[uk], VScale(RDiv(RMul(uw, ux[uk]), d), x))]
              /\ ux' = x /\ uw' = RDiv(RMul(uw, ud[uk]), d)
    /\ uk' = uk + 1 /\ UNCHANGED <<ua, ux0, uw0>>
UDone == uk > Len(ux)

UpdateMaintained == MAdd(RtDR(urows, ud), MScale(uw, Outer(ux, ux))) = WithVectors(ua, <<ux0>>, uw0)
UpdateTriangular == UnitUpper(urows) /\ \A i \in 1 .. Len(ud) : RSgn(ud[i]) >= 0
UpdatedAll == UDone => RtDR(urows, ud) = WithVectors(ua, <<ux0>>, uw0)

---------------------------------------------------------------------------
(* Points with weights of mean and of covariance.                          *)
PMean(p) == VVSum(TLCEval([k \in 1 .. Len(p.at) |-> VScale(p.wm[k], p.at[k])]))
PCross(p, mp, q, mq) == MSum(TLCEval([k \in 1 .. Len(p.at) |-> MScale(p.wc[k], Outer(VSub(p.at[k], mp), VSub(q.at[k], mq)))]))
PMoments(p) == LET mu == PMean(p) IN Belief(mu, PCross(p, mu, p, mu))
=============================================================================
