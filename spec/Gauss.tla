------------------------------- MODULE Gauss -------------------------------
(***************************************************************************)
(* Multivariate normal distributions, given by mean and covariance.        *)
(***************************************************************************)
EXTENDS Mat

Belief(mu, S) == [mean |-> mu, cov |-> S]

\* Image under x -> A x + b, plus independent zero-mean noise of covariance Q
Affine(bel, A, b, Q) ==
    Belief(VAdd(MVec(A, bel.mean), b), MAdd(Sandwich(A, bel.cov, A), Q))

(* Distribution of the components ix of a normal vector given that the     *)
(* components iy have the value y.  The definition is the textbook one;    *)
(* everything else in this directory is held against it.                   *)
Condition(bel, ix, iy, y) ==
    IF iy = <<>> THEN Belief(SubVec(bel.mean, ix), SubMat(bel.cov, ix, ix))
    ELSE LET Sxx == SubMat(bel.cov, ix, ix)
             Sxy == SubMat(bel.cov, ix, iy)
             Syy == SubMat(bel.cov, iy, iy)
             K == MMul(Sxy, PInv(Syy))
         IN  Belief(VAdd(SubVec(bel.mean, ix), MVec(K, VSub(y, SubVec(bel.mean, iy)))),
                    MSub(Sxx, MMulT(K, Sxy)))

\* (y - mu)' S^-1 (y - mu), for regular S
Mahalanobis(y, mu, S) == LET r == VSub(y, mu) IN RDot(r, MVec(Inv(S), r))

\* -1/2 (k ln 2pi + ln det S + Mahalanobis), to p bits, for regular S
LogDensity(y, mu, S, p) ==
    LET k == Len(y)
    IN  RNeg(RHalf(RAdd(RMul(RInt(k), RLn(RMul(R2, RPi(p)), p)),
                        RAdd(RLn(DetPSD(S), p), Mahalanobis(y, mu, S)))))

\* A <= B in the Loewner order
LoewnerLe(A, B) == IsPSD(MSub(B, A))
=============================================================================
