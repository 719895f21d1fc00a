----------------------------- MODULE Unscented ------------------------------
(***************************************************************************)
(* Unscented Kalman filters and smoothers as a state machine.              *)
(*                                                                         *)
(* A model is [kind, n, m, f, g, Q, R, mu0, S0].  f and g are sequences of *)
(* functions as LG has them of matrices: of length 1 if there is a single  *)
(* function, else one per time step.  kind "additive":                     *)
(*    x_{t+1} = f_t(x_t) + w_t,  y_t = g_t(x_t) + v_t                      *)
(* kind "augmented":                                                       *)
(*    x_{t+1} = f_t(x_t, w_t),   y_t = g_t(x_t, v_t)                       *)
(*                                                                         *)
(* Functions are those of module FunData; Bits: as in LG.                *)
(***************************************************************************)
EXTENDS FunData

(* The recursion takes roots and inverses of covariances.  Those computed  *)
(* from sigma points need not be positive definite: a weight 1 - n/3 may   *)
(* be negative.  Where one is not Regular the results are not defined.     *)
(* Second argument: sizes of the squares its diagonal was summed from.      *)
CONSTANT Regular(_, _)

(* Sigma points of N(mu, S): the mean, and the mean plus and minus sqrt(3) *)
(* times each column of the (lower) Cholesky factor of S; the mean weighs  *)
(* 1 - n/3, the others 1/6 each.                                           *)
SqrtBits == 140
Root3 == RSqrt(RInt(3), SqrtBits)
Points(bel) ==
    LET n == Len(bel.mean)
        L == Chol(bel.cov, SqrtBits)
        off(j) == VScale(Root3, Col(L, j))
    IN  TLCEval(<<bel.mean>> \o [j \in 1 .. n |-> VAdd(bel.mean, off(j))]
                             \o [j \in 1 .. n |-> VSub(bel.mean, off(j))])
Weight(n, k) == IF k = 1 THEN RSub(R1, RFrac(n, 3)) ELSE RFrac(1, 6)
Dims(pts) == (Len(pts) - 1) \div 2
WMean(pts) == LET n == Dims(pts) IN VVSum(TLCEval([k \in 1 .. Len(pts) |-> VScale(Weight(n, k), pts[k])]))
\* sum of w (p - mp)(q - mq)'
WCross(ps, mp, qs, mq) ==
    LET n == Dims(ps)
    IN  MSum(TLCEval([k \in 1 .. Len(ps) |-> MScale(Weight(n, k), Outer(VSub(ps[k], mp), VSub(qs[k], mq)))]))
Moments(pts) == LET mu == WMean(pts) IN Belief(mu, WCross(pts, mu, pts, mu))
Image(f, pts) == TLCEval([k \in 1 .. Len(pts) |-> VRound(Apply(f, pts[k]), Bits)])
\* largest squared deviation, of each component
RECURSIVE SpreadUpTo(_, _, _)
SpreadUpTo(pts, i, k) == IF k = 0 THEN R0
                         ELSE LET d == RSub(pts[k][i], pts[1][i]) IN RMax(RMul(d, d), SpreadUpTo(pts, i, k - 1))
Spread(pts) == Vec(Len(pts[1]), LAMBDA i : SpreadUpTo(pts, i, Len(pts)))
Plus(bel, Q) == Belief(bel.mean, MAdd(bel.cov, Q))

\* x, and independent zero-mean noise of covariance N
With(bel, N) == Belief(bel.mean \o ZeroVec(Rows(N)), BlockDiag(bel.cov, N))
Part(pts, a, b) == TLCEval([k \in 1 .. Len(pts) |-> TLCEval(SubSeq(pts[k], a, b))])

VARIABLES um, uobs, uphase, ut,
          upred,   \* belief about x_t before the observation
          upts,    \* the sigma points this belief and the observation are seen through
          usees,   \* those points as observed
          ufilt, usmo
uvars == <<um, uobs, uphase, ut, upred, upts, usees, ufilt, usmo>>

Additive == um.kind = "additive"
F(t) == At(um.f, t)
G(t) == At(um.g, t)

(* additive: points drawn from the predicted belief.                       *)
(* augmented: points drawn from (x, w, v) jointly before the transition,   *)
(* so that they keep carrying the observation noise; upts holds (x, v).    *)
DrawFirst(mo) ==
    IF mo.kind = "additive" THEN Points(Prior(mo))
    ELSE LET p == Points(With(With(Prior(mo), mo.Q), mo.R))
             n == mo.n
         IN  TLCEval([k \in 1 .. Len(p) |-> TLCEval(SubSeq(p[k], 1, n) \o SubSeq(p[k], 2 * n + 1, 2 * n + mo.m))])

UStart(mo, os) ==
    /\ um = mo /\ uobs = os
    /\ uphase = "predicted" /\ ut = 1
    /\ upred = Prior(mo) /\ upts = DrawFirst(mo) /\ usees = <<>>
    /\ ufilt = <<>> /\ usmo = <<>>

\* the step to phase p, or the end of what is defined
Reach(p, S, scale) == uphase' = IF Regular(S, scale) THEN p ELSE "lost"

UPredict ==
    /\ uphase = "filtered" /\ ut < Len(uobs)
    /\ IF Additive
       THEN \E x \in {Image(F(ut), Points(ufilt[ut]))} :
            \E b \in {BRound(Plus(Moments(x), um.Q))} :
              /\ upred' = b
              /\ upts' = IF Regular(b.cov, Spread(x)) THEN Points(b) ELSE <<>>
              /\ Reach("predicted", b.cov, Spread(x))
       ELSE \E p \in {Points(With(With(ufilt[ut], um.Q), um.R))} :
            \E x \in {Image(F(ut), Part(p, 1, 2 * um.n))} :
            \E b \in {BRound(Moments(x))} :
              /\ upred' = b
              /\ upts' = TLCEval([k \in 1 .. Len(p) |-> TLCEval(x[k] \o SubSeq(p[k], 2 * um.n + 1, 2 * um.n + um.m))])
              /\ Reach("predicted", b.cov, Spread(x))
    /\ ut' = ut + 1
    /\ UNCHANGED <<um, uobs, usees, ufilt, usmo>>

ObsMoments(z) == IF Additive THEN Plus(Moments(z), um.R) ELSE Moments(z)
USee ==
    /\ uphase = "predicted" /\ ~uobs[ut].miss
    /\ \E z \in {Image(G(ut), upts)} :
         /\ usees' = z
         /\ Reach("seen", ObsMoments(z).cov, Spread(z))
    /\ UNCHANGED <<um, uobs, ut, upred, upts, ufilt, usmo>>
UCorrect ==
    /\ uphase = "seen"
    /\ \E o \in {ObsMoments(usees)} :
       \E X \in {WCross(Part(upts, 1, um.n), upred.mean, usees, o.mean)} :
       \E K \in {MMul(X, PInv(o.cov))} :
       \E b \in {BRound(Belief(VAdd(upred.mean, MVec(K, VSub(uobs[ut].y, o.mean))),
                               MSub(upred.cov, MMulT(K, X))))} :
         /\ ufilt' = Append(ufilt, b)
         /\ Reach("filtered", b.cov, Diagonal(upred.cov))
    /\ UNCHANGED <<um, uobs, ut, upred, upts, usees, usmo>>
USkip ==
    /\ uphase = "predicted" /\ uobs[ut].miss
    /\ ufilt' = Append(ufilt, upred)
    /\ uphase' = "filtered"
    /\ UNCHANGED <<um, uobs, ut, upred, upts, usees, usmo>>

UTurn ==
    /\ uphase = "filtered" /\ ut = Len(uobs)
    /\ usmo' = <<ufilt[ut]>>
    /\ uphase' = "smoothing"
    /\ UNCHANGED <<um, uobs, ut, upred, upts, usees, ufilt>>
\* regression of x_t on x_{t+1} seen through sigma points of the filtered belief
USmoothStep ==
    /\ uphase = "smoothing" /\ ut > 1
    /\ \E b \in {ufilt[ut - 1]} :
       \E p \in {Points(IF Additive THEN b ELSE With(b, um.Q))} :
       \E x \in {Image(F(ut - 1), p)} :
       \E o \in {IF Additive THEN Plus(Moments(x), um.Q) ELSE Moments(x)} :
         IF Regular(o.cov, Spread(x))
         THEN \E K \in {MMul(WCross(Part(p, 1, um.n), b.mean, x, o.mean), PInv(o.cov))} :
              \E s \in {BRound(Belief(VAdd(b.mean, MVec(K, VSub(usmo[1].mean, o.mean))),
                                      MAdd(b.cov, Sandwich(K, MSub(usmo[1].cov, o.cov), K))))} :
                /\ usmo' = <<s>> \o usmo
                /\ Reach("smoothing", s.cov, Diagonal(b.cov))
         ELSE uphase' = "lost" /\ UNCHANGED usmo
    /\ ut' = ut - 1
    /\ UNCHANGED <<um, uobs, upred, upts, usees, ufilt>>
UFinish ==
    /\ uphase = "smoothing" /\ ut = 1
    /\ uphase' = "done"
    /\ UNCHANGED <<um, uobs, ut, upred, upts, usees, ufilt, usmo>>
UNext == UPredict \/ USee \/ UCorrect \/ USkip \/ UTurn \/ USmoothStep \/ UFinish
=============================================================================
