-------------------------------- MODULE LG ---------------------------------
(***************************************************************************)
(* Linear-Gaussian state space models                                      *)
(*                                                                         *)
(*     x_1 ~ N(mu0, S0)                                                    *)
(*     x_{t+1} = A_t x_t + b_t + w_t,   w_t ~ N(0, Q_t)                    *)
(*     y_t     = C_t x_t + d_t + v_t,   v_t ~ N(0, R_t)       t = 1 .. T   *)
(*                                                                         *)
(* A model is a record [n, m, A, b, Q, C, d, R, mu0, S0].  Each of A .. R  *)
(* is a sequence: of length 1 for a constant parameter, else of the        *)
(* parameter's value per time step (A_t, b_t, Q_t lead from t to t+1).     *)
(* An observation sequence is a sequence of records [miss, y].             *)
(* Bits = 0: exact arithmetic; otherwise results of a step are rounded to  *)
(* Bits binary digits (used for long recorded traces).                     *)
(***************************************************************************)
EXTENDS Gauss
CONSTANT Bits

At(p, t) == IF Len(p) = 1 THEN p[1] ELSE p[t]

BR(x) == IF Bits = 0 THEN x ELSE RRound(x, Bits)
BRound(bel) == IF Bits = 0 THEN bel
               ELSE Belief(VRound(bel.mean, Bits), Symmetrize(MRound(bel.cov, Bits)))

Prior(md) == Belief(md.mu0, md.S0)

\* belief about x_{t+1} from the belief about x_t
PredictFrom(md, t, bel) == BRound(Affine(bel, At(md.A, t), At(md.b, t), At(md.Q, t)))

\* predictive distribution of y_t from the belief about x_t
ObsFrom(md, t, bel) == Affine(bel, At(md.C, t), At(md.d, t), At(md.R, t))

\* belief about x_t after seeing y_t
CorrectWith(md, t, bel, y) ==
    LET o == ObsFrom(md, t, bel)
        K == MMul(MMulT(bel.cov, At(md.C, t)), PInv(o.cov))
        KC == MMul(K, At(md.C, t))
    IN  BRound(Belief(VAdd(bel.mean, MVec(K, VSub(y, o.mean))),
                      MSub(bel.cov, MMul(KC, bel.cov))))
AbsorbAt(md, t, bel, o) == IF o.miss THEN bel ELSE CorrectWith(md, t, bel, o.y)

\* gain of the smoother: regression of x_t on x_{t+1} given the past
SmootherGain(md, t, filt, pred) == MMul(MMulT(filt.cov, At(md.A, t)), PInv(pred.cov))
SmoothFrom(md, t, filt, pred, next) ==
    LET J == SmootherGain(md, t, filt, pred)
    IN  BRound(Belief(VAdd(filt.mean, MVec(J, VSub(next.mean, pred.mean))),
                      MAdd(filt.cov, Sandwich(J, MSub(next.cov, pred.cov), J))))

(***************************************************************************)
(* Whole runs, as functions.  (The machine of module Kalman takes the same *)
(* steps one at a time.)                                                   *)
(***************************************************************************)
RECURSIVE Forward(_, _, _)
\* <<[pred, filt], ...>> for times 1 .. t
Forward(md, obs, t) ==
    IF t = 0 THEN <<>>
    ELSE LET done == Forward(md, obs, t - 1)
             pred == IF t = 1 THEN Prior(md) ELSE PredictFrom(md, t - 1, done[t - 1].filt)
             filt == AbsorbAt(md, t, pred, obs[t])
         IN  TLCEval(Append(done, [pred |-> pred, filt |-> filt]))

RECURSIVE Backward(_, _, _)
\* smoothed beliefs for times t .. T
Backward(md, fwd, t) ==
    IF t = Len(fwd) THEN <<fwd[t].filt>>
    ELSE LET rest == Backward(md, fwd, t + 1)
         IN  TLCEval(<<SmoothFrom(md, t, fwd[t].filt, fwd[t + 1].pred, rest[1])>> \o rest)

(***************************************************************************)
(* The joint distribution of everything, and what it says.                 *)
(***************************************************************************)
RECURSIVE MeanOfX(_, _)
MeanOfX(md, t) == IF t = 1 THEN md.mu0
                  ELSE VAdd(MVec(At(md.A, t - 1), MeanOfX(md, t - 1)), At(md.b, t - 1))
RECURSIVE CovOfX(_, _, _)
\* Cov(x_t, x_s), s <= t
CovOfX(md, t, s) ==
    IF t = 1 THEN md.S0
    ELSE IF s = t THEN MAdd(Sandwich(At(md.A, t - 1), CovOfX(md, t - 1, t - 1), At(md.A, t - 1)), At(md.Q, t - 1))
    ELSE MMul(At(md.A, t - 1), CovOfX(md, t - 1, s))

Seen(obs) == {t \in 1 .. Len(obs) : ~obs[t].miss}
\* ascending enumeration of a set of integers
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>>
                ELSE LET k == CHOOSE k \in S : \A h \in S : k <= h IN <<k>> \o Ascending(S \ {k})

\* joint belief about (x_1, .., x_T, then y_t for each t in the sequence os)
Joint(md, T, os) ==
    LET n == md.n
        m == md.m
        mx == TLCEval([t \in 1 .. T |-> MeanOfX(md, t)])
        cx == TLCEval([t \in 1 .. T |-> TLCEval([s \in 1 .. T |->
                 IF s <= t THEN CovOfX(md, t, s) ELSE MT(CovOfX(md, s, t))])])
        B(i) == (i - 1) \div n + 1
        I(i) == ((i - 1) % n) + 1
        Sx == Mtx(n * T, n * T, LAMBDA i, j : cx[B(i)][B(j)][I(i)][I(j)])
        Mx == Vec(n * T, LAMBDA i : mx[B(i)][I(i)])
        k == Len(os)
        Bo(i) == os[(i - 1) \div m + 1]
        Io(i) == ((i - 1) % m) + 1
        H == Mtx(m * k, n * T, LAMBDA i, j : IF B(j) = Bo(i) THEN At(md.C, Bo(i))[Io(i)][I(j)] ELSE R0)
        Rk == Mtx(m * k, m * k, LAMBDA i, j : IF Bo(i) = Bo(j) THEN At(md.R, Bo(i))[Io(i)][Io(j)] ELSE R0)
        dk == Vec(m * k, LAMBDA i : At(md.d, Bo(i))[Io(i)])
        SxH == MMulT(Sx, H)
    IN  IF k = 0 THEN Belief(Mx, Sx)
        ELSE Belief(Mx \o VAdd(MVec(H, Mx), dk),
                    Block2(Sx, SxH, MT(SxH), MAdd(MMul(H, SxH), Rk)))

XIdx(md, t) == Vec(md.n, LAMBDA i : md.n * (t - 1) + i)
YIdx(md, T, os) == Vec(md.m * Len(os), LAMBDA i : md.n * T + i)
Stacked(md, obs, os) == Vec(md.m * Len(os), LAMBDA i : obs[os[(i - 1) \div md.m + 1]].y[((i - 1) % md.m) + 1])

\* distribution of x_t given the observations at the times in os
Posterior(md, obs, T, t, os) ==
    Condition(Joint(md, T, os), XIdx(md, t), YIdx(md, T, os), Stacked(md, obs, os))
\* joint distribution of (x_t, x_s) given them
PosteriorPair(md, obs, T, t, s, os) ==
    Condition(Joint(md, T, os), XIdx(md, t) \o XIdx(md, s), YIdx(md, T, os), Stacked(md, obs, os))
Evidence(md, obs, T, os) ==
    LET j == Joint(md, T, os) IN Belief(SubVec(j.mean, YIdx(md, T, os)), SubMat(j.cov, YIdx(md, T, os), YIdx(md, T, os)))
=============================================================================
