--------------------------------- MODULE EM ---------------------------------
(***************************************************************************)
(* Expectation-maximisation for linear-Gaussian models.                    *)
(*                                                                         *)
(* The E step is the posterior of the states: means, covariances, and the  *)
(* covariances of neighbours.  The M step replaces the parameters to be    *)
(* fitted one after the other, in the order of FitOrder, each by the value *)
(* maximising the expected complete-data log-likelihood with the others as *)
(* they are at that point.                                                 *)
(***************************************************************************)
EXTENDS LG

FitOrder == <<"observation_matrices", "observation_covariance", "transition_matrices", "transition_covariance",
              "initial_state_mean", "initial_state_covariance", "transition_offsets", "observation_offsets">>
Fittable == {FitOrder[i] : i \in 1 .. Len(FitOrder)}
DefaultFit == {"transition_covariance", "observation_covariance", "initial_state_mean", "initial_state_covariance"}
\* em(em_vars = arg) on an object whose em_vars attribute is attr; "none" if not given
FittedBy(arg, attr) ==
    LET said == IF arg # <<"none">> THEN arg ELSE attr
    IN  IF said = <<"none">> THEN DefaultFit
        ELSE IF said = <<"all">> THEN Fittable
        ELSE {said[i] : i \in 1 .. Len(said)}

(* E step: x[t], V[t], W[t] = Cov(x_{t+1}, x_t) given all observations.    *)
Expect(md, obs) ==
    LET fwd == Forward(md, obs, Len(obs))
        smo == Backward(md, fwd, 1)
        T == Len(obs)
    IN  [x |-> TLCEval([t \in 1 .. T |-> smo[t].mean]),
         V |-> TLCEval([t \in 1 .. T |-> smo[t].cov]),
         W |-> TLCEval([t \in 1 .. T - 1 |->
                 MMulT(smo[t + 1].cov, SmootherGain(md, t, fwd[t].filt, fwd[t + 1].pred))])]

Exx(e, t) == MAdd(e.V[t], Outer(e.x[t], e.x[t]))
SeenSeq(obs) == Ascending(Seen(obs))
Over(s, f(_)) == TLCEval([i \in 1 .. Len(s) |-> f(s[i])])
Mean(k, S) == MScale(RFrac(1, k), S)
\* E[(u - A v - c)(u - A v - c)'] for E[u]=mu, Var u = U, E[v] = mv, Var v = V, Cov(u,v) = W
ResidualMoment(A, c, mu, U, mv, V, W) ==
    LET r == VSub(VSub(mu, MVec(A, mv)), c)
        WA == MMulT(W, A)
    IN  MAdd(Outer(r, r), MAdd(Sandwich(A, V, A), MSub(U, MAdd(WA, MT(WA)))))
ObsMoment(md, e, obs, t) ==
    ResidualMoment(At(md.C, t), At(md.d, t), obs[t].y, ZeroMat(md.m, md.m), e.x[t], e.V[t], ZeroMat(md.m, md.n))
StepMoment(md, e, t) ==
    ResidualMoment(At(md.A, t), At(md.b, t), e.x[t + 1], e.V[t + 1], e.x[t], e.V[t], e.W[t])

\* M step, one parameter.  There must be something to fit it to.
Determined(p, obs) ==
    IF p \in {"observation_matrices", "observation_covariance", "observation_offsets"} THEN Seen(obs) # {}
    ELSE IF p \in {"transition_matrices", "transition_covariance", "transition_offsets"} THEN Len(obs) > 1
    ELSE TRUE
Fit(p, md, e, obs) ==
    LET T == Len(obs)
        seen == SeenSeq(obs)
        steps == Range1(T - 1)
    IN  CASE p = "observation_matrices" ->
               [md EXCEPT !.C = <<MMul(MSum(Over(seen, LAMBDA t : Outer(VSub(obs[t].y, At(md.d, t)), e.x[t]))),
                                       Inv(MSum(Over(seen, LAMBDA t : Exx(e, t)))))>>]
          [] p = "observation_covariance" ->
               [md EXCEPT !.R = <<Mean(Len(seen), MSum(Over(seen, LAMBDA t : ObsMoment(md, e, obs, t))))>>]
          [] p = "transition_matrices" ->
               [md EXCEPT !.A = <<MMul(MSum(Over(steps, LAMBDA t : MAdd(e.W[t], Outer(VSub(e.x[t + 1], At(md.b, t)), e.x[t])))),
                                       Inv(MSum(Over(steps, LAMBDA t : Exx(e, t)))))>>]
          [] p = "transition_covariance" ->
               [md EXCEPT !.Q = <<Mean(T - 1, MSum(Over(steps, LAMBDA t : StepMoment(md, e, t))))>>]
          [] p = "initial_state_mean" -> [md EXCEPT !.mu0 = e.x[1]]
          [] p = "initial_state_covariance" ->
               [md EXCEPT !.S0 = LET r == VSub(e.x[1], md.mu0) IN MAdd(e.V[1], Outer(r, r))]
          [] p = "transition_offsets" ->
               [md EXCEPT !.b = <<VScale(RFrac(1, T - 1),
                                    VVSum(Over(steps, LAMBDA t : VSub(e.x[t + 1], MVec(At(md.A, t), e.x[t])))))>>]
          [] p = "observation_offsets" ->
               [md EXCEPT !.d = <<VScale(RFrac(1, Len(seen)),
                                    VVSum(Over(seen, LAMBDA t : VSub(obs[t].y, MVec(At(md.C, t), e.x[t])))))>>]

RoundModel(md) ==
    IF Bits = 0 THEN md
    ELSE LET rm(s) == TLCEval([i \in 1 .. Len(s) |-> MRound(s[i], Bits)])
             rs(s) == TLCEval([i \in 1 .. Len(s) |-> Symmetrize(MRound(s[i], Bits))])
             rv(s) == TLCEval([i \in 1 .. Len(s) |-> VRound(s[i], Bits)])
         IN  [md EXCEPT !.A = rm(md.A), !.C = rm(md.C), !.Q = rs(md.Q), !.R = rs(md.R), !.b = rv(md.b), !.d = rv(md.d),
                        !.mu0 = VRound(md.mu0, Bits), !.S0 = Symmetrize(MRound(md.S0, Bits))]

(* The log-likelihood of the observations, to p bits.                      *)
LogLik(md, obs, p) ==
    LET fwd == Forward(md, obs, Len(obs))
        seen == SeenSeq(obs)
        term(t) == LET o == ObsFrom(md, t, fwd[t].pred) IN RRound(LogDensity(obs[t].y, o.mean, o.cov, p), p)
    IN  VSum(Over(seen, term))

(***************************************************************************)
(* What EM maximises: the expected complete-data log-likelihood of a model *)
(* given moments of the states (times -2, without constants).              *)
(***************************************************************************)
TraceProd(A, B) == VSum(Vec(Rows(A), LAMBDA i : RDot(A[i], Col(B, i))))
Cost(S, M, k, p) == RAdd(RMul(RInt(k), RLn(DetPSD(S), p)), TraceProd(Inv(S), M))
ExpectedCost(md, e, obs, p) ==
    LET T == Len(obs)
        seen == SeenSeq(obs)
        r0 == VSub(e.x[1], md.mu0)
    IN  RAdd(Cost(md.S0, MAdd(e.V[1], Outer(r0, r0)), 1, p),
        RAdd(VSum(Over(Range1(T - 1), LAMBDA t : Cost(At(md.Q, t), StepMoment(md, e, t), 1, p))),
             VSum(Over(seen, LAMBDA t : Cost(At(md.R, t), ObsMoment(md, e, obs, t), 1, p)))))
=============================================================================
