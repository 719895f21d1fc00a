-------------------------------- MODULE MCEM --------------------------------
(***************************************************************************)
(* Module Fitting on small models: that the moments of the E step are      *)
(* those of the joint distribution, that each update of the M step is a    *)
(* maximum, and that the likelihood of the data never falls.               *)
(***************************************************************************)
EXTENDS Fitting
CONSTANTS MaxIter, Dims, Lengths

F(a, b) == RFrac(a, b)
I(x) == RInt(x)
P == 80
Slack == RPow2(-50)

Base(n, m) ==
    [n |-> n, m |-> m,
     A |-> <<IF n = 1 THEN <<<<F(1, 2)>>>> ELSE <<<<I(1), F(1, 2)>>, <<I(0), F(3, 4)>>>>>>,
     b |-> <<Vec(n, LAMBDA i : F(i, 4))>>,
     Q |-> <<IF n = 1 THEN <<<<I(1)>>>> ELSE <<<<I(2), F(1, 2)>>, <<F(1, 2), I(1)>>>>>>,
     C |-> <<Mtx(m, n, LAMBDA i, j : F(i + 2 * j, 2))>>,
     d |-> <<Vec(m, LAMBDA i : F(-i, 2))>>,
     R |-> <<IF m = 1 THEN <<<<I(2)>>>> ELSE <<<<I(2), I(-1)>>, <<I(-1), I(1)>>>>>>,
     mu0 |-> Vec(n, LAMBDA i : I(i - 1)),
     S0 |-> IF n = 1 THEN <<<<I(3)>>>> ELSE <<<<I(1), F(1, 4)>>, <<F(1, 4), I(2)>>>>]
Data(m, T, M) == [s \in 1 .. T |-> [miss |-> s \in M, y |-> Vec(m, LAMBDA i : I(((5 * s * s + 3 * i * s + i) % 9) - 4))]]
VarSets == {DefaultFit, Fittable} \cup {{p} : p \in Fittable} \cup {Fittable \ {p} : p \in Fittable}

Init == \E dm \in Dims, T \in Lengths, V \in VarSets :
            \E M \in SUBSET (1 .. T) :
               /\ Cardinality(M) < T
               /\ StartFit(Base(dm[1], dm[2]), Data(dm[2], T, M), V, MaxIter)
Spec == Init /\ [][EStep \/ MStep]_fvars

Near(A, B) == \A i \in 1 .. Rows(A), j \in 1 .. Cols(A) : RLe(RAbs(RSub(A[i][j], B[i][j])), Slack)
MomentsAreJoint ==
    stage = 1 => \A t \in 1 .. Len(obs) - 1 :
        LET pp == PosteriorPair(md, obs, Len(obs), t + 1, t, SeenSeq(obs))
            n == md.n
        IN  /\ Near(<<pp.mean>>, <<e.x[t + 1] \o e.x[t]>>)
            /\ Near(SubMat(pp.cov, Range1(n), Vec(n, LAMBDA i : n + i)), e.W[t])
            /\ Near(SubMat(pp.cov, Range1(n), Range1(n)), e.V[t + 1])

\* parameters a little off the fitted ones
Nudges == {F(1, 16), F(-1, 16)}
Nudged(p, mo, h) ==
    LET bump(A, i, j) == [A EXCEPT ![i] = [@ EXCEPT ![j] = RAdd(@, h)]]
        sbump(S, i, j) == IF i = j THEN bump(S, i, i) ELSE bump(bump(S, i, j), j, i)
        n == mo.n
        m == mo.m
    IN  CASE p = "observation_matrices" -> {[mo EXCEPT !.C = <<bump(@[1], i, j)>>] : i \in 1 .. m, j \in 1 .. n}
          [] p = "observation_covariance" -> {[mo EXCEPT !.R = <<sbump(@[1], i, j)>>] : i \in 1 .. m, j \in 1 .. m}
          [] p = "transition_matrices" -> {[mo EXCEPT !.A = <<bump(@[1], i, j)>>] : i \in 1 .. n, j \in 1 .. n}
          [] p = "transition_covariance" -> {[mo EXCEPT !.Q = <<sbump(@[1], i, j)>>] : i \in 1 .. n, j \in 1 .. n}
          [] p = "initial_state_mean" -> {[mo EXCEPT !.mu0 = [@ EXCEPT ![i] = RAdd(@, h)]] : i \in 1 .. n}
          [] p = "initial_state_covariance" -> {[mo EXCEPT !.S0 = sbump(@, i, j)] : i \in 1 .. n, j \in 1 .. n}
          [] p = "transition_offsets" -> {[mo EXCEPT !.b = <<[@[1] EXCEPT ![i] = RAdd(@, h)]>>] : i \in 1 .. n}
          [] p = "observation_offsets" -> {[mo EXCEPT !.d = <<[@[1] EXCEPT ![i] = RAdd(@, h)]>>] : i \in 1 .. m}
Valid(mo) == IsPD(mo.Q[1]) /\ IsPD(mo.R[1]) /\ IsPD(mo.S0)

\* each update is the maximum: the cost is not lower next to it
StepIsMaximum ==
    (stage > 0 /\ FitOrder[stage] \in vars) =>
        LET c == ExpectedCost(md', e, obs, P)
        IN  /\ Valid(md')
            /\ RLe(c, RAdd(ExpectedCost(md, e, obs, P), Slack))
            /\ \A h \in Nudges : \A x \in Nudged(FitOrder[stage], md', h) :
                 Valid(x) => RLe(c, RAdd(ExpectedCost(x, e, obs, P), Slack))
EachUpdateMaximises == [][StepIsMaximum]_fvars
\* at no point of an iteration is the likelihood lower than at its beginning
LikelihoodNeverFalls ==
    before # <<>> => RLe(LogLik(before, obs, P), RAdd(LogLik(md, obs, P), Slack))
KeepsTheRest ==
    /\ "transition_matrices" \notin vars => md'.A = md.A
    /\ "transition_offsets" \notin vars => md'.b = md.b
    /\ "transition_covariance" \notin vars => md'.Q = md.Q
    /\ "observation_matrices" \notin vars => md'.C = md.C
    /\ "observation_offsets" \notin vars => md'.d = md.d
    /\ "observation_covariance" \notin vars => md'.R = md.R
    /\ "initial_state_mean" \notin vars => md'.mu0 = md.mu0
    /\ "initial_state_covariance" \notin vars => md'.S0 = md.S0
OnlyFittedChange == [][KeepsTheRest]_fvars

D11 == {<<1, 1>>}
D12 == {<<1, 2>>}
D21 == {<<2, 1>>}
D22 == {<<2, 2>>}
=============================================================================
