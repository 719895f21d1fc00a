---------------------------- MODULE MCUnscented -----------------------------
(***************************************************************************)
(* The unscented machine on affine models: it has to do what the Kalman    *)
(* filter and smoother do.  Square roots are rational approximations, so   *)
(* agreement is up to 2^-60.  Also: sigma points reproduce the moments     *)
(* they are drawn from, in every dimension.                                *)
(***************************************************************************)
EXTENDS Unscented
CONSTANTS MaxT, Ns, Ms, Kinds
VARIABLE lin   \* the same model for module LG
mcvars == <<uvars, lin>>

Definite(S, scale) == IsPD(S)
Slack == RPow2(-60)
Close(A, B) == \A i \in 1 .. Rows(A), j \in 1 .. Cols(A) : RLe(RAbs(RSub(A[i][j], B[i][j])), Slack)
CloseBel(a, b) == Close(<<a.mean>>, <<b.mean>>) /\ Close(a.cov, b.cov)

Q4(x) == RFrac(x, 4)
Tri(n, s) == Mtx(n, n, LAMBDA i, j : IF j > i THEN R0 ELSE IF i = j THEN Q4(3 + ((i + s) % 3)) ELSE Q4(((2 * i + 3 * j + s) % 5) - 2))
Cov(n, s) == LET L == Tri(n, s) IN MMulT(L, L)
AMat(r, c, s) == Mtx(r, c, LAMBDA i, j : Q4(((3 * i + 5 * j + s) % 7) - 2))
BVec(n, s) == Vec(n, LAMBDA i : Q4(((5 * i + s) % 9) - 4))
\* the function M x + v (+ w) as data
Lin(M, v, noise) ==
    LET r == Rows(M)
        c == Cols(M)
        k == IF noise THEN c + r ELSE c
    IN  [i \in 1 .. r |-> [den |-> <<>>, lim |-> <<>>,
            num |-> [j \in 1 .. c |-> [c |-> M[i][j], e |-> Unit(k, j)]]
                    \o <<[c |-> v[i], e |-> Unit(k, 0)]>>
                    \o (IF noise THEN <<[c |-> R1, e |-> Unit(k, c + i)]>> ELSE <<>>)]]
Init ==
    \E kind \in Kinds, n \in Ns, m \in Ms, T \in 1 .. MaxT, varying \in BOOLEAN, s \in 0 .. 1 :
    \E M \in SUBSET (1 .. T) :
      LET steps == IF varying THEN 1 .. (IF T = 1 THEN 1 ELSE T - 1) ELSE 1 .. 1
          times == IF varying THEN 1 .. T ELSE 1 .. 1
          A == [u \in steps |-> AMat(n, n, s + u)]
          b == [u \in steps |-> BVec(n, s + u)]
          C == [u \in times |-> AMat(m, n, s + 2 * u)]
          d == [u \in times |-> BVec(m, s + u + 1)]
          noise == kind = "augmented"
          os == [u \in 1 .. T |-> [miss |-> u \in M, y |-> BVec(m, 3 * u)]]
      IN  /\ lin = [n |-> n, m |-> m, A |-> A, b |-> b, Q |-> <<Cov(n, s)>>, C |-> C, d |-> d, R |-> <<Cov(m, s + 1)>>,
                    mu0 |-> BVec(n, s), S0 |-> Cov(n, s + 2)]
          /\ UStart([kind |-> kind, n |-> n, m |-> m, Q |-> Cov(n, s), R |-> Cov(m, s + 1), mu0 |-> BVec(n, s), S0 |-> Cov(n, s + 2),
                     f |-> [u \in steps |-> Lin(A[u], b[u], noise)], g |-> [u \in times |-> Lin(C[u], d[u], noise)]], os)
Spec == Init /\ [][UNext /\ UNCHANGED lin]_mcvars

\* the joint distribution stays regular, whatever the weights
NeverLost == uphase # "lost"
ExactOnAffine ==
    LET fwd == Forward(lin, uobs, Len(uobs))
    IN  /\ uphase = "predicted" => CloseBel(upred, fwd[ut].pred)
        /\ uphase = "filtered" => CloseBel(ufilt[ut], fwd[ut].filt)
        /\ uphase = "smoothing" => CloseBel(usmo[1], Backward(lin, fwd, ut)[1])
PointsReproduce ==
    uphase \in {"predicted", "filtered"} =>
    LET p == Points(IF uphase = "predicted" THEN upred ELSE ufilt[ut])
    IN  CloseBel(Moments(p), IF uphase = "predicted" THEN upred ELSE ufilt[ut])
=============================================================================
