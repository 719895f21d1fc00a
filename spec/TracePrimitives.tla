-------------------------- MODULE TracePrimitives ---------------------------
(***************************************************************************)
(* Recorded calls of the factorisation and sigma point routines against    *)
(* module Primitives.  A reading: [who, op, err, touched (arguments that   *)
(* are not what they were), tol, arg, res]: arguments as numerals, results *)
(* as recorded arrays.                                                     *)
(***************************************************************************)
EXTENDS Primitives, Compare, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.VTRACE)
VARIABLES case, reading, bad
vars == <<case, reading, bad>>
Idle == /\ fa = 0 /\ fm = 0 /\ fu = 0 /\ fd = 0 /\ fj = 0
        /\ ua = 0 /\ ux0 = 0 /\ uw0 = 0 /\ urows = 0 /\ ud = 0 /\ ux = 0 /\ uw = 0 /\ uk = 0
Readings == Cases[case].readings
Rd == Readings[reading]
Arg == Rd.arg
Res == Rd.res

Lim(size) == RMul(RParse(Rd.tol), size)
MatOf(a) == TLCEval(Mtx(a.shape[1], a.shape[2], LAMBDA i, j : RParse(a.data[(i - 1) * a.shape[2] + j])))
VecOf(a) == Vec(a.shape[1], LAMBDA i : RParse(a.data[i]))
NotFinite(what, a) == IF AllNum(a.data) THEN {} ELSE {ClauseOf(what, "entry is " \o FirstNonNum(a.data))}

\* is a recorded array of this shape, all numbers?
Off(what, a, shape) == LET s == BadShape(what, a, shape) IN IF s # {} THEN s ELSE NotFinite(what, a)
FirstOff(sets) == IF \A i \in DOMAIN sets : sets[i] = {} THEN {} ELSE sets[CHOOSE i \in DOMAIN sets : sets[i] # {} /\ \A j \in 1 .. i - 1 : sets[j] = {}]
\* matrices within lim
ApartVec(what, got, want, lim) ==
    IF \A i \in 1 .. Len(want) : Near(got[i], want[i], lim) THEN {}
    ELSE LET i == CHOOSE i \in 1 .. Len(want) : ~Near(got[i], want[i], lim) IN {Differ(what, i, got[i], want[i])}
Apart(what, got, want, lim) == LET g == Flatten(got) w == Flatten(want) IN ApartVec(what, g, w, lim)
Below(what, R, lim) == IF \A i, j \in 1 .. Rows(R) : i > j => RLe(RAbs(R[i][j]), lim) THEN {} ELSE {ClauseOf(what, "is not upper triangular")}

BadUDU ==
    LET n == Len(Arg.M)
        off == FirstOff(<<Off("U", Res.U, <<n, n>>), Off("D", Res.D, <<n>>)>>)
    IN  IF off # {} THEN off
        ELSE LET M == NumMat(Arg.M) U == MatOf(Res.U) D == VecOf(Res.D) size == MMaxAbs(M)
             IN  (IF \A i, j \in 1 .. n : i > j => RSgn(U[i][j]) = 0 THEN {} ELSE {ClauseOf("U", "is not upper triangular")})
                 \cup (IF \A i \in 1 .. n : U[i][i] = R1 THEN {} ELSE {ClauseOf("U", "has not ones on its diagonal")})
                 \cup (IF \A i \in 1 .. n : RLe(RNeg(Lim(size)), D[i]) THEN {} ELSE {ClauseOf("D", "is negative")})
                 \cup Apart("U D U'", Rebuild(U, D), M, Lim(size))
\* R upper triangular with R'R = S
BadRoot(what, a, S, size) ==
    LET n == Rows(S)
        off == Off(what, a, <<n, n>>)
    IN  IF off # {} THEN off
        ELSE LET R == MatOf(a)
             IN  Below(what, R, Lim(MMaxAbs(R))) \cup Apart(what \o "' " \o what, Gram(R), S, Lim(size))
BadUpdate == LET A == Gram(NumMat(Arg.R)) X == NumMat(Arg.X) w == RParse(Arg.w) S == WithVectors(A, X, w)
             IN  BadRoot("R", Res.R, S, RMax(MMaxAbs(A), MMaxAbs(S)))
BadQR == LET S == Gram(NumMat(Arg.A)) IN BadRoot("R", Res.R, S, MMaxAbs(S))

PointsOf(r) == [at |-> MatOf(r.at), wm |-> VecOf(r.wm), wc |-> VecOf(r.wc)]
OffPoints(r, k, n) == FirstOff(<<Off("points", r.at, <<k, n>>), Off("weights of the mean", r.wm, <<k>>), Off("weights of the covariance", r.wc, <<k>>)>>)
\* the mean, then plus and minus; weights add up to one, and recover the moments
BadPoints ==
    LET mu == NumVec(Arg.mean)
        S == IF Arg.root THEN Gram(NumMat(Arg.cov)) ELSE NumMat(Arg.cov)
        n == Len(mu)
        off == OffPoints(Res, 2 * n + 1, n)
    IN  IF off # {} THEN off
        ELSE LET p == PointsOf(Res)
                 size == MMaxAbs(p.at)
                 big == VMaxAbs(p.wm)
             IN  ApartVec("first point", p.at[1], mu, Lim(size))
                 \cup UNION {ApartVec("opposite points", VAdd(p.at[j + 1], p.at[j + n + 1]), VScale(R2, mu), Lim(size)) : j \in 1 .. n}
                 \cup ApartVec("sum of weights", <<VSum(p.wm)>>, <<R1>>, Lim(RMax(R1, big)))
                 \cup ApartVec("weighted mean", PMean(p), mu, Lim(RMul(size, RMax(R1, big))))
                 \cup Apart("weighted covariance", PMoments(p).cov, S, Lim(RMul(RMul(size, size), RMax(R1, VMaxAbs(p.wc)))))
PointsGiven == [at |-> NumMat(Arg.at), wm |-> NumVec(Arg.wm), wc |-> NumVec(Arg.wc)]
\* the covariance of noise, if any
NoiseGiven(n) == IF Arg.noise = <<>> THEN ZeroMat(n, n) ELSE IF Arg.root THEN Gram(NumMat(Arg.noise)) ELSE NumMat(Arg.noise)
Against(p, n) ==
    LET size == RMax(R1, RMul(MMaxAbs(p.at), RMax(R1, VMaxAbs(p.wm))))
        b == PMoments(p)
        S == MAdd(b.cov, NoiseGiven(n))
        big == RMax(RMul(RMul(size, size), RMax(R1, VMaxAbs(p.wc))), MMaxAbs(S))
        off == Off("mean", Res.mean, <<n>>)
    IN  (IF off # {} THEN off ELSE ApartVec("mean", VecOf(Res.mean), b.mean, Lim(size)))
        \cup (IF Arg.root THEN BadRoot("root of the covariance", Res.cov, S, big)
              ELSE LET o == Off("covariance", Res.cov, <<n, n>>) IN IF o # {} THEN o ELSE Apart("covariance", MatOf(Res.cov), S, Lim(big)))
BadMoments == Against(PointsGiven, Len(Arg.at[1]))
\* x -> A x + b (+ B w): points are moved one by one, weights stay
BadTransform ==
    LET p == PointsGiven
        A == NumMat(Arg.A) B == NumMat(Arg.B) b == NumVec(Arg.b)
        q == NumMat(Arg.extra)
        moved(k) == LET y == VAdd(MVec(A, p.at[k]), b) IN IF Arg.extra = <<>> THEN y ELSE VAdd(y, MVec(B, q[k]))
        want == [at |-> TLCEval([k \in 1 .. Len(p.at) |-> moved(k)]), wm |-> p.wm, wc |-> p.wc]
        off == OffPoints(Res, Len(p.at), Rows(A))
        lim == Lim(RMax(R1, MMaxAbs(want.at)))
    IN  (IF off # {} THEN off
         ELSE Apart("transformed points", MatOf(Res.at), want.at, lim)
              \cup ApartVec("weights of the mean", VecOf(Res.wm), p.wm, Lim(R1)) \cup ApartVec("weights of the covariance", VecOf(Res.wc), p.wc, Lim(R1)))
        \cup Against(want, Rows(A))
\* points for independent vectors together: each has its moments, and they are uncorrelated
BadJoint ==
    LET k == Len(Arg.parts)
        N == Arg.total
        offs == [i \in 1 .. k |-> OffPoints(Res.parts[i], 2 * N + 1, Len(Arg.parts[i].mean))]
    IN  IF Len(Res.parts) # k THEN {ClauseOf("parts", "are " \o ToString(Len(Res.parts)))}
        ELSE IF FirstOff(offs) # {} THEN FirstOff(offs)
        ELSE LET p == TLCEval([i \in 1 .. k |-> PointsOf(Res.parts[i])])
                 mu == TLCEval([i \in 1 .. k |-> NumVec(Arg.parts[i].mean)])
                 size(i) == MMaxAbs(p[i].at)
                 w == RMax(R1, RMax(VMaxAbs(p[1].wm), VMaxAbs(p[1].wc)))
             IN  UNION {ApartVec("weighted mean", PMean(p[i]), mu[i], Lim(RMul(w, size(i)))) : i \in 1 .. k}
                 \cup UNION {Apart("weighted covariance", PCross(p[i], mu[i], p[j], mu[j]),
                                   IF i = j THEN NumMat(Arg.parts[i].cov) ELSE ZeroMat(Len(mu[i]), Len(mu[j])),
                                   Lim(RMul(w, RMul(size(i), size(j))))) : i, j \in 1 .. k}
LogBits == 80
BadDensity ==
    LET X == NumMat(Arg.X) mus == NumMat(Arg.means) covs == NumMats(Arg.covs)
        off == Off("log density", Res.value, <<Len(X), Len(mus)>>)
        want == TLCEval([i \in 1 .. Len(X) |-> TLCEval([j \in 1 .. Len(mus) |-> LogDensity(X[i], mus[j], covs[j], LogBits)])])
    IN  IF off # {} THEN off ELSE Apart("log density", MatOf(Res.value), want, Lim(RMax(R1, MMaxAbs(want))))

BadReading ==
    LET broken == IF Rd.err # "" THEN {ClauseOf("raised", Rd.err)}
                  ELSE CASE Rd.op = "udu" -> BadUDU [] Rd.op = "update" -> BadUpdate [] Rd.op = "qr" -> BadQR
                         [] Rd.op = "points" -> BadPoints [] Rd.op = "moments" -> BadMoments [] Rd.op = "transform" -> BadTransform
                         [] Rd.op = "joint" -> BadJoint [] Rd.op = "density" -> BadDensity
        touched == IF Rd.touched = <<>> THEN {} ELSE {ClauseOf("arguments", ToString(Rd.touched) \o " modified")}
    IN  {[reading |-> reading, clause |-> c.clause, detail |-> c.detail] : c \in broken \cup touched}

Init == Idle /\ case \in DOMAIN Cases /\ reading = 1 /\ bad = {}
Step == /\ reading <= Len(Readings)
        /\ \E b \in {BadReading} : bad' = bad \cup b
        /\ reading' = reading + 1 /\ UNCHANGED <<case, fvars, uvars>>
Finish == /\ reading = Len(Readings) + 1 /\ reading' = reading + 1
          /\ PrintT("@@" \o ToJson([case |-> Cases[case].id, bad |-> SetSeq(bad)]))
          /\ UNCHANGED <<case, bad, fvars, uvars>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_<<vars, fvars, uvars>>
=============================================================================
