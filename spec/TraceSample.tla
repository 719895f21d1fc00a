----------------------------- MODULE TraceSample -----------------------------
(***************************************************************************)
(* Validation of recorded samples by module Sampling.  A case is a model   *)
(* and draws (paths of states and observations) the real code returned for *)
(* it.  Each draw has to be a path of the model: its noises are recovered  *)
(* and have to lie in the range of their covariances.  Over all draws of a *)
(* case the standardised noises have to be uncorrelated, with mean 0, mean *)
(* square 1 and mean fourth power 3, within 7 standard errors.             *)
(***************************************************************************)
EXTENDS Sampling, Config, Compare, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VTRACE)

Terms(ts) == TLCEval([k \in 1 .. Len(ts) |-> TLCEval([c |-> RParse(ts[k].c), e |-> ts[k].e])])
FunOf(f) == TLCEval([i \in 1 .. Len(f) |-> TLCEval([num |-> Terms(f[i].num), den |-> Terms(f[i].den), lim |-> NumVec(f[i].lim)])])
Lin(A, b) == LET c == Cols(A)
             IN  TLCEval([i \in 1 .. Rows(A) |-> [den |-> <<>>, lim |-> <<>>,
                    num |-> [j \in 1 .. c |-> [c |-> A[i][j], e |-> Unit(c, j)]] \o <<[c |-> b[i], e |-> Unit(c, 0)]>>]])
\* pointwise over sequences of which each may have length 1
Zip(op(_, _), p, q) == TLCEval([k \in 1 .. (IF Len(p) > Len(q) THEN Len(p) ELSE Len(q)) |-> op(At(p, k), At(q, k))])

(* A function of (x, w) with noise terms that are linear in w and free of  *)
(* x: what is left without noise, and the matrix the noise passes through. *)
NoNoise(e, n) == \A j \in n + 1 .. Len(e) : e[j] = 0
Quiet(f, n) == TLCEval([i \in 1 .. Len(f) |->
    LET keep == SelectSeq(f[i].num, LAMBDA t : NoNoise(t.e, n))
    IN  [lim |-> f[i].lim, den |-> [k \in 1 .. Len(f[i].den) |-> [c |-> f[i].den[k].c, e |-> SubSeq(f[i].den[k].e, 1, n)]],
         num |-> [k \in 1 .. Len(keep) |-> [c |-> keep[k].c, e |-> SubSeq(keep[k].e, 1, n)]]]])
Gain(f, n) == Mtx(Len(f), Len(f), LAMBDA i, j :
    LET ts == SelectSeq(f[i].num, LAMBDA t : t.e = Unit(Len(t.e), n + j))
    IN  VSum(Vec(Len(ts), LAMBDA k : ts[k].c)))
Through(f, n, Q) == LET Gm == Gain(f, n) IN Sandwich(Gm, Q, Gm)

FunModel(r) ==
    LET funs(g, k) == IF g.form = "none" THEN <<IF r.kind = "additive" THEN Same(k) ELSE SamePlus(k)>>
                      ELSE TLCEval([s \in 1 .. Len(g.v) |-> FunOf(g.v[s])])
        cov(g, k) == IF g.form = "none" THEN Eye(k) ELSE NumMat(g.v)
        f == funs(r.f, r.n)
        g == funs(r.g, r.m)
        Q == cov(r.transition_covariance, r.n)
        R == cov(r.observation_covariance, r.m)
        aug == r.kind = "augmented"
    IN  [n |-> r.n, m |-> r.m,
         f |-> IF aug THEN TLCEval([k \in 1 .. Len(f) |-> Quiet(f[k], r.n)]) ELSE f,
         g |-> IF aug THEN TLCEval([k \in 1 .. Len(g) |-> Quiet(g[k], r.n)]) ELSE g,
         Q |-> IF aug THEN TLCEval([k \in 1 .. Len(f) |-> Through(f[k], r.n, Q)]) ELSE <<Q>>,
         R |-> IF aug THEN TLCEval([k \in 1 .. Len(g) |-> Through(g[k], r.n, R)]) ELSE <<R>>,
         mu0 |-> IF r.initial_state_mean.form = "none" THEN ZeroVec(r.n) ELSE NumVec(r.initial_state_mean.v),
         S0 |-> cov(r.initial_state_covariance, r.n)]
LinModel(r) ==
    LET g == r.given
        num == [p \in Parameters |-> [form |-> g[p].form, v |-> IF p \in Matrices THEN NumMats(g[p].v) ELSE NumVecs(g[p].v)]]
        l == Denotes(num, r.n_dim_state, r.n_dim_obs)
    IN  [n |-> l.n, m |-> l.m, f |-> Zip(Lin, l.A, l.b), g |-> Zip(Lin, l.C, l.d), Q |-> l.Q, R |-> l.R, mu0 |-> l.mu0, S0 |-> l.S0]
ModelOf == TLCEval([c \in DOMAIN Cases |-> TLCEval(IF Cases[c].kind = "linear" THEN LinModel(Cases[c]) ELSE FunModel(Cases[c]))])

VARIABLES case, d, std, acc, bad
tvars == <<svars, case, d, std, acc, bad>>
This == Cases[case]
T == This.T

\* largest absolute row sum
AbsSum(W) == IF W = <<>> THEN R0 ELSE VMaxAbs(Vec(Rows(W), LAMBDA i : VSum(Vec(Cols(W), LAMBDA j : RAbs(W[i][j])))))
\* standardisers of all times
StdOf(c) == LET mo == ModelOf[c]
                TT == Cases[c].T
                w == TLCEval([t \in 1 .. TT |-> TLCEval(Standard(StateCovAt(mo, t)))])
                v == TLCEval([t \in 1 .. TT |-> TLCEval(Standard(ObsCovAt(mo, t)))])
            IN  [w |-> w, v |-> v, ws |-> TLCEval([t \in 1 .. TT |-> AbsSum(w[t].W)]), vs |-> TLCEval([t \in 1 .. TT |-> AbsSum(v[t].W)])]
Zero(k, TT) == [count |-> 0, cnt |-> ZeroVec(k), s1 |-> ZeroVec(k), s2 |-> ZeroMat(k, k), s4 |-> ZeroVec(k), lag |-> ZeroMat(k, k),
                per |-> [t \in 1 .. TT |-> R0]]
TInit ==
    /\ case \in DOMAIN Cases
    /\ SStart(ModelOf[case])
    /\ d = 0
    /\ std = TLCEval(StdOf(case))
    /\ acc = TLCEval([w |-> Zero(sm.n, T), v |-> Zero(sm.m, T), wv |-> ZeroMat(sm.n, sm.m), vw |-> ZeroMat(sm.m, sm.n)])
    /\ bad = {}

Mark(k, t, clauses) == {[reading |-> k, time |-> t, clause |-> c.clause, detail |-> c.detail] : c \in clauses}

Sq(x) == RMul(x, x)
Indicator(st, k) == Vec(k, LAMBDA i : IF Position(st.idx, i, Len(st.idx)) = 0 THEN R0 ELSE R1)
\* sum of terms f(t) over from .. to, matrices of given shape
RECURSIVE AddUp(_, _, _, _)
AddUp(f, from, to, zero) == IF from > to THEN zero ELSE MAdd(AddUp(f, from, to - 1, zero), f[to])
RECURSIVE AddUpV(_, _, _, _)
AddUpV(f, from, to, zero) == IF from > to THEN zero ELSE VAdd(AddUpV(f, from, to - 1, zero), f[to])
\* z: standardised noises of times from .. T; added to what has been gathered
Gather(a, z, st, from) ==
    LET k == Len(a.s1)
    IN  [count |-> a.count + (T - from + 1),
         cnt |-> AddUpV(TLCEval([t \in 1 .. T |-> Indicator(st[t], k)]), from, T, a.cnt),
         s1 |-> AddUpV(z, from, T, a.s1),
         s2 |-> AddUp(TLCEval([t \in 1 .. T |-> Outer(z[t], z[t])]), from, T, a.s2),
         s4 |-> AddUpV(TLCEval([t \in 1 .. T |-> Vec(k, LAMBDA i : Sq(Sq(z[t][i])))]), from, T, a.s4),
         lag |-> AddUp(TLCEval([t \in 1 .. T |-> IF t = 1 THEN ZeroMat(k, k) ELSE Outer(z[t - 1], z[t])]), from + 1, T, a.lag),
         per |-> TLCEval([t \in 1 .. T |-> IF t < from THEN a.per[t] ELSE RAdd(a.per[t], VSum(Vec(k, LAMBDA i : Sq(z[t][i]))))])]

Draw == This.draws[d + 1]
BadDraw(r) == IF r.err # "" THEN {ClauseOf("raised", r.err)}
              ELSE BadShape("states", r.x, <<T, sm.n>>) \cup BadShape("observations", r.y, <<T, sm.m>>)
                   \cup (IF AllNum(r.x.data) /\ AllNum(r.y.data) THEN {} ELSE {ClauseOf("sample", "is not made of finite numbers")})
Path(a, k) == TLCEval([t \in 1 .. T |-> Vec(k, LAMBDA i : RParse(a.data[(t - 1) * k + i]))])

Slip == RParse("1e-6")
Size(p) == RMax(R1, MMaxAbs(p))
\* noises no draw of the model can have
Impossible(k, x, w, v, from) ==
    UNION {LET o == OutOfRange(std.w[t], w[t])
           IN  IF RLt(RMul(Slip, RAdd(Size(x), RSqrt(MMaxAbs(StateCovAt(sm, t)), 30))), o)
               THEN Mark(k, t, {ClauseOf("state", "is off the possible states by " \o RStr(o))}) ELSE {} : t \in from .. T}
    \cup UNION {LET o == OutOfRange(std.v[t], v[t])
           IN  IF RLt(RMul(Slip, RAdd(Size(x), RSqrt(MMaxAbs(ObsCovAt(sm, t)), 30))), o)
               THEN Mark(k, t, {ClauseOf("observation", "is off the possible observations by " \o RStr(o))}) ELSE {} : t \in 1 .. T}
\* noises no draw of the model has within the lifetime of the universe: beyond 10 standard deviations
Improbable(k, what, t, x, cov, sum, z) ==
    LET slack == RMul(sum, RAdd(RMul(RParse("1e-12"), Size(x)), RMul(RParse("1e-7"), RSqrt(MMaxAbs(cov), 30))))
    IN  IF RLt(RAdd(RInt(10), slack), VMaxAbs(z))
        THEN Mark(k, t, {ClauseOf(what, "noise is " \o RStr(VMaxAbs(z)) \o " standard deviations")}) ELSE {}
BadStart(k, x) == IF This.start = <<>> THEN {}
                  ELSE Mark(k, 1, BadEntries("initial state", This.draws[k].x.data, 0, NumVec(This.start), RMul(RParse("1e-12"), Size(x))))
From == IF This.start = <<>> THEN 1 ELSE 2

TDraw ==
    /\ d >= 0 /\ d < Len(This.draws)
    /\ d' = d + 1
    /\ IF BadDraw(Draw) # {}
       THEN bad' = bad \cup Mark(d', 0, BadDraw(Draw)) /\ UNCHANGED <<sx, sy, sw, sv, acc>>
       ELSE /\ sx' = Path(Draw.x, sm.n)
            /\ sy' = Path(Draw.y, sm.m)
            /\ sw' = TLCEval([t \in 1 .. T |-> StateNoise(sm, sx', t)])
            /\ sv' = TLCEval([t \in 1 .. T |-> ObsNoise(sm, sx', sy', t)])
            /\ \E z \in {[w |-> TLCEval([t \in 1 .. T |-> Standardised(std.w[t], sw'[t])]),
                          v |-> TLCEval([t \in 1 .. T |-> Standardised(std.v[t], sv'[t])])]} :
              /\ bad' = bad \cup Impossible(d', sx', sw', sv', From) \cup BadStart(d', sx')
                          \cup UNION {Improbable(d', "state", t, sx', StateCovAt(sm, t), std.ws[t], z.w[t]) : t \in From .. T}
                          \cup UNION {Improbable(d', "observation", t, sx' \o sy', ObsCovAt(sm, t), std.vs[t], z.v[t]) : t \in 1 .. T}
              /\ acc' = [w |-> Gather(acc.w, z.w, std.w, From), v |-> Gather(acc.v, z.v, std.v, 1),
                         wv |-> AddUp(TLCEval([t \in 1 .. T |-> Outer(z.w[t], z.v[t])]), From, T, acc.wv),
                         vw |-> AddUp(TLCEval([t \in 1 .. T |-> IF t = 1 THEN ZeroMat(sm.m, sm.n) ELSE Outer(z.v[t - 1], z.w[t])]), 2, T, acc.vw)]
    /\ UNCHANGED <<sm, case, std>>

\* 7 standard errors of a sum of N terms of variance var
Within(N, var) == RMul(RInt(7), RSqrt(RInt(N * var), 30))
Mean(what, s, want, lim) ==
    IF RLe(RAbs(RSub(s, want)), lim) THEN {}
    ELSE {ClauseOf(what, "sums to " \o RStr(s) \o ", expected " \o RStr(want) \o " +- " \o RStr(lim))}
BadMoments(who, a, st, from, D) ==
    LET N == a.count
        k == Len(a.s1)
        K == 1 .. k
    IN  IF N < 200 THEN {}
        ELSE UNION {Mean(who \o " noise mean", a.s1[i], R0, Within(N, 1)) : i \in K}
             \cup UNION {Mean(who \o " noise variance", a.s2[i][i], a.cnt[i], Within(N, 2)) : i \in K}
             \cup UNION {Mean(who \o " noise correlation", a.s2[p[1]][p[2]], R0, Within(N, 1)) : p \in {q \in K \X K : q[1] < q[2]}}
             \cup UNION {Mean(who \o " noise correlation in time", a.lag[i][j], R0, Within(N, 1)) : i, j \in K}
             \cup (IF N < 1000 THEN {} ELSE UNION {Mean(who \o " noise fourth moment", a.s4[i], RMul(RInt(3), a.cnt[i]), Within(N, 96)) : i \in K})
             \cup (IF D < 60 THEN {} ELSE
                   UNION {Mean(who \o " noise variance at time " \o ToString(t), a.per[t], RInt(D * Len(st[t].idx)), Within(D * k, 2)) : t \in from .. T})
BadCross ==
    IF acc.v.count < 200 THEN {}
    ELSE UNION {Mean("correlation of the noises", acc.wv[i][j], R0, Within(acc.v.count, 1)) : i \in 1 .. sm.n, j \in 1 .. sm.m}
         \cup UNION {Mean("correlation of the noises", acc.vw[j][i], R0, Within(acc.v.count, 1)) : i \in 1 .. sm.n, j \in 1 .. sm.m}

Equal(p, q) == p.err = q.err /\ p.x = q.x /\ p.y = q.y
BadPair(p) == IF p.same THEN (IF Equal(p.a, p.b) /\ p.a.err = "" THEN {} ELSE {ClauseOf("same seed", p.who \o ": different samples")})
              ELSE IF Equal(p.a, p.b) THEN {ClauseOf("different seeds", p.who \o ": the same sample")} ELSE {}
BadGlobal(g) == IF g.before = g.after THEN {} ELSE {ClauseOf("global random state", g.who \o " changed it")}
Numbered(seq, op(_)) == UNION {Mark(k, 0, op(seq[k])) : k \in 1 .. Len(seq)}

TEnd ==
    /\ d = Len(This.draws)
    /\ d' = -1
    /\ bad' = bad \cup Numbered(This.pairs, BadPair) \cup Numbered(This.rng, BadGlobal)
                  \cup Mark(0, 0, BadMoments("state", acc.w, std.w, From, d) \cup BadMoments("observation", acc.v, std.v, 1, d) \cup BadCross)
    /\ PrintT("@@" \o ToJson([case |-> This.id, bad |-> SetSeq(bad')]))
    /\ UNCHANGED <<svars, case, std, acc>>
TNext == TDraw \/ TEnd
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
