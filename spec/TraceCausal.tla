---------------------------- MODULE TraceCausal -----------------------------
(***************************************************************************)
(* Validation of recorded runs against module Causal.  An event is one     *)
(* call: the observations it was given (as tokens) and the beliefs it      *)
(* reported about times first .. first + count - 1, each of which is a     *)
(* report after the observations up to that time.                          *)
(***************************************************************************)
EXTENDS Causal, Compare, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VTRACE)
VARIABLES case, step, bad
tvars == <<known, case, step, bad>>

Events == Cases[case].events
E == Events[step]
n == Cases[case].n

\* belief k of an event: its numerals
BelOf(e, k) == TLCEval([mean |-> SubSeq(e.mean.data, (k - 1) * n + 1, k * n),
                        cov |-> SubSeq(e.cov.data, (k - 1) * n * n + 1, k * n * n)])
RECURSIVE Largest(_, _)
Largest(data, i) == IF i = 0 THEN R0 ELSE RMax(IF RIsNum(data[i]) THEN RAbs(RParse(data[i])) ELSE R0, Largest(data, i - 1))
Big(data) == Largest(data, Len(data))
SameNumber(a, b, lim) == \/ a = b
                         \/ RIsNum(a) /\ RIsNum(b) /\ RLe(RAbs(RSub(RParse(a), RParse(b))), lim)
TolOf == TLCEval([c \in DOMAIN Cases |-> RParse(Cases[c].tol)])
Tolerable(a, b) ==
    LET cs == RMax(Big(a.cov), Big(b.cov))
        ms == RMax(RMax(Big(a.mean), Big(b.mean)), RSqrt(cs, 60))
    IN  /\ \A i \in 1 .. n : SameNumber(a.mean[i], b.mean[i], RMul(TolOf[case], ms))
        /\ \A i \in 1 .. n * n : SameNumber(a.cov[i], b.cov[i], RMul(TolOf[case], cs))

Hist(e, s) == SubSeq(e.obs, 1, s)
Mark(s, c, d) == [event |-> step, time |-> s, clause |-> c, detail |-> d]
Shown(e, k) == ToString(BelOf(e, k))

Contradicted(e, k) == {j \in Before(Hist(e, e.first + k - 1)) : ~Tolerable(j.bel, BelOf(e, k))}
BadEvent(e) ==
    IF e.err # "" THEN IF e.may THEN {} ELSE {Mark(0, "raised", e.who \o ": " \o e.err)}
    ELSE LET shape == BadShape("mean", e.mean, <<e.count, n>>) \cup BadShape("cov", e.cov, <<e.count, n, n>>)
         IN  IF shape # {} THEN {Mark(0, x.clause, e.who \o ": " \o x.detail) : x \in shape}
             ELSE {Mark(e.first + k - 1, "report depends on something else than the observations up to this time",
                        e.who \o " reports " \o Shown(e, k) \o ", before it was " \o ToString((CHOOSE j \in Contradicted(e, k) : TRUE).bel)) :
                   k \in {i \in 1 .. e.count : Contradicted(e, i) # {}}}

TInit == /\ case \in DOMAIN Cases /\ step = 1 /\ bad = {} /\ Fresh
TStep ==
    /\ step <= Len(Events)
    /\ \E b \in {BadEvent(E)} :
         /\ bad' = bad \cup b
         /\ known' = IF E.err # "" \/ b # {} THEN known
                     ELSE known \cup {[hist |-> Hist(E, E.first + k - 1), bel |-> BelOf(E, k)] :
                                      k \in {i \in 1 .. E.count : Before(Hist(E, E.first + i - 1)) = {}}}
    /\ step' = step + 1
    /\ UNCHANGED case
TFinish ==
    /\ step = Len(Events) + 1
    /\ step' = step + 1
    /\ PrintT("@@" \o ToJson([case |-> Cases[case].id, bad |-> SetSeq(bad)]))
    /\ UNCHANGED <<known, case, bad>>
TNext == TStep \/ TFinish
TSpec == TInit /\ [][TNext]_tvars
\* what was recorded, apart from the events objected to, is a behaviour of module Causal
Allowed == IsFunction
Recorded == [][known' # known => bad' = bad]_tvars
=============================================================================
