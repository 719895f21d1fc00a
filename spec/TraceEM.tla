------------------------------- MODULE TraceEM -------------------------------
(***************************************************************************)
(* Validation of recorded fitting by module Fitting.                       *)
(*                                                                         *)
(* A recorded case is an object as it was constructed, the data, the       *)
(* em_vars attribute, and a sequence of calls em(.., n_iter, em_vars) with *)
(* the parameters the object had after each of them, as attributes.  The   *)
(* machine takes EM steps from the parameters recorded after the previous  *)
(* call; what is recorded next has to be what they lead to.                *)
(***************************************************************************)
EXTENDS Fitting, Config, Compare, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VTRACE)
LBits == 100

NumGiven(g) == [p \in Parameters |-> [form |-> g[p].form, v |-> IF p \in Matrices THEN NumMats(g[p].v) ELSE NumVecs(g[p].v)]]
ObsOf == TLCEval([c \in DOMAIN Cases |->
    TLCEval([s \in DOMAIN Cases[c].obs |->
        TLCEval([miss |-> Cases[c].obs[s].miss,
         y |-> IF Cases[c].obs[s].miss THEN <<>> ELSE NumVec(Cases[c].obs[s].y)])])])
Start == TLCEval([c \in DOMAIN Cases |-> TLCEval(Denotes(NumGiven(Cases[c].given), Cases[c].n_dim_state, Cases[c].n_dim_obs))])

VARIABLES case,
          k,        \* calls judged
          logged,   \* parameters recorded after the last call judged (at first: as constructed)
          busy,     \* within a call
          posed,    \* no iteration of this call began at a singular model
          ll,       \* log-likelihood of logged
          bad
tvars == <<fvars, case, k, logged, busy, posed, ll, bad>>
Call == Cases[case].calls[k + 1]
T == Len(Cases[case].obs)
Wants(c) == \E i \in 1 .. Len(Cases[case].judge) : Cases[case].judge[i] = c

\* shape of one entry of a parameter, and the number of entries it has if it varies
EntryShape(p, mo) ==
    CASE p \in {"transition_matrices", "transition_covariance", "initial_state_covariance"} -> <<mo.n, mo.n>>
      [] p = "observation_matrices" -> <<mo.m, mo.n>>
      [] p = "observation_covariance" -> <<mo.m, mo.m>>
      [] p \in {"transition_offsets", "initial_state_mean"} -> <<mo.n>>
      [] p = "observation_offsets" -> <<mo.m>>
Field(p) == CASE p = "transition_matrices" -> "A" [] p = "transition_offsets" -> "b" [] p = "transition_covariance" -> "Q"
              [] p = "observation_matrices" -> "C" [] p = "observation_offsets" -> "d" [] p = "observation_covariance" -> "R"
              [] p = "initial_state_mean" -> "mu0" [] p = "initial_state_covariance" -> "S0"
ValueOf(mo, p) == IF p \in {"initial_state_mean", "initial_state_covariance"} THEN <<mo[Field(p)]>> ELSE mo[Field(p)]

\* the recorded attribute p as a sequence of entries; an attribute that was never given or fitted is the default
Entries(arr, p, mo) ==
    LET es == EntryShape(p, mo)
        one == IF Len(es) = 2 THEN es[1] * es[2] ELSE es[1]
        cnt == IF Len(arr.shape) = Len(es) THEN 1 ELSE arr.shape[1]
        at(q) == IF Len(es) = 2 THEN Mtx(es[1], es[2], LAMBDA i, j : RParse(arr.data[(q - 1) * one + (i - 1) * es[2] + j]))
                 ELSE VecAt(arr, q, es[1])
    IN  TLCEval([q \in 1 .. cnt |-> at(q)])
\* whether an attribute can be read as the parameter's value, constant or varying like the expected one
ShapeBad(arr, p, mo) ==
    LET es == EntryShape(p, mo)
        want == ValueOf(mo, p)
    IN  IF Len(want) = 1 /\ arr.shape = es THEN {}
        ELSE IF Len(arr.shape) = Len(es) + 1 /\ arr.shape = <<Len(want)>> \o es THEN {}
        ELSE {ClauseOf(p \o " shape", "is " \o ToString(arr.shape))}

\* a vector as a matrix of one row
AsMat(x, p) == IF p \in Vectors THEN <<x>> ELSE x
BadParam(arr, p, mo, tol) ==
    LET s == ShapeBad(arr, p, mo)
        want == ValueOf(mo, p)
        one == Len(Flatten(AsMat(want[1], p)))
        scale == IF p \in {"transition_covariance", "initial_state_covariance", "observation_covariance"}
                 THEN MMaxAbs(AsMat(want[1], p)) ELSE RMax(R1, MMaxAbs(AsMat(want[1], p)))
    IN  IF s # {} THEN s
        ELSE UNION {BadEntries(p, arr.data, (q - 1) * one, Flatten(AsMat(want[q], p)), RMul(tol, scale)) : q \in 1 .. Len(want)}

\* the model the recorded attributes denote; default (as before) where an attribute is not set
Logged(after, mo) ==
    LET val(p) == IF after[p].set THEN Entries(after[p].arr, p, mo) ELSE ValueOf(mo, p)
    IN  TLCEval([mo EXCEPT !.A = val("transition_matrices"), !.b = val("transition_offsets"), !.Q = val("transition_covariance"),
                  !.C = val("observation_matrices"), !.d = val("observation_offsets"), !.R = val("observation_covariance"),
                  !.mu0 = val("initial_state_mean")[1], !.S0 = val("initial_state_covariance")[1]])
Readable(after, mo) == \A p \in Fittable : after[p].set => ShapeBad(after[p].arr, p, mo) = {} /\ AllNum(after[p].arr.data)

Mark(clauses) == {[reading |-> k + 1, time |-> 0, clause |-> c.clause, detail |-> c.detail] : c \in clauses}

\* where rounding of a fitted covariance matters: the code's is symmetric up to rounding only
Sym(mo) == [mo EXCEPT !.Q = TLCEval([i \in 1 .. Len(@) |-> Symmetrize(@[i])]), !.R = TLCEval([i \in 1 .. Len(@) |-> Symmetrize(@[i])]),
                      !.S0 = Symmetrize(@)]

(* Covariances are positive definite by a margin beyond rounding; else the *)
(* likelihood is not a matter of floating point numbers any more.          *)
Margin(S, f) == MAdd(S, MScale(RMul(RParse(f), MMaxAbs(S)), Eye(Rows(S))))
CovsOf(mo) == {mo.Q[i] : i \in 1 .. Len(mo.Q)} \cup {mo.R[i] : i \in 1 .. Len(mo.R)} \cup {mo.S0}
Comfortable(mo) == \A S \in CovsOf(mo) : RSgn(MMaxAbs(S)) > 0 /\ IsPSD(Margin(S, "-1e-6"))
BadCovariances(mo) == IF \A S \in CovsOf(mo) : IsPSD(Margin(S, "1e-9")) THEN {}
                      ELSE {ClauseOf("covariance", "a fitted covariance is not positive semidefinite")}

Monotone(c) == \E i \in 1 .. Len(Cases[c].judge) : Cases[c].judge[i] = "monotone"
Init == /\ case \in DOMAIN Cases
        /\ k = 0
        /\ logged = Start[case]
        /\ busy = FALSE /\ posed = TRUE
        /\ StartFit(Sym(Start[case]), ObsOf[case], {}, 0)
        /\ ll = IF Monotone(case) THEN LogLik(Start[case], ObsOf[case], LBits) ELSE R0
        /\ bad = {}

Begin ==
    /\ ~busy /\ k < Len(Cases[case].calls)
    /\ busy' = TRUE /\ posed' = TRUE
    /\ vars' = FittedBy(Call.em_vars, Cases[case].attr)
    /\ left' = IF Wants("update") THEN Call.n_iter ELSE 0
    /\ UNCHANGED <<md, obs, stage, e, before, case, k, logged, ll, bad>>
\* from a singular model (too little data for what is fitted) nothing well-defined follows
\* (nor after parameters were fitted to nothing)
Followable == Comfortable(md) /\ (left < Call.n_iter => \A p \in vars : Determined(p, obs))
GiveUp ==
    /\ busy /\ left > 0 /\ stage = 0 /\ ~Followable
    /\ posed' = FALSE /\ left' = 0
    /\ UNCHANGED <<md, obs, vars, stage, e, before, case, k, logged, busy, ll, bad>>
DoEStep == busy /\ Followable /\ EStep /\ UNCHANGED <<case, k, logged, busy, posed, ll, bad>>
DoMStep == busy /\ MStep /\ UNCHANGED <<case, k, logged, busy, posed, ll, bad>>

\* parameters fitted to nothing can be anything
Loose(p) == p \in vars /\ ~Determined(p, obs)
Fresh(p) == Call.n_iter > 0 /\ p \in vars
\* fitted parameters are as specified up to rounding, all others exactly what they were
BadAttribute(p) ==
    IF Fresh(p) /\ (Loose(p) \/ ~Wants("update")) THEN {}
    ELSE IF Call.after[p].set THEN BadParam(Call.after[p].arr, p, IF Fresh(p) THEN md ELSE logged,
                                            IF Fresh(p) THEN RParse(Call.tol) ELSE R0)
    ELSE IF Fresh(p) THEN {ClauseOf(p, "was to be fitted and is not set")}
    ELSE IF Cases[case].given[p].form # "none" THEN {ClauseOf(p, "was given and is no longer set")}
    ELSE {}
\* fitted parameters are constant afterwards
Collapsed ==
    LET one(f, p) == IF Fresh(p) THEN <<f[1]>> ELSE f
    IN  [logged EXCEPT !.A = one(@, "transition_matrices"), !.b = one(@, "transition_offsets"),
                       !.Q = one(@, "transition_covariance"), !.C = one(@, "observation_matrices"),
                       !.d = one(@, "observation_offsets"), !.R = one(@, "observation_covariance")]
\* who fits a parameter given per time step is told, by name, that it will be constant
PerStep(p) == IF k = 0 THEN Cases[case].given[p].form = "tv"
              ELSE LET a == Cases[case].calls[k].after[p]
                   IN  a.set /\ Len(a.arr.shape) > (IF p \in Matrices THEN 2 ELSE 1)
Warned == {Call.warned[i] : i \in 1 .. Len(Call.warned)}
BadWarnings ==
    IF ~Wants("warnings") THEN {}
    ELSE LET due == {p \in vars : PerStep(p)}
         IN  {ClauseOf(p, "became constant without a warning") : p \in IF Call.n_iter = 0 THEN {} ELSE due \ Warned}
             \cup {ClauseOf(p, "a warning that does not apply") : p \in Warned \ due}
Legible == Call.err = "" /\ Readable(Call.after, Collapsed)
BadCall ==
    IF ~posed THEN {}
    ELSE IF Call.err # "" THEN {ClauseOf("raised", Call.err)}
    ELSE (UNION {BadAttribute(p) : p \in Fittable})
         \cup BadWarnings
         \cup (IF Call.self THEN {} ELSE {ClauseOf("result", "em did not return the object")})
         \cup (IF Legible THEN {} ELSE {ClauseOf("parameters", "cannot be read after the call")})
BadLikelihood(now, nll) ==
    IF ~Monotone(case) THEN {}
    ELSE IF ~Comfortable(now) THEN BadCovariances(now)
    ELSE IF RLt(nll, RSub(ll, RMul(RParse(Call.lltol), RAdd(R1, RAbs(ll)))))
         THEN {ClauseOf("log-likelihood", "fell from " \o RStr(ll) \o " to " \o RStr(nll))} ELSE {}

End ==
    /\ busy /\ left = 0 /\ stage = 0
    /\ busy' = FALSE
    /\ \E next \in {IF posed /\ Legible THEN Logged(Call.after, Collapsed) ELSE logged} :
       \E now \in {Sym(next)} :
       \E nll \in {IF Monotone(case) /\ Comfortable(now) THEN LogLik(now, obs, LBits) ELSE ll} :
         /\ logged' = next
         /\ md' = now
         /\ ll' = nll
         /\ bad' = bad \cup Mark(BadCall) \cup Mark(BadLikelihood(now, nll))
         \* a likelihood that has run off to infinity is not followed further
         /\ k' = IF posed /\ Legible /\ (Monotone(case) => Comfortable(now)) THEN k + 1 ELSE Len(Cases[case].calls)
    /\ UNCHANGED <<obs, vars, left, stage, e, before, case, posed>>
Report ==
    /\ ~busy /\ k = Len(Cases[case].calls)
    /\ PrintT("@@" \o ToJson([case |-> Cases[case].id, bad |-> SetSeq(bad), gaveup |-> ~posed]))
    /\ k' = k + 1
    /\ UNCHANGED <<fvars, case, logged, busy, posed, ll, bad>>
TNext == Begin \/ GiveUp \/ DoEStep \/ DoMStep \/ End \/ Report
TSpec == Init /\ [][TNext]_tvars
=============================================================================
