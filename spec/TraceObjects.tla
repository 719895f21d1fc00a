---------------------------- MODULE TraceObjects ----------------------------
(***************************************************************************)
(* Validation of recorded histories against module Objects.  Each event is *)
(* one operation of the program, with what it returned (numerals) or the   *)
(* class of the error it raised, and which attributes, argument arrays,    *)
(* returned arrays or generator have another value after it (tokens).      *)
(* The operation is taken as a step of module Objects; the state reached   *)
(* is then compared with the recorded one, and set to it.                  *)
(***************************************************************************)
EXTENDS Objects, Compare, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VTRACE)
VARIABLES case, step, phase, before, bad
tvars == <<ovars, case, step, phase, before, bad>>

C == Cases[case]
E == C.events[step]
TolOf == TLCEval([c \in DOMAIN Cases |-> RParse(Cases[c].tol)])

Range(s) == {s[i] : i \in DOMAIN s}
\* <<[k, v]>> as a function
Map(s) == [k \in {s[i].k : i \in DOMAIN s} |-> s[CHOOSE i \in DOMAIN s : s[i].k = k].v]

------------------------------------------------------------------------------
(* outcomes *)
RECURSIVE LargestUpTo(_, _)
LargestUpTo(data, i) == IF i = 0 THEN R0 ELSE RMax(IF RIsNum(data[i]) THEN RAbs(RParse(data[i])) ELSE R0, LargestUpTo(data, i - 1))
SameNumber(a, b, lim) == \/ a = b
                         \/ RIsNum(a) /\ RIsNum(b) /\ RLe(RAbs(RSub(RParse(a), RParse(b))), lim)
SameArray(a, b) ==
    \/ a = b
    \/ /\ a.shape = b.shape
       /\ LET lim == RMul(TolOf[case], RMax(LargestUpTo(a.data, Len(a.data)), LargestUpTo(b.data, Len(b.data))))
          IN  \A i \in DOMAIN a.data : SameNumber(a.data[i], b.data[i], lim)
SameOutcome(p, q) == /\ p.err = q.err
                     /\ Len(p.arrays) = Len(q.arrays)
                     /\ \A i \in DOMAIN p.arrays : SameArray(p.arrays[i], q.arrays[i])
Out == [err |-> E.err, arrays |-> E.arrays]

------------------------------------------------------------------------------
(* what is asked for.  A form says what sort of value a token stands for:  *)
(* none, const, tv (one per step), indefinite, fitted; and for generators  *)
(* none, int, gen, bad                                                     *)
Form(o, a) == C.forms[ValueOf(o, a)]
Default == Map(C.defaults)
Norm(o) == [a \in DOMAIN heap[o].attr \ {"random_state", "em_vars"} |->
              IF Form(o, a) = "none" /\ a \in DOMAIN Default THEN Default[a] ELSE ValueOf(o, a)]
ArgValues == [i \in DOMAIN E.args |-> args[E.args[i]]]
\* the generator drawn from: the one passed, the object's own, the global one
Gen == LET g == Form(E.o, "random_state")
       IN  IF E.q # "sample" THEN [kind |-> "nothing", state |-> ""]
           ELSE IF E.seed # "" THEN [kind |-> IF E.seed = "bad" THEN "bad" ELSE "passed", state |-> E.seed]
           ELSE IF g = "none" THEN [kind |-> "global", state |-> global]
           ELSE IF g = "gen" THEN [kind |-> "own", state |-> C.gens[ValueOf(E.o, "random_state")]]
           ELSE IF g = "int" THEN [kind |-> "passed", state |-> C.gens[ValueOf(E.o, "random_state")]]
           ELSE [kind |-> "bad", state |-> ValueOf(E.o, "random_state")]
\* what is fitted: the parameters named in the call, or by the object's attribute
Fitted == IF E.op # "fit" \/ E.rounds = 0 THEN {}
          ELSE IF E.given THEN Range(E.fitted)
          ELSE IF ValueOf(E.o, "em_vars") \in DOMAIN C.emvars THEN Range(C.emvars[ValueOf(E.o, "em_vars")])
          ELSE {}   \* a value that nobody assigned; reported where it appeared
Key == <<heap[E.o].class, Norm(E.o), E.q, ArgValues, E.extra, Fitted, Gen.state, Form(E.o, "random_state") = "bad">>

Linear == {"KF", "CKF", "BKF"}
PerStep(o) == {a \in DOMAIN heap[o].attr : Form(o, a) = "tv"}
HasForm(o, f) == {a \in DOMAIN heap[o].attr : Form(o, a) = f}
Noises == {"transition_covariance", "observation_covariance"}
Q == "transition_covariance"
R == "observation_covariance"
S == "initial_state_covariance"
Batch == {"filter", "smooth", "loglikelihood"}
\* the covariances a class factors in an operation
Factored(class, q) ==
    CASE q = "sample" -> {}
      [] class \in {"CKF", "SUKF"} -> {Q, R} \cup (IF q \in Batch THEN {S} ELSE {})
      [] class = "UKF" -> {Q, R} \cup (IF q \in Batch THEN {S} ELSE {})
      [] class = "AUKF" -> IF q \in Batch THEN {S} ELSE {}
      [] class = "BKF" -> {R}
      [] OTHER -> {}
FactorsBelief == {"CKF", "SUKF", "UKF", "AUKF"}
\* why the call has to be refused, and how
Reasons ==
    LET cl == heap[E.o].class
    IN  (IF E.q = "filter_update" /\ ~E.given /\ PerStep(E.o) # {} THEN {"ValueError"} ELSE {})
        \cup (IF Gen.kind = "bad" THEN {"ValueError"} ELSE {})
        \cup (IF E.wrong \in {"wide", "narrow"} /\ E.q # "sample" /\ ~E.unseen THEN {"any"} ELSE {})
        \cup (IF HasForm(E.o, "indefinite") \cap Factored(cl, E.q) # {} THEN {"any"} ELSE {})
        \cup (IF E.wrong = "indefinite belief" /\ E.q = "filter_update" /\ cl \in FactorsBelief THEN {"any"} ELSE {})
\* why it may be refused, whatever it is asked
Excuses ==
    (IF heap[E.o].class \notin Linear THEN {"function"} ELSE {})
    \cup (IF HasForm(E.o, "indefinite") # {} \/ HasForm(E.o, "fitted") # {} THEN {"covariance"} ELSE {})
    \cup (IF HasForm(E.o, "bad") # {} THEN {"generator"} ELSE {})
    \cup (IF E.wrong # "" THEN {"misuse"} ELSE {})

Mark(c, d) == [event |-> step, op |-> E.what, clause |-> c, detail |-> d]
Known0 == {m \in memo : m.key = Key}
Contradicts == {m \in Known0 : ~SameOutcome(m.out, Out)}
BadOutcome ==
    (IF Contradicts = {} THEN {}
     ELSE {Mark("result depends on something else than parameters and arguments",
                "is " \o ToString(Out) \o ", was " \o ToString((CHOOSE m \in Contradicts : TRUE).out))})
    \cup (IF E.err = "" /\ Reasons # {} THEN {Mark("misuse not refused", ToString(Out))} ELSE {})
    \cup (IF E.err # "" /\ Reasons = {"ValueError"} /\ Excuses \subseteq {"function", "generator"} /\ E.err # "ValueError"
          THEN {Mark("ValueError specified", E.err \o ": " \o E.message)} ELSE {})
    \cup (IF E.err # "" /\ Reasons = {} /\ Excuses = {} THEN {Mark("raised", E.err \o ": " \o E.message)} ELSE {})

------------------------------------------------------------------------------
(* the recorded state *)
Delta(w) == {d \in Range(E.delta) : d.w = w}
Snapshot == [attr |-> [o \in Objects |-> Valuation(o)], args |-> args, live |-> live, global |-> global]
RecAttr(o, a) ==
    LET d == {x \in Delta("attr") : x.o = o /\ x.a = a}
    IN  IF d # {} THEN (CHOOSE x \in d : TRUE).v
        ELSE IF o \in DOMAIN before.attr THEN before.attr[o][a] ELSE "?"
RecArg(x) == LET d == {y \in Delta("arg") : y.a = x} IN IF d # {} THEN (CHOOSE y \in d : TRUE).v ELSE before.args[x]
RecLive(r) == LET d == {y \in Delta("live") : y.a = r}
              IN  IF d # {} THEN (CHOOSE y \in d : TRUE).v
                  ELSE IF r \in DOMAIN before.live THEN before.live[r] ELSE Map(E.returned)[r]
RecGlobal == LET d == Delta("global") IN IF d # {} THEN (CHOOSE y \in d : TRUE).v ELSE before.global

Text(v) == ToString(v)
BadState ==
    {Mark("attribute of an object", "object " \o ToString(x[1]) \o " " \o x[2] \o " is " \o Text(RecAttr(x[1], x[2]))
                                     \o ", specified " \o Text(ValueOf(x[1], x[2]))) :
        x \in {y \in UNION {{o} \X DOMAIN heap[o].attr : o \in Objects} : RecAttr(y[1], y[2]) # ValueOf(y[1], y[2])}}
    \cup {Mark("property of the caller", x \o " was changed") : x \in {y \in DOMAIN args : RecArg(y) # args[y]}}
    \cup {Mark("array returned earlier", r \o " was changed") : r \in {y \in DOMAIN live : RecLive(y) # live[y]}}
    \cup (IF RecGlobal # global THEN {Mark("global random generator", "was used")} ELSE {})

------------------------------------------------------------------------------
After(o, a) == LET d == {x \in Delta("attr") : x.o = o /\ x.a = a} IN IF d = {} THEN ValueOf(o, a) ELSE (CHOOSE x \in d : TRUE).v
AfterGlobal == LET d == Delta("global") IN IF d = {} THEN global ELSE (CHOOSE y \in d : TRUE).v
\* contradictions have been objected to: go on with what was known
OutUsed == IF Contradicts = {} THEN Out ELSE (CHOOSE m \in Known0 : TRUE).out
Returned == Map(E.returned)

Step ==
    CASE E.op = "construct" -> Construct(E.o, C.class, Map(E.given))
      [] E.op = "query" ->
            IF E.err # "" THEN Fails(Key, OutUsed)
            ELSE CASE Gen.kind = "own" -> DrawOwn(E.o, "random_state", Key, OutUsed, Returned, After(E.o, "random_state"))
                   [] Gen.kind = "global" -> DrawGlobal(Key, OutUsed, Returned, AfterGlobal)
                   [] OTHER -> Query(Key, OutUsed, Returned)
      [] E.op = "assign" -> Assign(E.o, E.a, E.v)
      [] E.op = "poke" -> Poke(E.o, E.a, E.v)
      [] E.op = "fit" -> Fit(E.o, Key, OutUsed, Fitted, [a \in Fitted |-> After(E.o, a)], Default)
      [] E.op = "copy" -> IF E.how = "shallow" THEN ShallowCopy(E.from, E.o) ELSE DeepCopy(E.from, E.o)
      [] E.op = "scribble" -> Scribble(E.a, E.v)
      [] E.op = "rewrite" -> Rewrite(E.a, E.v)

Stuck == CASE Gen.kind = "own" -> After(E.o, "random_state") = ValueOf(E.o, "random_state")
           [] Gen.kind = "global" -> AfterGlobal = global
           [] OTHER -> FALSE
BadDraw == IF E.op = "query" /\ E.err = "" /\ Stuck THEN {Mark("random generator", "does not advance")} ELSE {}

Empty == [x \in {} |-> ""]
TInit == /\ case \in DOMAIN Cases /\ step = 1 /\ phase = "act" /\ bad = {}
         /\ before = [attr |-> Empty, args |-> Empty, live |-> Empty, global |-> ""]
         /\ heap = Empty /\ store = Empty /\ live = Empty /\ memo = {}
         /\ args = Map(Cases[case].args) /\ global = Cases[case].global
Act ==
    /\ phase = "act" /\ step <= Len(C.events)
    /\ before' = Snapshot
    /\ Step
    /\ \E b \in {IF E.op \in {"query", "fit"} THEN BadOutcome \cup BadDraw ELSE {}} : bad' = bad \cup b
    /\ phase' = "compare" /\ UNCHANGED <<case, step>>
\* the state is as recorded
Conforms ==
    /\ phase = "compare" /\ BadState = {}
    /\ step' = step + 1 /\ phase' = "act"
    /\ UNCHANGED <<ovars, case, before, bad>>
\* or is set to it
Deviates ==
    /\ phase = "compare"
    /\ \E b \in {BadState} :
        /\ b # {} /\ bad' = bad \cup b
        /\ LET wrong == SeqOf({y \in UNION {{o} \X DOMAIN heap[o].attr : o \in Objects} : RecAttr(y[1], y[2]) # ValueOf(y[1], y[2])})
               cs == NewCells(Len(wrong))
               at(o, a) == {i \in DOMAIN wrong : wrong[i] = <<o, a>>}
           IN  /\ heap' = [o \in Objects |-> [class |-> heap[o].class,
                             attr |-> [a \in DOMAIN heap[o].attr |-> IF at(o, a) = {} THEN heap[o].attr[a] ELSE cs[CHOOSE i \in at(o, a) : TRUE]]]]
               /\ store' = [c \in Range(cs) |-> LET i == CHOOSE i \in DOMAIN cs : cs[i] = c IN RecAttr(wrong[i][1], wrong[i][2])] @@ store
        /\ args' = [x \in DOMAIN args |-> RecArg(x)]
        /\ live' = [r \in DOMAIN live |-> RecLive(r)]
        /\ global' = RecGlobal
    /\ step' = step + 1 /\ phase' = "act"
    /\ UNCHANGED <<memo, case, before>>
Finish ==
    /\ phase = "act" /\ step = Len(C.events) + 1
    /\ phase' = "done"
    /\ PrintT("@@" \o ToJson([case |-> C.id, bad |-> SetSeq(bad)]))
    /\ UNCHANGED <<ovars, case, step, before, bad>>
TNext == Act \/ Conforms \/ Deviates \/ Finish
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
