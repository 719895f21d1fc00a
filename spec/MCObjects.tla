----------------------------- MODULE MCObjects ------------------------------
(***************************************************************************)
(* Module Objects on a small universe: every program of up to Steps steps  *)
(* over two parameters and a generator, where calls compute some function  *)
(* of their key.  What users rely on follows.                              *)
(***************************************************************************)
EXTENDS Objects
CONSTANTS Steps
VARIABLES steps, last   \* number of steps made, what the last one was
mvars == <<ovars, steps, last>>

Params == {"p", "q"}
Attrs == Params \cup {"random_state"}
Vals == {"none", "v"}
Default == [a \in Params |-> "d"]
Norm(o) == [a \in Params |-> IF ValueOf(o, a) = "none" THEN Default[a] ELSE ValueOf(o, a)]
Key(o, op, x) == <<heap[o].class, Norm(o), op, args[x]>>
DrawKey(o, x, gen) == <<heap[o].class, Norm(o), "sample", args[x], gen>>
Same(a, b) == a = b
\* the function computed: its value at a key is written as the key itself
F(key) == [err |-> "", of |-> key]
Advance(g) == IF g = "g0" THEN "g1" ELSE "g2"

Init == \E vals \in [Params -> Vals] :
          /\ heap = (1 :> [class |-> "KF", attr |-> [a \in Attrs |-> IF a = "p" THEN 1 ELSE IF a = "q" THEN 2 ELSE 3]])
          /\ store = (1 :> vals["p"]) @@ (2 :> vals["q"]) @@ (3 :> "g0")
          /\ global = "g0" /\ args = ("x" :> "x0") /\ live = <<>> /\ memo = {} /\ steps = 0 /\ last = [op |-> "none", o |-> 0]
Did(op, o) == steps < Steps /\ steps' = steps + 1 /\ last' = [op |-> op, o |-> o]

Next ==
    \E o \in Objects :
      \/ Did("query", o) /\ Query(Key(o, "filter", "x"), F(Key(o, "filter", "x")), (steps :> "r"))
      \/ Did("draw", o) /\ DrawOwn(o, "random_state", DrawKey(o, "x", ValueOf(o, "random_state")), F(DrawKey(o, "x", ValueOf(o, "random_state"))),
                                   (steps :> "r"), Advance(ValueOf(o, "random_state")))
      \/ Did("query", o) /\ DrawGlobal(DrawKey(o, "x", global), F(DrawKey(o, "x", global)), (steps :> "r"), Advance(global))
      \/ Did("query", o) /\ Fails(Key(o, "bad", "x"), [err |-> "ValueError", of |-> <<>>])
      \/ \E a \in Params, v \in Vals : Did("assign", o) /\ Assign(o, a, v)
      \/ \E a \in Params : Did("poke", o) /\ Poke(o, a, "w")
      \/ \E S \in SUBSET Params : Did("fit", o) /\ Fit(o, Key(o, "em", "x"), F(Key(o, "em", "x")), S, [a \in S |-> "fitted"], Default)
      \/ Cardinality(Objects) < 2 /\ Did("copy", o) /\ ShallowCopy(o, 2)
      \/ Cardinality(Objects) < 2 /\ Did("deepcopy", o) /\ DeepCopy(o, 2)
      \/ \E r \in DOMAIN live : Did("scribble", 0) /\ Scribble(r, "junk")
      \/ Did("rewrite", 0) /\ Rewrite("x", "x1")
Spec == Init /\ [][Next]_mvars

\* results depend on nothing but the key: in particular the calls above are always possible
QueriesPossible == \A o \in Objects : \A m \in Known(Key(o, "filter", "x")) : m.out = F(Key(o, "filter", "x"))
\* the same parameters give the same results
EqualObjectsEqualResults ==
    \A o, p \in Objects : Norm(o) = Norm(p) /\ heap[o].class = heap[p].class => Key(o, "filter", "x") = Key(p, "filter", "x")
\* a step on one object changes another one only through a cell they share
Isolation == \A p \in Objects :
    /\ (last').o # p
    /\ \A o \in Objects : o = (last').o => Cells(o) \cap Cells(p) = {}
    => Valuation(p)' = Valuation(p)
IsolationAlways == [][Isolation]_mvars
\* no query changes a parameter of any object, nor an argument
Pure == (last').op = "query" /\ steps' # steps => \A p \in Objects : Valuation(p)' = Valuation(p) /\ args' = args
PureAlways == [][Pure]_mvars
\* drawing changes nothing but the generator
DrawPure == (last').op = "draw" /\ steps' # steps => /\ \A p \in Objects : Norm(p)' = Norm(p)
                                                   /\ global' = global
DrawPureAlways == [][DrawPure]_mvars
\* a deep copy shares nothing
DeepShares == ((last').op = "deepcopy" /\ steps' # steps) => (Cells(1) \cap Cells(2) = {})'
DeepSharesAlways == [][DeepShares]_mvars
\* what was returned stays as it is
ReturnedStays == ((last').op # "scribble" \/ steps' = steps) => \A r \in DOMAIN live : live'[r] = live[r]
ReturnedStaysAlways == [][ReturnedStays]_mvars
=============================================================================
