----------------------------- MODULE MCThreads ------------------------------
(***************************************************************************)
(* How a query is carried out: parameter by parameter it loads the values  *)
(* of its object into registers, computes, and returns, while other        *)
(* threads do the same.  With registers of its own every interleaving is a *)
(* behaviour of module Threads.  (With registers kept in the object, or    *)
(* common to all - Where = "object", "module" - it is not: these are       *)
(* checked to fail.)                                                       *)
(***************************************************************************)
EXTENDS Threads
CONSTANTS Workers, PerThread, Where

Loaded == <<"x", "p">>   \* argument first, then the parameter
VARIABLES pc,       \* thread -> 0 idle; k: Loaded[k] is due; Len(Loaded) + 1: to be returned
          reg,      \* place -> what has been loaded there
          left      \* thread -> queries left
mvars == <<thvars, pc, reg, left>>

Same(a, b) == a = b
F(key) == [of |-> key]
PlaceOf(th) == CASE Where = "call" -> <<"thread", th>> [] Where = "object" -> <<"object", running[th].o>> [] Where = "module" -> <<"module">>
KeyOf(o, x) == [p |-> ValueOf(o, "p"), x |-> args[x]]

Init == /\ heap = (1 :> [class |-> "KF", attr |-> ("p" :> 1)]) @@ (2 :> [class |-> "KF", attr |-> ("p" :> 2)])
        /\ store = (1 :> "p1") @@ (2 :> "p2")
        /\ global = "g" /\ args = ("x1" :> "v1") @@ ("x2" :> "v2") /\ live = <<>> /\ memo = {}
        /\ running = [th \in {} |-> ""]
        /\ pc = [th \in Workers |-> 0] /\ reg = [w \in {} |-> ""] /\ left = [th \in Workers |-> PerThread]

Start(th) ==
    /\ pc[th] = 0 /\ left[th] > 0
    /\ \E o \in Objects, x \in DOMAIN args : Begin(th, o, KeyOf(o, x))
    /\ pc' = [pc EXCEPT ![th] = 1] /\ left' = [left EXCEPT ![th] = @ - 1]
    /\ UNCHANGED reg
Load(th) ==
    /\ pc[th] \in DOMAIN Loaded
    /\ LET w == PlaceOf(th)
           old == IF w \in DOMAIN reg THEN reg[w] ELSE [a \in {} |-> ""]
           v == IF Loaded[pc[th]] = "x" THEN running[th].key.x ELSE ValueOf(running[th].o, "p")
       IN  reg' = (w :> ((Loaded[pc[th]] :> v) @@ old)) @@ reg
    /\ pc' = [pc EXCEPT ![th] = @ + 1]
    /\ UNCHANGED <<thvars, left>>
Result(th) == F([p |-> reg[PlaceOf(th)]["p"], x |-> reg[PlaceOf(th)]["x"]])
Return(th) ==
    /\ pc[th] = Len(Loaded) + 1
    /\ End(th, Result(th), (Cardinality(DOMAIN live) :> "r"))
    /\ pc' = [pc EXCEPT ![th] = 0]
    /\ UNCHANGED <<reg, left>>
\* meanwhile the program changes what is free
Change == /\ \E o \in Objects, a \in {"p"} : /\ AssignIdle(o, a, "w")
                                                   /\ ValueOf(o, a) # "w"
          /\ UNCHANGED <<pc, reg, left>>
Next == (\E th \in Workers : Start(th) \/ Load(th) \/ Return(th)) \/ Change
Spec == Init /\ [][Next]_mvars

\* what is about to be returned is what the query returns alone
ReturnsAlone == \A th \in Workers : pc[th] = Len(Loaded) + 1 => Result(th) = F(running[th].key)
\* and the step of module Objects that ends the query is possible
EndPossible == \A th \in Workers : pc[th] = Len(Loaded) + 1 => \A m \in Known(running[th].key) : m.out = Result(th)
\* in the order of their ends, queries are steps of module Objects
IsObjects == [][\/ \E th \in DOMAIN running : Query(running[th].key, F(running[th].key), (Cardinality(DOMAIN live) :> "r"))
                \/ \E o \in Objects, a \in {"p"} : Assign(o, a, "w")
                \/ UNCHANGED ovars]_ovars
=============================================================================
