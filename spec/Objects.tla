------------------------------ MODULE Objects -------------------------------
(***************************************************************************)
(* Filter objects as seen by a program that uses them: objects have        *)
(* attributes, attributes live in cells (a shallow copy shares them), the  *)
(* program owns argument arrays and keeps the arrays it was returned,      *)
(* there is one global random generator.                                   *)
(*                                                                         *)
(* A query returns a function of its key: the class of the object, the     *)
(* values of its parameters, the operation and the values of its           *)
(* arguments (and of the generator it draws from, if it draws).  `memo` is *)
(* this function as far as it has been seen.  Apart from what it returns a *)
(* query has no effect, except on the generator it draws from.             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANT Agrees(_, _)   \* two outcomes of a call are the same, up to rounding

VARIABLES heap,     \* object -> [class, attr : attribute -> cell]
          store,    \* cell -> value
          global,   \* value of the global random generator
          args,     \* argument array of the caller -> value
          live,     \* returned array kept by the caller -> value
          memo      \* set of [key, out]
ovars == <<heap, store, global, args, live, memo>>

Objects == DOMAIN heap
ValueOf(o, a) == store[heap[o].attr[a]]
Valuation(o) == [a \in DOMAIN heap[o].attr |-> ValueOf(o, a)]
Cells(o) == {heap[o].attr[a] : a \in DOMAIN heap[o].attr}
Users(c) == {o \in Objects : c \in Cells(o)}
NewCells(k) == LET top == IF DOMAIN store = {} THEN 0 ELSE CHOOSE c \in DOMAIN store : \A d \in DOMAIN store : d <= c
               IN  [i \in 1 .. k |-> top + i]
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})

\* an object o all of whose attributes are in cells of their own
Place(o, class, vals) ==
    LET names == SeqOf(DOMAIN vals)
        cs == NewCells(Len(names))
        idx(a) == CHOOSE i \in 1 .. Len(names) : names[i] = a
    IN  /\ heap' = (o :> [class |-> class, attr |-> [a \in DOMAIN vals |-> cs[idx(a)]]]) @@ heap
        /\ store' = [c \in {cs[i] : i \in 1 .. Len(names)} |-> vals[names[CHOOSE i \in 1 .. Len(names) : cs[i] = c]]] @@ store

Construct(o, class, vals) ==
    /\ o \notin Objects
    /\ Place(o, class, vals)
    /\ UNCHANGED <<global, args, live, memo>>

Known(key) == {m \in memo : m.key = key}
Learn(key, out) ==
    /\ (\A m \in Known(key) : Agrees(m.out, out)) = TRUE
    /\ memo' = IF Known(key) = {} THEN memo \cup {[key |-> key, out |-> out]} ELSE memo

\* a call that draws nothing
Query(key, out, returned) ==
    /\ Learn(key, out)
    /\ live' = returned @@ live
    /\ UNCHANGED <<heap, store, global, args>>
\* one that draws from the generator of object o / from the global one
DrawOwn(o, a, key, out, returned, after) ==
    /\ Learn(key, out)
    /\ live' = returned @@ live
    /\ store' = [store EXCEPT ![heap[o].attr[a]] = after]
    /\ UNCHANGED <<heap, global, args>>
DrawGlobal(key, out, returned, after) ==
    /\ Learn(key, out)
    /\ live' = returned @@ live /\ global' = after
    /\ UNCHANGED <<heap, store, args>>
\* one that raises
Fails(key, out) == Query(key, out, <<>>)

Assign(o, a, v) ==
    LET c == NewCells(1)[1]
    IN  /\ heap' = [heap EXCEPT ![o].attr[a] = c]
        /\ store' = (c :> v) @@ store
        /\ UNCHANGED <<global, args, live, memo>>
\* writing into the array an attribute holds
Poke(o, a, v) ==
    /\ store' = [store EXCEPT ![heap[o].attr[a]] = v]
    /\ UNCHANGED <<heap, global, args, live, memo>>

\* fitting replaces the parameters fitted, a function of its key as well;
\* parameters that were left to their defaults hold them afterwards
Fit(o, key, out, fitted, new, default) ==
    LET vals == [a \in DOMAIN heap[o].attr |->
                   IF a \in fitted THEN new[a]
                   ELSE IF a \in DOMAIN default /\ ValueOf(o, a) = "none" THEN default[a] ELSE ValueOf(o, a)]
        changed == SeqOf({a \in DOMAIN vals : a \in fitted \/ vals[a] # ValueOf(o, a)})
        cs == NewCells(Len(changed))
    IN  /\ heap' = [heap EXCEPT ![o].attr = [a \in DOMAIN heap[o].attr |->
                        IF \E i \in 1 .. Len(changed) : changed[i] = a
                        THEN cs[CHOOSE i \in 1 .. Len(changed) : changed[i] = a] ELSE heap[o].attr[a]]]
        /\ store' = [c \in {cs[i] : i \in 1 .. Len(changed)} |-> vals[changed[CHOOSE i \in 1 .. Len(changed) : cs[i] = c]]] @@ store
        /\ Learn(key, out)
        /\ UNCHANGED <<global, args, live>>

ShallowCopy(o, p) ==
    /\ p \notin Objects
    /\ heap' = (p :> heap[o]) @@ heap
    /\ UNCHANGED <<store, global, args, live, memo>>
\* deep copies, unpickled objects, and objects constructed with the same values
DeepCopy(o, p) ==
    /\ p \notin Objects
    /\ Place(p, heap[o].class, Valuation(o))
    /\ UNCHANGED <<global, args, live, memo>>

\* the caller writes into an array of its own
Scribble(r, v) == live' = [live EXCEPT ![r] = v] /\ UNCHANGED <<heap, store, global, args, memo>>
Rewrite(x, v) == args' = [args EXCEPT ![x] = v] /\ UNCHANGED <<heap, store, global, live, memo>>

MemoIsFunction == \A m, k \in memo : m.key = k.key => m = k
=============================================================================
