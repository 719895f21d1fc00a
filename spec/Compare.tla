------------------------------ MODULE Compare ------------------------------
(***************************************************************************)
(* Judging recorded numbers.  A recorded array is a record                 *)
(*    [shape |-> << .. >>, data |-> << numerals, row by row >>].           *)
(* An operator named Bad* is the set of the clauses a recorded array       *)
(* breaks, each with a readable detail; {} means it is right.              *)
(***************************************************************************)
EXTENDS Mat

ClauseOf(c, detail) == [clause |-> c, detail |-> detail]

AllNum(data) == \A i \in 1 .. Len(data) : RIsNum(data[i])
FirstNonNum(data) == data[CHOOSE i \in 1 .. Len(data) : ~RIsNum(data[i]) /\ \A j \in 1 .. i - 1 : RIsNum(data[j])]

\* |got - want| <= lim
Near(got, want, lim) == RLe(RAbs(RSub(got, want)), lim)

Differ(what, i, got, want) ==
    ClauseOf(what, "entry " \o ToString(i) \o " is " \o RStr(got) \o ", specified " \o RStr(want))

\* entries off+1 .. off+Len(want) of data against the vector want
BadEntries(what, data, off, want, lim) ==
    LET wrong(i) == ~RIsNum(data[off + i]) \/ ~Near(RParse(data[off + i]), want[i], lim)
    IN  IF \A i \in 1 .. Len(want) : ~wrong(i) THEN {}
        ELSE LET i == CHOOSE i \in 1 .. Len(want) : wrong(i) /\ \A j \in 1 .. i - 1 : ~wrong(j)
             IN  IF RIsNum(data[off + i]) THEN {Differ(what, i, RParse(data[off + i]), want[i])}
                 ELSE {ClauseOf(what, "entry " \o ToString(i) \o " is " \o data[off + i] \o ", specified " \o RStr(want[i]))}

RECURSIVE FlattenUpTo(_, _)
FlattenUpTo(A, k) == IF k = 0 THEN <<>> ELSE FlattenUpTo(A, k - 1) \o A[k]
Flatten(A) == TLCEval(FlattenUpTo(A, Rows(A)))

BadShape(what, arr, shape) ==
    IF arr.shape = shape THEN {}
    ELSE {ClauseOf(what \o " shape", "is " \o ToString(arr.shape) \o ", specified " \o ToString(shape))}

\* block k (vector / matrix) of an array whose shape has been checked
VecAt(arr, k, n) == Vec(n, LAMBDA i : RParse(arr.data[(k - 1) * n + i]))
MatAt(arr, k, n) == Mtx(n, n, LAMBDA i, j : RParse(arr.data[(k - 1) * n * n + (i - 1) * n + j]))

\* a whole recorded array against a matrix / vector
BadMatrix(what, arr, M, lim) ==
    LET s == BadShape(what, arr, <<Rows(M), Cols(M)>>)
    IN  IF s # {} THEN s ELSE BadEntries(what, arr.data, 0, Flatten(M), lim)
BadVector(what, arr, v, lim) ==
    LET s == BadShape(what, arr, <<Len(v)>>)
    IN  IF s # {} THEN s ELSE BadEntries(what, arr.data, 0, v, lim)
BadScalar(what, s, x, lim) == BadEntries(what, <<s>>, 0, <<x>>, lim)

\* numerals to numbers
NumVec(a) == Vec(Len(a), LAMBDA i : RParse(a[i]))
NumMat(a) == TLCEval([i \in 1 .. Len(a) |-> NumVec(a[i])])
NumVecs(s) == TLCEval([k \in 1 .. Len(s) |-> NumVec(s[k])])
NumMats(s) == TLCEval([k \in 1 .. Len(s) |-> NumMat(s[k])])

RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
=============================================================================
