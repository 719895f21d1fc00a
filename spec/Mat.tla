-------------------------------- MODULE Mat --------------------------------
(***************************************************************************)
(* Vectors and matrices over the rationals of module Rat.  A vector is a   *)
(* tuple of rationals, a matrix a (non-empty) tuple of rows.               *)
(* TLCEval only tells TLC to evaluate eagerly; it is the identity.         *)
(***************************************************************************)
EXTENDS Rat, TLC, FiniteSets

Vec(n, f(_)) == TLCEval([i \in 1 .. n |-> f(i)])
Mtx(r, c, f(_, _)) == TLCEval([i \in 1 .. r |-> TLCEval([j \in 1 .. c |-> f(i, j)])])

Rows(A) == Len(A)
Cols(A) == Len(A[1])

ZeroVec(n) == Vec(n, LAMBDA i : R0)
ZeroMat(r, c) == Mtx(r, c, LAMBDA i, j : R0)
EyeMat(r, c) == Mtx(r, c, LAMBDA i, j : IF i = j THEN R1 ELSE R0)
Eye(n) == EyeMat(n, n)
Diag(v) == Mtx(Len(v), Len(v), LAMBDA i, j : IF i = j THEN v[i] ELSE R0)
Diagonal(A) == Vec(Rows(A), LAMBDA i : A[i][i])

VAdd(u, v) == Vec(Len(u), LAMBDA i : RAdd(u[i], v[i]))
VSub(u, v) == Vec(Len(u), LAMBDA i : RSub(u[i], v[i]))
VScale(a, v) == Vec(Len(v), LAMBDA i : RMul(a, v[i]))

MT(A) == Mtx(Cols(A), Rows(A), LAMBDA i, j : A[j][i])
MAdd(A, B) == Mtx(Rows(A), Cols(A), LAMBDA i, j : RAdd(A[i][j], B[i][j]))
MSub(A, B) == Mtx(Rows(A), Cols(A), LAMBDA i, j : RSub(A[i][j], B[i][j]))
MScale(a, A) == Mtx(Rows(A), Cols(A), LAMBDA i, j : RMul(a, A[i][j]))
\* A * B' (the rows of both)
MMulT(A, B) == Mtx(Rows(A), Rows(B), LAMBDA i, j : RDot(A[i], B[j]))
MMul(A, B) == LET Bt == MT(B) IN MMulT(A, Bt)
MVec(A, v) == Vec(Rows(A), LAMBDA i : RDot(A[i], v))
Outer(u, v) == Mtx(Len(u), Len(v), LAMBDA i, j : RMul(u[i], v[j]))
\* A * S * B'
Sandwich(A, S, B) == LET SB == MMulT(S, B) IN MMul(A, SB)
\* (S + S')/2: used after rounding only, the exact S is symmetric
Symmetrize(S) == Mtx(Rows(S), Rows(S), LAMBDA i, j : IF i = j THEN S[i][j] ELSE RHalf(RAdd(S[i][j], S[j][i])))

Col(A, j) == Vec(Rows(A), LAMBDA i : A[i][j])
SubVec(v, idx) == Vec(Len(idx), LAMBDA k : v[idx[k]])
SubMat(A, ri, ci) == Mtx(Len(ri), Len(ci), LAMBDA i, j : A[ri[i]][ci[j]])
Range1(n) == Vec(n, LAMBDA i : i)

VRound(v, p) == IF p = 0 THEN v ELSE Vec(Len(v), LAMBDA i : RRound(v[i], p))
MRound(A, p) == IF p = 0 THEN A ELSE Mtx(Rows(A), Cols(A), LAMBDA i, j : RRound(A[i][j], p))

RECURSIVE VMaxAbsUpTo(_, _)
VMaxAbsUpTo(v, k) == IF k = 0 THEN R0 ELSE RMax(RAbs(v[k]), VMaxAbsUpTo(v, k - 1))
VMaxAbs(v) == VMaxAbsUpTo(v, Len(v))
MMaxAbs(A) == VMaxAbs(Vec(Rows(A), LAMBDA i : VMaxAbs(A[i])))

RECURSIVE SumUpTo(_, _)
SumUpTo(v, k) == IF k = 0 THEN R0 ELSE RAdd(v[k], SumUpTo(v, k - 1))
VSum(v) == SumUpTo(v, Len(v))
Trace_(A) == VSum(Vec(Rows(A), LAMBDA i : A[i][i]))

\* fold a sequence of matrices / vectors (a non-empty one) with +
RECURSIVE MSumUpTo(_, _)
MSumUpTo(s, k) == IF k = 1 THEN s[1] ELSE MAdd(MSumUpTo(s, k - 1), s[k])
MSum(s) == MSumUpTo(s, Len(s))
RECURSIVE VVSumUpTo(_, _)
VVSumUpTo(s, k) == IF k = 1 THEN s[1] ELSE VAdd(VVSumUpTo(s, k - 1), s[k])
VVSum(s) == VVSumUpTo(s, Len(s))

---------------------------------------------------------------------------
(* Elimination.  GJ(M, k) makes column k .. Rows(M) of the augmented       *)
(* matrix M the identity, by exact Gauss-Jordan elimination.               *)

RowComb(r, f, s) == Vec(Len(r), LAMBDA j : RSub(r[j], RMul(f, s[j])))
PivotRow(M, k) == CHOOSE i \in k .. Rows(M) : RSgn(M[i][k]) # 0
                                              /\ \A h \in k .. i - 1 : RSgn(M[h][k]) = 0
HasPivot(M, k) == \E i \in k .. Rows(M) : RSgn(M[i][k]) # 0
RECURSIVE GJ(_, _)
GJ(M, k) ==
    IF k > Rows(M) THEN M
    ELSE LET i == PivotRow(M, k)
             pr == LET inv == RDiv(R1, M[i][k]) IN VScale(inv, M[i])
             sw == TLCEval([h \in 1 .. Rows(M) |-> IF h = k THEN pr ELSE IF h = i THEN M[k] ELSE M[h]])
             el == TLCEval([h \in 1 .. Rows(M) |-> IF h = k THEN pr ELSE RowComb(sw[h], sw[h][k], pr)])
         IN  GJ(el, k + 1)
Augment(A, B) == TLCEval([i \in 1 .. Rows(A) |-> TLCEval(A[i] \o B[i])])
\* A^-1 B, A square and regular
Solve(A, B) ==
    LET n == Rows(A)
        M == GJ(Augment(A, B), 1)
    IN  Mtx(n, Cols(B), LAMBDA i, j : M[i][n + j])
Inv(A) == Solve(A, Eye(Rows(A)))

(* Symmetric positive semidefinite matrices: A = U'DU style elimination    *)
(* without pivoting.  PSDPivots(S) is the sequence of pivots.              *)
SchurStep(S) ==
    LET n == Rows(S)
        inv == RDiv(R1, S[1][1])
    IN  Mtx(n - 1, n - 1, LAMBDA i, j :
              RSub(S[i + 1][j + 1], RMul(RMul(S[i + 1][1], S[1][j + 1]), inv)))
MinorStep(S) == LET n == Rows(S) IN Mtx(n - 1, n - 1, LAMBDA i, j : S[i + 1][j + 1])

RECURSIVE Pivots(_)
Pivots(S) ==
    IF Rows(S) = 1 THEN <<S[1][1]>>
    ELSE IF RSgn(S[1][1]) = 0 THEN <<R0>> \o Pivots(MinorStep(S))
    ELSE <<S[1][1]>> \o Pivots(SchurStep(S))

RECURSIVE IsPSD(_)
IsPSD(S) ==
    /\ RSgn(S[1][1]) >= 0
    /\ IF Rows(S) = 1 THEN TRUE
       ELSE IF RSgn(S[1][1]) = 0
            THEN (\A j \in 1 .. Rows(S) : RSgn(S[1][j]) = 0 /\ RSgn(S[j][1]) = 0) /\ IsPSD(MinorStep(S))
            ELSE IsPSD(SchurStep(S))
IsPD(S) == LET p == Pivots(S) IN \A i \in 1 .. Len(p) : RSgn(p[i]) > 0

IsSymmetric(S) == \A i, j \in 1 .. Rows(S) : S[i][j] = S[j][i]

RECURSIVE RProd(_, _)
RProd(v, k) == IF k = 0 THEN R1 ELSE RMul(v[k], RProd(v, k - 1))
\* determinant of a positive semidefinite matrix
DetPSD(S) == LET p == Pivots(S) IN RProd(p, Len(p))

\* indices of the non-zero pivots, in order
RECURSIVE NonZeroIdx(_, _)
NonZeroIdx(v, k) == IF k = 0 THEN <<>>
                    ELSE IF RSgn(v[k]) = 0 THEN NonZeroIdx(v, k - 1)
                    ELSE Append(NonZeroIdx(v, k - 1), k)
RankIdx(S) == LET p == Pivots(S) IN NonZeroIdx(p, Len(p))

(* Moore-Penrose inverse of a symmetric positive semidefinite S.  With idx *)
(* the independent columns, F = S[:, idx]: S = F S[idx,idx]^-1 F', hence   *)
(* S^+ = F (F'F)^-1 S[idx,idx] (F'F)^-1 F'.                                *)
PInv(S) ==
    LET idx == RankIdx(S)
        n == Rows(S)
    IN  IF Len(idx) = n THEN Inv(S)
        ELSE IF idx = <<>> THEN ZeroMat(n, n)
        ELSE LET F == SubMat(S, Range1(n), idx)
                 Ft == MT(F)
                 G == Inv(MMul(Ft, F))
                 FG == MMul(F, G)
             IN  Sandwich(FG, SubMat(S, idx, idx), FG)

\* block [A B; C D] of matrices
Block2(A, B, C, D) ==
    LET ra == Rows(A)  ca == Cols(A)
    IN  Mtx(ra + Rows(C), ca + Cols(B),
            LAMBDA i, j : IF i <= ra THEN (IF j <= ca THEN A[i][j] ELSE B[i][j - ca])
                          ELSE (IF j <= ca THEN C[i - ra][j] ELSE D[i - ra][j - ca]))
BlockDiag(A, D) == Block2(A, ZeroMat(Rows(A), Cols(D)), ZeroMat(Rows(D), Cols(A)), D)

(* Lower Cholesky factor of a positive definite S, square roots to 2^-p.   *)
RECURSIVE CholRows(_, _, _, _)
\* rows 1 .. i-1 are in L; computes row i
CholEntry(S, L, row, i, j, p) ==
    \* row: entries 1 .. j-1 of row i
    LET s == RSub(S[i][j], RDot(row, SubSeq(IF i = j THEN row ELSE L[j], 1, j - 1)))
    IN  IF i = j THEN RSqrt(s, p) ELSE RRound(RDiv(s, L[j][j]), p)
RECURSIVE CholRow(_, _, _, _, _, _)
CholRow(S, L, row, i, j, p) ==
    IF j > i THEN row \o Vec(Rows(S) - i, LAMBDA k : R0)
    ELSE CholRow(S, L, TLCEval(Append(row, CholEntry(S, L, row, i, j, p))), i, j + 1, p)
CholRows(S, L, i, p) ==
    IF i > Rows(S) THEN L
    ELSE CholRows(S, TLCEval(Append(L, TLCEval(CholRow(S, L, <<>>, i, 1, p)))), i + 1, p)
Chol(S, p) == CholRows(S, <<>>, 1, p)
=============================================================================
