-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational numbers.                                                 *)
(*                                                                         *)
(* A rational is a tuple                                                   *)
(*     << s*k, n_1, .., n_k, d_1, .., d_m >>                               *)
(* of integers: s is the sign, k the number of limbs of the numerator;     *)
(* |x| = (SUM n_i * B^(i-1)) / (SUM d_i * B^(i-1)), B = 2^30, in lowest    *)
(* terms, without leading zero limbs; zero is << 0, 1 >>.  The             *)
(* representation is canonical: equal numbers are equal TLA+ values.       *)
(*                                                                         *)
(* The definitions below are over the unbounded Int of TLA+.  TLC has      *)
(* 32-bit integers, so it evaluates the operators marked (J) with the      *)
(* Java implementation java/kf/RatOps.java; RatTest.tla checks that        *)
(* implementation against these definitions on all small rationals, and    *)
(* against the field axioms on big ones.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences

LimbBase == 2 ^ 30

RECURSIVE LimbsVal(_)
LimbsVal(s) == IF s = <<>> THEN 0 ELSE Head(s) + LimbBase * LimbsVal(Tail(s))

RECURSIVE LimbsOf(_)
LimbsOf(a) == IF a = 0 THEN <<>> ELSE <<a % LimbBase>> \o LimbsOf(a \div LimbBase)

RAbsInt(a) == IF a < 0 THEN -a ELSE a
RSgnInt(a) == IF a < 0 THEN -1 ELSE IF a > 0 THEN 1 ELSE 0

\* numerator (signed) and denominator (positive) of a rational
RNum(x) == RSgnInt(x[1]) * LimbsVal(SubSeq(x, 2, 1 + RAbsInt(x[1])))
RDen(x) == LimbsVal(SubSeq(x, 2 + RAbsInt(x[1]), Len(x)))

RECURSIVE RGcd(_, _)
RGcd(a, b) == IF b = 0 THEN a ELSE RGcd(b, a % b)

\* the rational a/b, b # 0
RMake(a, b) ==
    LET s == RSgnInt(a) * RSgnInt(b)
        g == RGcd(RAbsInt(a), RAbsInt(b))
        n == LimbsOf(RAbsInt(a) \div g)
        d == LimbsOf(RAbsInt(b) \div g)
    IN  <<s * Len(n)>> \o n \o d

RFrac(a, b) == RMake(a, b)                                              \* (J)
RAdd(x, y) == RMake(RNum(x) * RDen(y) + RNum(y) * RDen(x), RDen(x) * RDen(y)) \* (J)
RSub(x, y) == RMake(RNum(x) * RDen(y) - RNum(y) * RDen(x), RDen(x) * RDen(y)) \* (J)
RMul(x, y) == RMake(RNum(x) * RNum(y), RDen(x) * RDen(y))               \* (J)
RDiv(x, y) == RMake(RNum(x) * RDen(y), RDen(x) * RNum(y))               \* (J)
\* sign of x - y
RCmp(x, y) == RSgnInt(RNum(x) * RDen(y) - RNum(y) * RDen(x))            \* (J)

RInt(a) == RFrac(a, 1)
R0 == RFrac(0, 1)
R1 == RFrac(1, 1)
R2 == RFrac(2, 1)

RNeg(x) == RSub(R0, x)
RSgn(x) == RCmp(x, R0)
RAbs(x) == IF RSgn(x) < 0 THEN RNeg(x) ELSE x
RLt(x, y) == RCmp(x, y) < 0
RLe(x, y) == RCmp(x, y) <= 0
RMax(x, y) == IF RLt(x, y) THEN y ELSE x
RMin(x, y) == IF RLt(x, y) THEN x ELSE y
RHalf(x) == RMul(x, RFrac(1, 2))

\* SUM u[i] * v[i]                                                         (J)
RECURSIVE RDot(_, _)
RDot(u, v) == IF u = <<>> THEN R0
              ELSE RAdd(RMul(Head(u), Head(v)), RDot(Tail(u), Tail(v)))

\* largest integer not above x
RFloor(x) == RNum(x) \div RDen(x)                                       \* (J)

\* integer square root of a >= 0
RISqrt(a) == CHOOSE r \in 0 .. a : r * r <= a /\ (r + 1) * (r + 1) > a
\* largest multiple r of 2^-p with r*r <= x, for x >= 0                    (J)
RSqrt(x, p) == RMake(RISqrt((RNum(x) * 4 ^ p) \div RDen(x)), 2 ^ p)

\* number of binary digits of a >= 0
RBits(a) == CHOOSE k \in 0 .. 100000 : (k = 0 /\ a = 0) \/ (k > 0 /\ 2 ^ (k - 1) <= a /\ a < 2 ^ k)
\* x rounded to about p significant binary digits; dyadic x of at most p
\* digits are unchanged                                                    (J)
RRound(x, p) ==
    LET n == RAbsInt(RNum(x))
        d == RDen(x)
        e == p - (RBits(n) - RBits(d))
        q == IF e >= 0 THEN (2 * n * 2 ^ e + d) \div (2 * d)
                       ELSE (2 * n + d * 2 ^ (-e)) \div (2 * d * 2 ^ (-e))
    IN  IF n = 0 \/ (d = 2 ^ (RBits(d) - 1) /\ RBits(n) <= p) THEN x
        ELSE IF e >= 0 THEN RMake(RSgnInt(RNum(x)) * q, 2 ^ e)
                       ELSE RMake(RSgnInt(RNum(x)) * q * 2 ^ (-e), 1)

\* floor(log2 |x|), or one less                                            (J)
RMag(x) == RBits(RAbsInt(RNum(x))) - RBits(RDen(x)) 

\* Numerals (character strings).  There is no arithmetic on characters in
\* TLC, so these three exist in Java only: RParse(s) is the value of the
\* IEEE double that the literal s denotes (exactly), or of "a/b";
\* RIsNum(s): s denotes a finite number; RStr(x): x in decimal, for messages.
RParse(s) == CHOOSE x : x = s
RIsNum(s) == CHOOSE b \in BOOLEAN : b = b
RStr(x) == CHOOSE s : s = x

---------------------------------------------------------------------------
\* Natural logarithm, in TLA+.  Working precision p bits.

\* SUM_{j=0}^{k} z^(2j+1)/(2j+1): atanh(z), for |z| <= 1/3, to k terms
RECURSIVE RAtanhAcc(_, _, _, _, _)
RAtanhAcc(zp, z2, j, k, p) ==
    IF j > k THEN R0
    ELSE RRound(RAdd(RDiv(zp, RInt(2 * j + 1)),
                     RAtanhAcc(RRound(RMul(zp, z2), p), z2, j + 1, k, p)), p)
RAtanh(z, p) == RAtanhAcc(z, RRound(RMul(z, z), p), 0, (p \div 3) + 2, p)

\* powers of two, any integer exponent
RECURSIVE RPow2(_)
RPow2(e) == IF e = 0 THEN R1
            ELSE IF e < 0 THEN RDiv(R1, RPow2(-e))
            ELSE IF e < 30 THEN RInt(2 ^ e)
            ELSE RMul(RInt(2 ^ 29), RPow2(e - 29))

RLn2(p) == RMul(R2, RAtanh(RFrac(1, 3), p))
\* ln m for m in [1/2, 2]: (m-1)/(m+1) is within [-1/3, 1/3]
RLnUnit(m, p) == RMul(R2, RAtanh(RRound(RDiv(RSub(m, R1), RAdd(m, R1)), p), p))
RLn(x, p) ==
    LET e == RMag(x)
        m == RRound(RDiv(x, RPow2(e)), p)     \* in (1/2, 2)
    IN  RRound(RAdd(RMul(RInt(e), RLn2(p)), RLnUnit(m, p)), p)

\* pi = 16 atan(1/5) - 4 atan(1/239) (Machin)
RECURSIVE RAtanAcc(_, _, _, _, _)
RAtanAcc(zp, z2, j, k, p) ==
    IF j > k THEN R0
    ELSE RRound(RAdd(RDiv(zp, RInt(2 * j + 1)),
                     RAtanAcc(RNeg(RRound(RMul(zp, z2), p)), z2, j + 1, k, p)), p)
RAtanInv(q, p) == RAtanAcc(RFrac(1, q), RFrac(1, q * q), 0, (p \div 4) + 2, p)
RPi(p) == RSub(RMul(RInt(16), RAtanInv(5, p)), RMul(RInt(4), RAtanInv(239, p)))
=============================================================================
