------------------------------ MODULE RatTest ------------------------------
(***************************************************************************)
(* The Java evaluation of module Rat against its TLA+ definitions.         *)
(* Pure is the same module with the definitions evaluated by TLC itself    *)
(* (overrides are bound to the module name Rat only).                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
R == INSTANCE Rat
P == INSTANCE RatPure

VARIABLES a, b, c, d, stage
vars == <<a, b, c, d, stage>>

N == 3
Init == /\ a \in -N .. N /\ b \in 1 .. 3 /\ c \in -N .. N /\ d \in 1 .. 3 /\ stage = 0
Next == stage = 0 /\ stage' = 1 /\ UNCHANGED <<a, b, c, d>>

x == R!RFrac(a, b)
y == R!RFrac(c, d)

SameAsDefinition ==
    /\ x = P!RFrac(a, b)
    /\ R!RAdd(x, y) = P!RAdd(x, y)
    /\ R!RSub(x, y) = P!RSub(x, y)
    /\ R!RMul(x, y) = P!RMul(x, y)
    /\ c # 0 => R!RDiv(x, y) = P!RDiv(x, y)
    /\ R!RCmp(x, y) = P!RCmp(x, y)
    /\ R!RFloor(x) = P!RFloor(x)
    /\ R!RDot(<<x, y, x>>, <<y, y, x>>) = P!RDot(<<x, y, x>>, <<y, y, x>>)
    /\ \A p \in 1 .. 4 : R!RRound(x, p) = P!RRound(x, p)
    /\ a >= 0 => \A p \in 0 .. 3 : R!RSqrt(x, p) = P!RSqrt(x, p)
    /\ a # 0 => R!RMag(x) = P!RMag(x)

\* field axioms and rounding/square root error bounds on numbers of many limbs
Big(u) == R!RDiv(R!RAdd(R!RMul(R!RPow2(95), u), R!RInt(7919)), R!RAdd(R!RPow2(70), u))
X == Big(x)
Y == Big(y)
Z == R!RAdd(Big(R!RMul(x, y)), R!RFrac(1, 3))
Axioms ==
    /\ R!RAdd(X, Y) = R!RAdd(Y, X)
    /\ R!RMul(X, Y) = R!RMul(Y, X)
    /\ R!RMul(X, R!RAdd(Y, Z)) = R!RAdd(R!RMul(X, Y), R!RMul(X, Z))
    /\ R!RAdd(R!RSub(X, Y), Y) = X
    /\ R!RMul(R!RDiv(X, Z), Z) = X
    /\ R!RDot(<<X, Y>>, <<Z, X>>) = R!RAdd(R!RMul(X, Z), R!RMul(Y, X))
    /\ R!RCmp(X, Y) = R!RSgn(R!RSub(X, Y))
    /\ R!RLe(R!RAbs(R!RSub(R!RRound(X, 100), X)), R!RMul(R!RAbs(X), R!RPow2(-98)))
    /\ LET s == R!RSqrt(R!RAbs(Z), 80)
       IN /\ R!RLe(R!RMul(s, s), R!RAbs(Z))
          /\ LET s1 == R!RAdd(s, R!RPow2(-80)) IN R!RLt(R!RAbs(Z), R!RMul(s1, s1))
    \* the logarithm is a homomorphism
    /\ (a > 0 /\ c > 0) =>
         R!RLe(R!RAbs(R!RSub(R!RLn(R!RMul(X, Y), 120), R!RAdd(R!RLn(X, 120), R!RLn(Y, 120)))), R!RPow2(-100))

Literals ==
    /\ R!RParse("0.5") = R!RFrac(1, 2)
    /\ R!RParse("-3/6") = R!RFrac(-1, 2)
    /\ R!RParse("1e3") = R!RInt(1000)
    /\ R!RParse("0x1.8p-1") = R!RFrac(3, 4)
    /\ R!RParse("0.1") # R!RFrac(1, 10)      \* the double, not the decimal
    /\ R!RIsNum("1.5") /\ ~R!RIsNum("nan") /\ ~R!RIsNum("inf") /\ ~R!RIsNum("NaN") /\ ~R!RIsNum("-Infinity") /\ ~R!RIsNum("abc")
    \* pi and ln 2, ln 10 to double precision
    /\ R!RLe(R!RAbs(R!RSub(R!RPi(120), R!RParse("3.141592653589793"))), R!RPow2(-51))
    /\ R!RLe(R!RAbs(R!RSub(R!RLn(R!R2, 120), R!RParse("0.6931471805599453"))), R!RPow2(-53))
    /\ R!RLe(R!RAbs(R!RSub(R!RLn(R!RInt(10), 120), R!RParse("2.302585092994046"))), R!RPow2(-51))
=============================================================================
