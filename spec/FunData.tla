----------------------------- MODULE FunData -------------------------------
(***************************************************************************)
(* Functions as data.  A function is a sequence with, per output,          *)
(* [num, den, lim]: sums of terms [c, e] with a coefficient c and an       *)
(* exponent per argument; den = <<>> for polynomials.  lim = <<lo, hi>>    *)
(* cuts the quotient off at lo and hi (saturation; kinks); <<>> does not.  *)
(***************************************************************************)
EXTENDS LG

RECURSIVE RPowN(_, _)
RPowN(x, k) == IF k = 0 THEN R1 ELSE RMul(x, RPowN(x, k - 1))
RECURSIVE Monomial(_, _, _)
Monomial(e, v, j) == IF j = 0 THEN R1
                     ELSE IF e[j] = 0 THEN Monomial(e, v, j - 1)
                     ELSE RMul(RPowN(v[j], e[j]), Monomial(e, v, j - 1))
Poly(terms, v) == VSum(Vec(Len(terms), LAMBDA k : RMul(terms[k].c, Monomial(terms[k].e, v, Len(v)))))
Apply(f, v) == Vec(Len(f), LAMBDA i :
    LET num == Poly(f[i].num, v)
        val == IF f[i].den = <<>> THEN num ELSE BR(RDiv(num, Poly(f[i].den, v)))
    IN  IF f[i].lim = <<>> THEN val ELSE RMax(f[i].lim[1], RMin(f[i].lim[2], val)))

Unit(k, i) == [j \in 1 .. k |-> IF j = i THEN 1 ELSE 0]
\* the argument as it is; x + w of arguments (x, w)
Same(n) == [i \in 1 .. n |-> [den |-> <<>>, lim |-> <<>>, num |-> <<[c |-> R1, e |-> Unit(n, i)]>>]]
SamePlus(n) == [i \in 1 .. n |-> [den |-> <<>>, lim |-> <<>>, num |-> <<[c |-> R1, e |-> Unit(2 * n, i)], [c |-> R1, e |-> Unit(2 * n, n + i)]>>]]
=============================================================================
