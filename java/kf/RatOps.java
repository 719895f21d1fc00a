package kf;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;

import tlc2.overrides.TLAPlusOperator;
import tlc2.value.IValue;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;
import util.Assert;

/**
 * Exact rational arithmetic for TLC.  TLC's integers are 32 bit; the operators of
 * module Rat are defined over the unbounded Int of TLA+ and evaluated here with
 * BigInteger.  Representation (a plain TLA+ tuple, see Rat.tla):
 *   x = << s*k, n_1, .., n_k, d_1, .., d_m >>,   |x| = (sum n_i B^(i-1)) / (sum d_i B^(i-1)),  B = 2^30,
 * in lowest terms, s the sign, no leading zero limbs;  0 = <<0, 1>>.
 */
public final class RatOps {
    private static final int LB = 30;
    private static final int MASK = (1 << LB) - 1;

    /** A tuple value that remembers the rational it encodes. */
    static final class Q extends TupleValue {
        final transient BigInteger n, d;

        Q(Value[] elems, BigInteger n, BigInteger d) {
            super(elems);
            this.n = n;
            this.d = d;
        }
    }

    private static final class R {
        final BigInteger n, d;

        R(BigInteger n, BigInteger d) {
            this.n = n;
            this.d = d;
        }
    }

    private static int limbs(BigInteger x, Value[] out, int at) {
        int len = (x.bitLength() + LB - 1) / LB;
        if (out == null) return len;
        if (len == 1) {
            out[at] = IntValue.gen(x.intValue());
        } else if (len == 2) {
            long v = x.longValue();
            out[at] = IntValue.gen((int) (v & MASK));
            out[at + 1] = IntValue.gen((int) (v >>> LB));
        } else {
            BigInteger y = x;
            for (int i = 0; i < len; i++) {
                out[at + i] = IntValue.gen(y.intValue() & MASK);
                y = y.shiftRight(LB);
            }
        }
        return len;
    }

    /** canonical value of n/d (d != 0, not necessarily reduced) */
    static Value make(BigInteger n, BigInteger d) {
        if (d.signum() < 0) {
            n = n.negate();
            d = d.negate();
        }
        if (n.signum() == 0) {
            d = BigInteger.ONE;
        } else if (!d.equals(BigInteger.ONE)) {
            int tz = Math.min(n.getLowestSetBit(), d.getLowestSetBit());
            if (tz > 0) {
                n = n.shiftRight(tz);
                d = d.shiftRight(tz);
            }
            if (d.bitLength() - 1 != d.getLowestSetBit()) { // not a power of two
                BigInteger g = n.gcd(d);
                if (!g.equals(BigInteger.ONE)) {
                    n = n.divide(g);
                    d = d.divide(g);
                }
            }
        }
        BigInteger a = n.abs();
        int kn = limbs(a, null, 0), kd = limbs(d, null, 0);
        Value[] v = new Value[1 + kn + kd];
        v[0] = IntValue.gen(n.signum() * kn);
        limbs(a, v, 1);
        limbs(d, v, 1 + kn);
        return new Q(v, n, d);
    }

    private static BigInteger big(Value[] e, int from, int to) {
        if (to - from == 1) return BigInteger.valueOf(((IntValue) e[from]).val);
        if (to - from == 2)
            return BigInteger.valueOf(((IntValue) e[from]).val + ((long) ((IntValue) e[from + 1]).val << LB));
        BigInteger r = BigInteger.ZERO;
        for (int i = to - 1; i >= from; i--)
            r = r.shiftLeft(LB).or(BigInteger.valueOf(((IntValue) e[i]).val));
        return r;
    }

    static R get(Value v) {
        if (v instanceof Q) {
            Q q = (Q) v;
            if (q.d != null) return new R(q.n, q.d);
        }
        Value[] e;
        if (v instanceof TupleValue) {
            e = ((TupleValue) v).elems;
        } else {
            Value t = v.toTuple();
            if (!(t instanceof TupleValue)) {
                Assert.fail("Rat: not a rational: " + v);
            }
            e = ((TupleValue) t).elems;
        }
        int k = ((IntValue) e[0]).val;
        int kn = Math.abs(k);
        BigInteger n = big(e, 1, 1 + kn);
        if (k < 0) n = n.negate();
        return new R(n, big(e, 1 + kn, e.length));
    }

    private static int toInt(Value v) {
        return ((IntValue) v).val;
    }

    @TLAPlusOperator(identifier = "RFrac", module = "Rat", warn = false)
    public static Value rFrac(final IntValue a, final IntValue b) {
        return make(BigInteger.valueOf(a.val), BigInteger.valueOf(b.val));
    }

    @TLAPlusOperator(identifier = "RAdd", module = "Rat", warn = false)
    public static Value rAdd(final Value a, final Value b) {
        R x = get(a), y = get(b);
        return add(x, y);
    }

    private static Value add(R x, R y) {
        if (x.n.signum() == 0) return make(y.n, y.d);
        if (y.n.signum() == 0) return make(x.n, x.d);
        if (x.d.equals(y.d)) return make(x.n.add(y.n), x.d);
        return make(x.n.multiply(y.d).add(y.n.multiply(x.d)), x.d.multiply(y.d));
    }

    @TLAPlusOperator(identifier = "RSub", module = "Rat", warn = false)
    public static Value rSub(final Value a, final Value b) {
        R x = get(a), y = get(b);
        return add(x, new R(y.n.negate(), y.d));
    }

    @TLAPlusOperator(identifier = "RMul", module = "Rat", warn = false)
    public static Value rMul(final Value a, final Value b) {
        R x = get(a), y = get(b);
        return make(x.n.multiply(y.n), x.d.multiply(y.d));
    }

    @TLAPlusOperator(identifier = "RDiv", module = "Rat", warn = false)
    public static Value rDiv(final Value a, final Value b) {
        R x = get(a), y = get(b);
        if (y.n.signum() == 0) Assert.fail("Rat: division by zero");
        return make(x.n.multiply(y.d), x.d.multiply(y.n));
    }

    @TLAPlusOperator(identifier = "RCmp", module = "Rat", warn = false)
    public static Value rCmp(final Value a, final Value b) {
        R x = get(a), y = get(b);
        return IntValue.gen(x.n.multiply(y.d).compareTo(y.n.multiply(x.d)));
    }

    /** Sum of products of two equally long vectors. */
    @TLAPlusOperator(identifier = "RDot", module = "Rat", warn = false)
    public static Value rDot(final Value a, final Value b) {
        Value[] u = ((TupleValue) a.toTuple()).elems, v = ((TupleValue) b.toTuple()).elems;
        if (u.length != v.length) Assert.fail("Rat: RDot of vectors of lengths " + u.length + " and " + v.length);
        BigInteger n = BigInteger.ZERO, d = BigInteger.ONE;
        for (int i = 0; i < u.length; i++) {
            R x = get(u[i]), y = get(v[i]);
            BigInteger pn = x.n.multiply(y.n);
            if (pn.signum() == 0) continue;
            BigInteger pd = x.d.multiply(y.d);
            if (pd.equals(d)) {
                n = n.add(pn);
            } else {
                n = n.multiply(pd).add(pn.multiply(d));
                d = d.multiply(pd);
            }
        }
        return make(n, d);
    }

    private static BigInteger shift(BigInteger x, int s) {
        return s >= 0 ? x.shiftLeft(s) : x.shiftRight(-s);
    }

    /** nearest (ties up) dyadic with p significant bits; exact values that already fit are unchanged */
    @TLAPlusOperator(identifier = "RRound", module = "Rat", warn = false)
    public static Value rRound(final Value a, final IntValue p) {
        R x = get(a);
        return round(x, p.val);
    }

    private static Value round(R x, int p) {
        if (x.n.signum() == 0) return make(x.n, x.d);
        BigInteger n = x.n.abs();
        boolean pow2 = x.d.bitLength() - 1 == x.d.getLowestSetBit();
        if (pow2 && n.bitLength() <= p) return make(x.n, x.d);
        // e such that n/d * 2^e has about p bits
        int e = p - (n.bitLength() - x.d.bitLength());
        BigInteger nn = e >= 0 ? n.shiftLeft(e) : n;
        BigInteger dd = e >= 0 ? x.d : x.d.shiftLeft(-e);
        BigInteger q = nn.shiftLeft(1).add(dd).divide(dd.shiftLeft(1)); // floor(nn/dd + 1/2)
        if (x.n.signum() < 0) q = q.negate();
        return e >= 0 ? make(q, BigInteger.ONE.shiftLeft(e)) : make(q.shiftLeft(-e), BigInteger.ONE);
    }

    /** largest multiple r of 2^-p with r*r <= x (x >= 0) */
    @TLAPlusOperator(identifier = "RSqrt", module = "Rat", warn = false)
    public static Value rSqrt(final Value a, final IntValue p) {
        R x = get(a);
        if (x.n.signum() < 0) Assert.fail("Rat: square root of a negative number");
        BigInteger t = x.n.shiftLeft(2 * p.val).divide(x.d);
        return make(t.sqrt(), BigInteger.ONE.shiftLeft(p.val));
    }

    /** floor(x) for values that fit a TLC integer */
    @TLAPlusOperator(identifier = "RFloor", module = "Rat", warn = false)
    public static Value rFloor(final Value a) {
        R x = get(a);
        BigInteger[] qr = x.n.divideAndRemainder(x.d);
        BigInteger q = qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0];
        return IntValue.gen(q.intValueExact());
    }

    /** number of bits of the integer part of |x| minus bits of the denominator: floor(log2|x|) +- 1 */
    @TLAPlusOperator(identifier = "RMag", module = "Rat", warn = false)
    public static Value rMag(final Value a) {
        R x = get(a);
        return IntValue.gen(x.n.abs().bitLength() - x.d.bitLength());
    }

    /** Exact value of a numeral: the IEEE double denoted by a decimal/hex literal, or "a/b". */
    @TLAPlusOperator(identifier = "RParse", module = "Rat", warn = false)
    public static Value rParse(final StringValue s) {
        String t = s.val.toString();
        int i = t.indexOf('/');
        if (i >= 0) {
            return make(new BigInteger(t.substring(0, i)), new BigInteger(t.substring(i + 1)));
        }
        double v = Double.parseDouble(t);
        if (Double.isNaN(v) || Double.isInfinite(v)) Assert.fail("Rat: not a finite number: " + t);
        BigDecimal b = new BigDecimal(v);
        BigInteger u = b.unscaledValue();
        return b.scale() >= 0 ? make(u, BigInteger.TEN.pow(b.scale()))
                : make(u.multiply(BigInteger.TEN.pow(-b.scale())), BigInteger.ONE);
    }

    @TLAPlusOperator(identifier = "RIsNum", module = "Rat", warn = false)
    public static Value rIsNum(final Value a) {
        if (!(a instanceof StringValue)) return BoolValue.ValFalse;
        String t = ((StringValue) a).val.toString();
        if (t.indexOf('/') >= 0) return BoolValue.ValTrue;
        try {
            double v = Double.parseDouble(t);
            return (Double.isNaN(v) || Double.isInfinite(v)) ? BoolValue.ValFalse : BoolValue.ValTrue;
        } catch (NumberFormatException e) {
            return BoolValue.ValFalse;
        }
    }

    /** decimal rendering, for messages only */
    @TLAPlusOperator(identifier = "RStr", module = "Rat", warn = false)
    public static Value rStr(final Value a) {
        R x = get(a);
        BigDecimal b = new BigDecimal(x.n).divide(new BigDecimal(x.d), new MathContext(17));
        return new StringValue(Double.toString(b.doubleValue()));
    }
}
