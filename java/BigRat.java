import java.math.BigInteger;
import tlc2.value.impl.*;
import util.UniqueString;

/**
 * TLC override of the operators of BigRat.tla: exact rational arithmetic without a bound
 * on the numerator and denominator. A rational is the TLA+ string "n" or "n/d" in lowest
 * terms with d > 1, so two rationals are equal iff the strings are equal.
 *
 * TLC finds this class by the name of the module. selftest.tla compares every operator
 * to the definition in plain TLA+ (RatDef.tla).
 */
public class BigRat {
    static final BigInteger ONE = BigInteger.ONE;
    static final BigInteger ZERO = BigInteger.ZERO;

    static BigInteger[] parse(Value v) {
        if (v instanceof IntValue) {
            return new BigInteger[] {BigInteger.valueOf(((IntValue) v).val), ONE};
        }
        String s = ((StringValue) v).val.toString();
        int i = s.indexOf('/');
        if (i < 0) {
            return new BigInteger[] {new BigInteger(s), ONE};
        }
        BigInteger n = new BigInteger(s.substring(0, i));
        BigInteger d = new BigInteger(s.substring(i + 1));
        return norm(n, d);
    }

    static BigInteger[] norm(BigInteger n, BigInteger d) {
        if (d.signum() == 0) {
            throw new RuntimeException("BigRat: division by zero");
        }
        if (d.signum() < 0) {
            n = n.negate();
            d = d.negate();
        }
        BigInteger g = n.gcd(d);
        if (!g.equals(ONE) && g.signum() != 0) {
            n = n.divide(g);
            d = d.divide(g);
        }
        return new BigInteger[] {n, d};
    }

    static Value make(BigInteger n, BigInteger d) {
        BigInteger[] q = norm(n, d);
        String s = q[1].equals(ONE) ? q[0].toString() : q[0] + "/" + q[1];
        return new StringValue(UniqueString.uniqueStringOf(s));
    }

    public static Value RInt(Value n) {
        BigInteger[] a = parse(n);
        return make(a[0], a[1]);
    }

    public static Value RFrac(Value n, Value m) {
        BigInteger[] a = parse(n), b = parse(m);
        return make(a[0].multiply(b[1]), a[1].multiply(b[0]));
    }

    public static Value RAdd(Value x, Value y) {
        BigInteger[] a = parse(x), b = parse(y);
        return make(a[0].multiply(b[1]).add(b[0].multiply(a[1])), a[1].multiply(b[1]));
    }

    public static Value RSub(Value x, Value y) {
        BigInteger[] a = parse(x), b = parse(y);
        return make(a[0].multiply(b[1]).subtract(b[0].multiply(a[1])), a[1].multiply(b[1]));
    }

    public static Value RMul(Value x, Value y) {
        BigInteger[] a = parse(x), b = parse(y);
        return make(a[0].multiply(b[0]), a[1].multiply(b[1]));
    }

    public static Value RDiv(Value x, Value y) {
        BigInteger[] a = parse(x), b = parse(y);
        return make(a[0].multiply(b[1]), a[1].multiply(b[0]));
    }

    public static Value RNeg(Value x) {
        BigInteger[] a = parse(x);
        return make(a[0].negate(), a[1]);
    }

    public static Value RLt(Value x, Value y) {
        BigInteger[] a = parse(x), b = parse(y);
        return a[0].multiply(b[1]).compareTo(b[0].multiply(a[1])) < 0
            ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    public static Value RSign(Value x) {
        return IntValue.gen(parse(x)[0].signum());
    }

    public static Value RCeil(Value x) {
        BigInteger[] a = parse(x);
        BigInteger[] q = a[0].divideAndRemainder(a[1]);
        BigInteger r = q[1].signum() > 0 ? q[0].add(ONE) : q[0];
        return IntValue.gen(r.intValueExact());
    }

    public static Value RFloor(Value x) {
        BigInteger[] a = parse(x);
        BigInteger[] q = a[0].divideAndRemainder(a[1]);
        BigInteger r = q[1].signum() < 0 ? q[0].subtract(ONE) : q[0];
        return IntValue.gen(r.intValueExact());
    }

    /** The largest multiple of 2^-bits that is not above a. */
    public static Value RRound(Value x, Value bits) {
        BigInteger[] a = parse(x);
        BigInteger p = ONE.shiftLeft(((IntValue) bits).val);
        BigInteger[] qr = a[0].multiply(p).divideAndRemainder(a[1]);
        BigInteger q = qr[1].signum() < 0 ? qr[0].subtract(ONE) : qr[0];
        return make(q, p);
    }

    /** Appends a line to a file, one writer at a time, and is TRUE. */
    public static Value WriteLine(Value line, Value file) throws java.io.IOException {
        byte[] b = (((StringValue) line).val.toString() + "\n")
                .getBytes(java.nio.charset.StandardCharsets.UTF_8);
        synchronized (BigRat.class) {
            try (java.io.FileOutputStream f = new java.io.FileOutputStream(
                    ((StringValue) file).val.toString(), true)) {
                f.write(b);
            }
        }
        return BoolValue.ValTrue;
    }
}
