import java.math.BigInteger;
import tlc2.value.impl.*;
import util.UniqueString;

/**
 * TLC override of the heavier operators of RMat.tla, whose definitions in TLA+ are kept there
 * and, for comparison, in RMatDef.tla (see SelfTest.tla).
 */
public class RMat {
    static BigInteger[] add(BigInteger[] a, BigInteger[] b) {
        return BigRat.norm(a[0].multiply(b[1]).add(b[0].multiply(a[1])), a[1].multiply(b[1]));
    }

    static BigInteger[] sub(BigInteger[] a, BigInteger[] b) {
        return BigRat.norm(a[0].multiply(b[1]).subtract(b[0].multiply(a[1])), a[1].multiply(b[1]));
    }

    static BigInteger[] mul(BigInteger[] a, BigInteger[] b) {
        return BigRat.norm(a[0].multiply(b[0]), a[1].multiply(b[1]));
    }

    static BigInteger[] div(BigInteger[] a, BigInteger[] b) {
        return BigRat.norm(a[0].multiply(b[1]), a[1].multiply(b[0]));
    }

    static final BigInteger[] NIL = {BigInteger.ZERO, BigInteger.ONE};
    static final BigInteger[] UNIT = {BigInteger.ONE, BigInteger.ONE};

    static TupleValue tuple(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        if (t == null) {
            throw new RuntimeException("RMat: not a matrix");
        }
        return t;
    }

    static BigInteger[][][] parse(Value v) {
        Value[] rows = tuple(v).elems;
        BigInteger[][][] a = new BigInteger[rows.length][][];
        for (int i = 0; i < rows.length; i++) {
            Value[] row = tuple(rows[i]).elems;
            a[i] = new BigInteger[row.length][];
            for (int j = 0; j < row.length; j++) {
                a[i][j] = BigRat.parse(row[j]);
            }
        }
        return a;
    }

    static Value make(BigInteger[][][] a) {
        Value[] rows = new Value[a.length];
        for (int i = 0; i < a.length; i++) {
            Value[] row = new Value[a[i].length];
            for (int j = 0; j < a[i].length; j++) {
                row[j] = BigRat.make(a[i][j][0], a[i][j][1]);
            }
            rows[i] = new TupleValue(row);
        }
        return new TupleValue(rows);
    }

    interface Op {
        BigInteger[] of(BigInteger[] x, BigInteger[] y);
    }

    static Value zip(Value x, Value y, Op f) {
        BigInteger[][][] a = parse(x), b = parse(y);
        BigInteger[][][] c = new BigInteger[a.length][][];
        for (int i = 0; i < a.length; i++) {
            c[i] = new BigInteger[a[i].length][];
            for (int j = 0; j < a[i].length; j++) {
                c[i][j] = f.of(a[i][j], b[i][j]);
            }
        }
        return make(c);
    }

    public static Value MPlus(Value x, Value y) {
        return zip(x, y, RMat::add);
    }

    public static Value MMinus(Value x, Value y) {
        return zip(x, y, RMat::sub);
    }

    public static Value MScale(Value x, Value k) {
        BigInteger[] c = BigRat.parse(k);
        return zip(x, x, (a, b) -> mul(c, a));
    }

    public static Value MTimes(Value x, Value y) {
        BigInteger[][][] a = parse(x), b = parse(y);
        int m = b.length == 0 ? 0 : b[0].length;
        BigInteger[][][] c = new BigInteger[a.length][m][];
        for (int i = 0; i < a.length; i++) {
            for (int j = 0; j < m; j++) {
                BigInteger[] s = NIL;
                for (int k = 0; k < a[i].length; k++) {
                    s = add(s, mul(a[i][k], b[k][j]));
                }
                c[i][j] = s;
            }
        }
        return make(c);
    }

    public static Value MDot(Value x, Value y) {
        BigInteger[][][] a = parse(x), b = parse(y);
        BigInteger[] s = NIL;
        for (int i = 0; i < a.length; i++) {
            for (int j = 0; j < a[i].length; j++) {
                s = add(s, mul(a[i][j], b[i][j]));
            }
        }
        return BigRat.make(s[0], s[1]);
    }

    public static Value MSolve(Value x, Value y) {
        BigInteger[][][] a = parse(x), b = parse(y);
        int n = a.length;
        for (int k = 0; k < n; k++) {
            BigInteger[] p = a[k][k];
            for (int j = 0; j < n; j++) {
                a[k][j] = div(a[k][j], p);
            }
            for (int j = 0; j < b[k].length; j++) {
                b[k][j] = div(b[k][j], p);
            }
            for (int i = 0; i < n; i++) {
                if (i != k) {
                    BigInteger[] f = a[i][k];
                    for (int j = 0; j < n; j++) {
                        a[i][j] = sub(a[i][j], mul(f, a[k][j]));
                    }
                    for (int j = 0; j < b[i].length; j++) {
                        b[i][j] = sub(b[i][j], mul(f, b[k][j]));
                    }
                }
            }
        }
        return make(b);
    }

    public static Value MDet(Value x) {
        BigInteger[][][] a = parse(x);
        int n = a.length;
        BigInteger[] d = UNIT;
        for (int k = 0; k < n; k++) {
            BigInteger[] p = a[k][k];
            if (p[0].signum() == 0) {
                if (k + 1 == n) {
                    return BigRat.make(BigInteger.ZERO, BigInteger.ONE);
                }
                throw new RuntimeException("RMat: division by zero");
            }
            d = mul(d, p);
            for (int i = k + 1; i < n; i++) {
                BigInteger[] f = div(a[i][k], p);
                for (int j = k; j < n; j++) {
                    a[i][j] = sub(a[i][j], mul(f, a[k][j]));
                }
            }
        }
        return BigRat.make(d[0], d[1]);
    }
}
