package tlc2.module;

import static tlc2.module.Fx.SCALE;
import static tlc2.module.Fx.floor;
import static tlc2.module.Fx.in;
import static tlc2.module.Fx.out;

import java.math.BigInteger;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** The (+) operators of spec/FxMath.tla, step for step, on BigIntegers; same results, only faster. */
public class FxMath {
    public static final long serialVersionUID = 20261118L;
    private static final BigInteger ONE = SCALE;
    private static final BigInteger PI = new BigInteger("3141592653589793238462643");
    private static final BigInteger LN2 = new BigInteger("693147180559945309417232");
    private static final BigInteger HALF_PI = div(PI, i(2));
    private static final BigInteger TWO_OVER_PI = div(i(2), PI);
    private static final BigInteger HALF = div(ONE, i(2));
    private static final BigInteger[] SIN = new BigInteger[10], COS = new BigInteger[10],
            ATAN = new BigInteger[8], EXP = new BigInteger[16], LN = new BigInteger[14];
    static {
        for (int j = 1; j <= 10; j++) {
            int k = 10 - j;
            SIN[j - 1] = div(i(k % 2 == 0 ? 1 : -1), fact(2 * k + 1));
            COS[j - 1] = div(i(k % 2 == 0 ? 1 : -1), fact(2 * k));
        }
        for (int j = 1; j <= 8; j++) ATAN[j - 1] = div(i((8 - j) % 2 == 0 ? 1 : -1), i(2 * (8 - j) + 1));
        for (int j = 1; j <= 16; j++) EXP[j - 1] = div(ONE, fact(16 - j));
        for (int j = 1; j <= 14; j++) LN[j - 1] = div(i(2), i(2 * (14 - j) + 1));
    }

    private static BigInteger i(long n) { return BigInteger.valueOf(n).multiply(SCALE); }
    private static BigInteger mul(BigInteger a, BigInteger b) { return a.multiply(b).divide(SCALE); }
    private static BigInteger div(BigInteger a, BigInteger b) { return a.multiply(SCALE).divide(b); }
    private static BigInteger fact(int n) { BigInteger r = ONE; for (int k = 1; k <= n; k++) r = mul(i(k), r); return r; }
    private static BigInteger horner(BigInteger[] c, BigInteger x) {
        BigInteger acc = BigInteger.ZERO;
        for (BigInteger e : c) acc = e.add(mul(acc, x));
        return acc;
    }
    private static BigInteger sqrt(BigInteger b) { return b.signum() <= 0 ? BigInteger.ZERO : b.multiply(SCALE).sqrt(); }

    public static Value Horner(final Value cs, final Value x) {
        Value[] e = ((TupleValue) (cs instanceof TupleValue ? cs : cs.toTuple())).elems;
        BigInteger b = in(x), acc = BigInteger.ZERO;
        for (Value v : e) acc = in(v).add(mul(acc, b));
        return out(acc);
    }

    public static Value SinQ(final Value xv, final Value q0) {
        BigInteger x = in(xv);
        BigInteger fq = floor(mul(x, TWO_OVER_PI).add(HALF));
        BigInteger r = x.subtract(mul(fq.multiply(SCALE), HALF_PI));
        int q = Math.floorMod(fq.intValueExact() + ((IntValue) q0).val, 4);
        BigInteger r2 = mul(r, r);
        BigInteger v = q % 2 == 0 ? mul(r, horner(SIN, r2)) : horner(COS, r2);
        return out(q < 2 ? v : v.negate());
    }

    private static BigInteger halfT(BigInteger t) { return div(t, ONE.add(sqrt(ONE.add(mul(t, t))))); }
    public static Value AtanUnit(final Value tv) {
        BigInteger h = halfT(halfT(halfT(halfT(in(tv)))));
        return out(mul(i(16), mul(h, horner(ATAN, mul(h, h)))));
    }

    public static Value ExpUnit(final Value r) { return out(horner(EXP, in(r))); }
    public static Value LnUnit(final Value mv) {
        BigInteger m = in(mv), s = div(m.subtract(ONE), m.add(ONE));
        return out(mul(s, horner(LN, mul(s, s))));
    }
    public static Value TwoTo(final Value n) {
        int k = ((IntValue) n).val;
        BigInteger r = ONE;
        for (; k > 0; k--) r = mul(i(2), r);
        for (; k < 0; k++) r = div(r, i(2));
        return out(r);
    }
}
