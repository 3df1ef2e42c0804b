package tlc2.module;

import java.math.BigInteger;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** BigInteger versions of the (+) operators of spec/Fx.tla; same results, only faster. */
public class Fx {
    public static final long serialVersionUID = 20261118L;
    private static final BigInteger B16 = BigInteger.TEN.pow(16);
    static final BigInteger SCALE = BigInteger.TEN.pow(24);
    private static final BigInteger[] P10 = new BigInteger[64];
    private static final TupleValue ZERO = new TupleValue(new Value[] { IntValue.gen(0) });
    private static final IntValue[] SMALL = new IntValue[10000];
    static {
        for (int k = 0; k < P10.length; k++) P10[k] = BigInteger.TEN.pow(k);
        for (int k = 0; k < SMALL.length; k++) SMALL[k] = IntValue.gen(k);
    }

    static BigInteger in(final Value v) {
        final TupleValue t = (TupleValue) (v instanceof TupleValue ? v : v.toTuple());
        final Value[] e = t.elems;
        final int s = ((IntValue) e[0]).val;
        if (s == 0) return BigInteger.ZERO;
        int k = e.length - 1;
        BigInteger r = null;
        // leading chunk takes (k mod 4) limbs, all others four limbs
        while (k >= 1) {
            int n = k % 4 == 0 ? 4 : k % 4;
            long c = 0;
            for (int j = 0; j < n; j++) c = c * 10000L + ((IntValue) e[k--]).val;
            r = r == null ? BigInteger.valueOf(c) : r.multiply(B16).add(BigInteger.valueOf(c));
        }
        return s < 0 ? r.negate() : r;
    }

    static Value out(final BigInteger x) {
        int s = x.signum();
        if (s == 0) return ZERO;
        BigInteger m = x.abs();
        final Value[] buf = new Value[4 * (m.bitLength() / 53 + 2) + 1];
        int n = 0;
        buf[n++] = IntValue.gen(s);
        while (m.bitLength() > 62) {
            BigInteger[] qr = m.divideAndRemainder(B16);
            long c = qr[1].longValue();
            for (int j = 0; j < 4; j++) { buf[n++] = SMALL[(int) (c % 10000L)]; c /= 10000L; }
            m = qr[0];
        }
        long c = m.longValue();
        while (c != 0) { buf[n++] = SMALL[(int) (c % 10000L)]; c /= 10000L; }
        return new TupleValue(java.util.Arrays.copyOf(buf, n));
    }

    public static Value FNeg(final Value x) { return out(in(x).negate()); }
    public static Value FAbs(final Value x) { return out(in(x).abs()); }
    public static Value Add(final Value x, final Value y) { return out(in(x).add(in(y))); }
    public static Value Sub(final Value x, final Value y) { return out(in(x).subtract(in(y))); }
    public static Value Mul(final Value x, final Value y) { return out(in(x).multiply(in(y)).divide(SCALE)); }
    public static Value Div(final Value x, final Value y) { return out(in(x).multiply(SCALE).divide(in(y))); }
    public static Value Cmp(final Value x, final Value y) { return IntValue.gen(in(x).compareTo(in(y))); }
    public static Value I(final Value n) { return out(BigInteger.valueOf(((IntValue) n).val).multiply(SCALE)); }

    public static Value Dec(final Value sg, final Value hi, final Value lo, final Value e) {
        BigInteger m = BigInteger.valueOf(((IntValue) hi).val * 1000000000L + ((IntValue) lo).val)
                .multiply(P10[24 - ((IntValue) e).val]);
        return out(((IntValue) sg).val < 0 ? m.negate() : m);
    }

    static BigInteger floor(final BigInteger x) {
        BigInteger[] qr = x.divideAndRemainder(SCALE);
        return qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0];
    }
    public static Value FloorInt(final Value x) { return IntValue.gen(floor(in(x)).intValueExact()); }
    public static Value Floor(final Value x) { return out(floor(in(x)).multiply(SCALE)); }

    public static Value Sqrt(final Value x) {
        BigInteger b = in(x);
        return b.signum() <= 0 ? ZERO : out(b.multiply(SCALE).sqrt());
    }
}
