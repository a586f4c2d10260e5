// TLC operator overrides for module BigNum (same meaning as the TLA+ definitions, which
// spec/BigNumTest.tla compares with these on every run of `run_check.py SELFTEST`).
import java.math.BigInteger;
import tlc2.value.impl.*;

public class BigNum {
    static final int DB = 12;
    static final BigInteger MASK = BigInteger.valueOf(4095);

    static BigInteger in(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        if (t == null) throw new RuntimeException("BigNum: not a digit sequence: " + v);
        int n = t.elems.length;
        // build bytes via long accumulation: 2 digits = 3 bytes
        byte[] b = new byte[(n * 12 + 7) / 8 + 1];
        for (int i = 0; i < n; i++) {
            int d = ((IntValue) t.elems[i]).val;
            if (d < 0 || d > 4095) throw new RuntimeException("BigNum: bad digit " + d);
            int bit = i * 12;
            int k = bit / 8;
            int x = d << (bit % 8);
            b[b.length - 1 - k] |= (byte) x;
            b[b.length - 2 - k] |= (byte) (x >> 8);
            if ((x >> 16) != 0) b[b.length - 3 - k] |= (byte) (x >> 16);
        }
        return new BigInteger(1, b);
    }

    static Value out(BigInteger x) {
        if (x.signum() < 0) throw new RuntimeException("BigNum: negative result");
        int n = (x.bitLength() + 11) / 12;
        Value[] e = new Value[n];
        byte[] b = x.toByteArray();
        int L = b.length;
        for (int i = 0; i < n; i++) {
            int bit = i * 12, k = bit / 8;
            int lo = (k < L ? b[L - 1 - k] & 255 : 0) | ((k + 1 < L ? b[L - 2 - k] & 255 : 0) << 8) | ((k + 2 < L ? b[L - 3 - k] & 255 : 0) << 16);
            e[i] = IntValue.gen((lo >> (bit % 8)) & 4095);
        }
        return new TupleValue(e);
    }

    static int i(Value v) { return ((IntValue) v).val; }

    public static Value Cmp(Value a, Value b) { return IntValue.gen(in(a).compareTo(in(b))); }
    public static Value Add(Value a, Value b) { return out(in(a).add(in(b))); }
    public static Value Sub(Value a, Value b) { return out(in(a).subtract(in(b))); }
    public static Value Mul(Value a, Value b) { return out(in(a).multiply(in(b))); }
    public static Value DivMod(Value a, Value b) {
        BigInteger[] r = in(a).divideAndRemainder(in(b));
        return new TupleValue(new Value[] { out(r[0]), out(r[1]) });
    }
    public static Value Pow2(Value n) { return out(BigInteger.ONE.shiftLeft(i(n))); }
    public static Value Shl(Value a, Value n) { return out(in(a).shiftLeft(i(n))); }
    public static Value Shr(Value a, Value n) { return out(in(a).shiftRight(i(n))); }
    public static Value Low(Value a, Value n) { return out(in(a).and(BigInteger.ONE.shiftLeft(i(n)).subtract(BigInteger.ONE))); }
    public static Value BitLen(Value a) { return IntValue.gen(in(a).bitLength()); }
    public static Value BitAt(Value a, Value n) { return IntValue.gen(in(a).testBit(i(n)) ? 1 : 0); }
    public static Value FromInt(Value n) { return out(BigInteger.valueOf(i(n))); }
    public static Value Limbs(Value ls, Value w) {
        TupleValue t = (TupleValue) ls.toTuple();
        BigInteger r = BigInteger.ZERO;
        int k = i(w);
        for (int j = t.elems.length - 1; j >= 0; j--) r = r.shiftLeft(k).add(in(t.elems[j]));
        return out(r);
    }
    public static Value BytesBE(Value bs) {
        TupleValue t = (TupleValue) bs.toTuple();
        BigInteger r = BigInteger.ZERO;
        for (int j = 0; j < t.elems.length; j++) r = r.shiftLeft(8).add(BigInteger.valueOf(i(t.elems[j])));
        return out(r);
    }
}
