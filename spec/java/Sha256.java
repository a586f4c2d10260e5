// TLC override of Sha256d (same meaning as the TLA+ definition, which spec/Sha256Test.tla compares
// with this on every run of a check that uses it).
import java.security.MessageDigest;
import tlc2.value.impl.*;

public class Sha256 {
    public static Value Sha256d(Value bytes) throws Exception {
        TupleValue t = (TupleValue) bytes.toTuple();
        byte[] b = new byte[t.elems.length];
        for (int i = 0; i < b.length; i++) b[i] = (byte) ((IntValue) t.elems[i]).val;
        MessageDigest d = MessageDigest.getInstance("SHA-256");
        byte[] h = d.digest(d.digest(b));
        Value[] e = new Value[h.length];
        for (int i = 0; i < h.length; i++) e[i] = IntValue.gen(h[i] & 255);
        return new TupleValue(e);
    }
}
