import java.math.BigInteger;
import java.util.ArrayList;
import tlc2.value.impl.*;

/**
 * Evaluates the operators of Num.tla exactly on rationals, which the
 * specifications write as strings "p" or "p/q" (and as ordinary integers).
 * "nan" stands for every non-finite number: it propagates through arithmetic
 * and every comparison with it is false.  On integers that fit, the operators
 * agree with their TLA+ definitions and return integers.
 */
public class Num {
    private static final class Q {
        final BigInteger p, q; // q = 0: nan
        Q(BigInteger p, BigInteger q) {
            if (q.signum() == 0) { this.p = BigInteger.ZERO; this.q = BigInteger.ZERO; return; }
            BigInteger g = p.gcd(q);
            if (q.signum() < 0) g = g.negate();
            if (!g.equals(BigInteger.ONE)) { p = p.divide(g); q = q.divide(g); }
            this.p = p; this.q = q;
        }
        boolean nan() { return q.signum() == 0; }
        Q add(Q o) { if (nan() || o.nan()) return NAN; return new Q(p.multiply(o.q).add(o.p.multiply(q)), q.multiply(o.q)); }
        Q neg() { return nan() ? NAN : new Q(p.negate(), q); }
        Q mul(Q o) { if (nan() || o.nan()) return NAN; return new Q(p.multiply(o.p), q.multiply(o.q)); }
        Q div(Q o) { if (nan() || o.nan() || o.p.signum() == 0) return NAN; return new Q(p.multiply(o.q), q.multiply(o.p)); }
        int cmp(Q o) { return p.multiply(o.q).compareTo(o.p.multiply(q)); }
    }
    private static final Q NAN = new Q(BigInteger.ZERO, BigInteger.ZERO);
    private static final BigInteger LIM = BigInteger.valueOf(Integer.MAX_VALUE);

    private static Q q(Value v) {
        if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val), BigInteger.ONE);
        if (v instanceof StringValue) {
            String s = ((StringValue) v).val.toString();
            if (s.equals("nan")) return NAN;
            int i = s.indexOf('/');
            if (i < 0) return new Q(new BigInteger(s), BigInteger.ONE);
            return new Q(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)));
        }
        throw new RuntimeException("Num: not a number: " + v);
    }
    private static Value v(Q x) {
        if (x.nan()) return new StringValue("nan");
        if (x.q.equals(BigInteger.ONE)) {
            if (x.p.abs().compareTo(LIM) < 0) return IntValue.gen(x.p.intValue());
            return new StringValue(x.p.toString());
        }
        return new StringValue(x.p + "/" + x.q);
    }
    private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    private static Q[] seq(Value s) {
        TupleValue t = (TupleValue) s.toTuple();
        Q[] r = new Q[t.elems.length];
        for (int i = 0; i < r.length; i++) r[i] = q(t.elems[i]);
        return r;
    }
    private static Q poly(Q[] c, Q x) {
        Q r = new Q(BigInteger.ZERO, BigInteger.ONE);
        for (int i = c.length - 1; i >= 0; i--) r = r.mul(x).add(c[i]);
        return r;
    }

    public static Value NAdd(Value a, Value c) { return v(q(a).add(q(c))); }
    public static Value NSub(Value a, Value c) { return v(q(a).add(q(c).neg())); }
    public static Value NMul(Value a, Value c) { return v(q(a).mul(q(c))); }
    public static Value NDiv(Value a, Value c) { return v(q(a).div(q(c))); }
    public static Value NNeg(Value a) { return v(q(a).neg()); }
    public static Value NAbs(Value a) { Q x = q(a); return v(x.p.signum() < 0 ? x.neg() : x); }
    public static Value NLe(Value a, Value c) { Q x = q(a), y = q(c); return b(!x.nan() && !y.nan() && x.cmp(y) <= 0); }
    public static Value NLt(Value a, Value c) { Q x = q(a), y = q(c); return b(!x.nan() && !y.nan() && x.cmp(y) < 0); }
    public static Value NEq(Value a, Value c) { Q x = q(a), y = q(c); return b(!x.nan() && !y.nan() && x.cmp(y) == 0); }
    public static Value NSum(Value s) {
        Q r = new Q(BigInteger.ZERO, BigInteger.ONE);
        for (Q x : seq(s)) r = r.add(x);
        return v(r);
    }
    public static Value NPoly(Value c, Value x) { return v(poly(seq(c), q(x))); }
    public static Value NSqrt(Value a) {
        Q x = q(a);
        if (x.nan() || x.p.signum() < 0) return new StringValue("nan");
        java.math.MathContext mc = new java.math.MathContext(40);
        java.math.BigDecimal r = new java.math.BigDecimal(x.p).divide(new java.math.BigDecimal(x.q), new java.math.MathContext(60)).sqrt(mc);
        BigInteger n = r.unscaledValue();
        return v(r.scale() >= 0 ? new Q(n, BigInteger.TEN.pow(r.scale()))
                                : new Q(n.multiply(BigInteger.TEN.pow(-r.scale())), BigInteger.ONE));
    }
    public static Value NIsNum(Value a) { return b(!q(a).nan()); }
}
