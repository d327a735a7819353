// TLC module override for Rat.tla: exact rational arithmetic on strings "n" or "n/d"
// (always in lowest terms, d > 1), plus the three special values "nan", "inf", "-inf".
// Equal numbers have equal strings, so TLA+ "=" on them is numeric equality.
import java.math.BigInteger;
import java.util.HashMap;
import java.util.Map;
import tlc2.value.impl.*;
import util.UniqueString;

public class Rat {
    static final class Q {
        final BigInteger n, d; final int sp; // sp: 0 finite, 1 +inf, -1 -inf, 2 nan
        Q(BigInteger n, BigInteger d) {
            if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
            BigInteger g = n.gcd(d);
            if (!g.equals(BigInteger.ONE) && g.signum() != 0) { n = n.divide(g); d = d.divide(g); }
            this.n = n; this.d = d; this.sp = 0;
        }
        Q(int sp) { this.sp = sp; n = BigInteger.ZERO; d = BigInteger.ONE; }
        boolean fin() { return sp == 0; }
        double dbl() {
            if (sp == 2) return Double.NaN;
            if (sp == 1) return Double.POSITIVE_INFINITY;
            if (sp == -1) return Double.NEGATIVE_INFINITY;
            return new java.math.BigDecimal(n).divide(new java.math.BigDecimal(d), java.math.MathContext.DECIMAL128).doubleValue();
        }
        public String toString() {
            if (sp == 2) return "nan"; if (sp == 1) return "inf"; if (sp == -1) return "-inf";
            return d.equals(BigInteger.ONE) ? n.toString() : n + "/" + d;
        }
    }
    static final Q NAN = new Q(2), PINF = new Q(1), NINF = new Q(-1), ZERO = new Q(BigInteger.ZERO, BigInteger.ONE);

    static Q parse(String s) {
        if (s.equals("nan")) return NAN;
        if (s.equals("inf")) return PINF;
        if (s.equals("-inf")) return NINF;
        int i = s.indexOf('/');
        if (i >= 0) return new Q(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)));
        int k = s.indexOf('.');
        if (k >= 0) {
            String digits = s.substring(0, k) + s.substring(k + 1);
            return new Q(new BigInteger(digits), BigInteger.TEN.pow(s.length() - k - 1));
        }
        return new Q(new BigInteger(s), BigInteger.ONE);
    }
    static Q of(Value v) {
        if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val), BigInteger.ONE);
        return parse(((StringValue) v).val.toString());
    }
    static Value str(Q q) { return new StringValue(q.toString()); }
    static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
    static Q ofDouble(double x) {
        if (Double.isNaN(x)) return NAN;
        if (Double.isInfinite(x)) return x > 0 ? PINF : NINF;
        java.math.BigDecimal b = new java.math.BigDecimal(x);
        if (b.scale() <= 0) return new Q(b.toBigIntegerExact(), BigInteger.ONE);
        return new Q(b.unscaledValue(), BigInteger.TEN.pow(b.scale()));
    }

    static Q add(Q a, Q b) {
        if (a.fin() && b.fin()) return a.d.equals(b.d) ? new Q(a.n.add(b.n), a.d)
            : new Q(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
        return ofDouble(a.dbl() + b.dbl());
    }
    static Q neg(Q a) { return a.fin() ? new Q(a.n.negate(), a.d) : new Q(a.sp == 2 ? 2 : -a.sp); }
    static Q mul(Q a, Q b) {
        if (a.fin() && b.fin()) return new Q(a.n.multiply(b.n), a.d.multiply(b.d));
        return ofDouble(a.dbl() * b.dbl());
    }
    static Q div(Q a, Q b) {
        if (a.fin() && b.fin()) {
            if (b.n.signum() == 0) return a.n.signum() == 0 ? NAN : (a.n.signum() > 0 ? PINF : NINF);
            return new Q(a.n.multiply(b.d), a.d.multiply(b.n));
        }
        return ofDouble(a.dbl() / b.dbl());
    }
    // comparison of non-nan values
    static int cmp(Q a, Q b) {
        if (a.fin() && b.fin()) return a.n.multiply(b.d).compareTo(b.n.multiply(a.d));
        return Double.compare(a.dbl(), b.dbl());
    }
    static boolean isnan(Q a) { return a.sp == 2; }

    public static Value RAdd(Value a, Value b) { return str(add(of(a), of(b))); }
    public static Value RSub(Value a, Value b) { return str(add(of(a), neg(of(b)))); }
    public static Value RMul(Value a, Value b) { return str(mul(of(a), of(b))); }
    public static Value RDiv(Value a, Value b) { return str(div(of(a), of(b))); }
    public static Value RNeg(Value a) { return str(neg(of(a))); }
    public static Value RInt(Value a) { return str(of(a)); }
    public static Value RAbs(Value a) { Q q = of(a); return str(q.fin() ? new Q(q.n.abs(), q.d) : (q.sp == 2 ? NAN : PINF)); }
    public static Value RLt(Value a, Value b) { Q x = of(a), y = of(b); return bool(!isnan(x) && !isnan(y) && cmp(x, y) < 0); }
    public static Value RLe(Value a, Value b) { Q x = of(a), y = of(b); return bool(!isnan(x) && !isnan(y) && cmp(x, y) <= 0); }
    public static Value REq(Value a, Value b) { Q x = of(a), y = of(b); return bool(!isnan(x) && !isnan(y) && cmp(x, y) == 0); }
    public static Value RFinite(Value a) { return bool(of(a).fin()); }
    public static Value RIsNan(Value a) { return bool(isnan(of(a))); }
    public static Value RFloor(Value a) {
        Q q = of(a); BigInteger[] qr = q.n.divideAndRemainder(q.d);
        BigInteger f = qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0];
        return IntValue.gen(f.intValueExact());
    }
    public static Value RFloorR(Value a) {
        Q q = of(a); BigInteger[] qr = q.n.divideAndRemainder(q.d);
        BigInteger f = qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0];
        return str(new Q(f, BigInteger.ONE));
    }
    // a and b agree up to max(abs, rel*max(|a|,|b|)); nan agrees with nan, inf with the same inf.
    public static Value RClose(Value a, Value b, Value rel, Value abs) {
        Q x = of(a), y = of(b);
        if (!x.fin() || !y.fin()) return bool(x.sp == y.sp);
        Q diff = add(x, neg(y)); diff = new Q(diff.n.abs(), diff.d);
        Q ax = new Q(x.n.abs(), x.d), ay = new Q(y.n.abs(), y.d);
        Q m = cmp(ax, ay) >= 0 ? ax : ay;
        Q t = mul(of(rel), m), u = of(abs);
        return bool(cmp(diff, cmp(t, u) >= 0 ? t : u) <= 0);
    }
    // real power, through IEEE doubles (the one operation that leaves the rationals)
    public static Value RPow(Value a, Value b) {
        Q x = of(a), y = of(b);
        if (x.fin() && y.fin() && y.d.equals(BigInteger.ONE) && y.n.bitLength() < 6 && (y.n.signum() >= 0)) {
            int e = y.n.intValue();
            return str(new Q(x.n.pow(e), x.d.pow(e)));
        }
        return str(ofDouble(Math.pow(x.dbl(), y.dbl())));
    }
    public static Value RSqrt(Value a) { return str(ofDouble(Math.sqrt(of(a).dbl()))); }
    public static Value RToStr(Value a) { return new StringValue(Double.toString(of(a).dbl())); }
    public static Value Lower(Value a) { return new StringValue(((StringValue) a).val.toString().toLowerCase()); }
    public static Value RSum(Value s) {
        TupleValue t = (TupleValue) s.toTuple(); Q acc = ZERO;
        for (Value v : t.elems) acc = add(acc, of(v));
        return str(acc);
    }
}
