import java.math.BigInteger;
import java.math.BigDecimal;
import tlc2.value.impl.*;

/** TLC module override for BigRat.tla: exact rationals as canonical strings. */
public class BigRat {
    /** d == 0 encodes "nan", which is absorbing. */
    private static final class Q {
        final BigInteger n, d;
        Q(BigInteger n, BigInteger d) { this.n = n; this.d = d; }
        boolean nan() { return d.signum() == 0; }
    }
    private static final BigInteger ONE = BigInteger.ONE, ZERO = BigInteger.ZERO;
    private static final Q NAN = new Q(ZERO, ZERO), Q0 = new Q(ZERO, ONE), Q1 = new Q(ONE, ONE);

    private static Q norm(BigInteger n, BigInteger d) {
        if (d.signum() == 0) return NAN;
        if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
        if (!d.equals(ONE)) {
            BigInteger g = n.gcd(d);
            if (!g.equals(ONE)) { n = n.divide(g); d = d.divide(g); }
        }
        return new Q(n, d);
    }
    private static Q parse(Value v) {
        if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val), ONE);
        String s = ((StringValue) v).val.toString();
        if (s.equals("nan")) return NAN;
        int k = s.indexOf('/');
        if (k < 0) return new Q(new BigInteger(s), ONE);
        return norm(new BigInteger(s.substring(0, k)), new BigInteger(s.substring(k + 1)));
    }
    private static Value out(Q q) {
        if (q.nan()) return new StringValue("nan");
        return new StringValue(q.d.equals(ONE) ? q.n.toString() : q.n + "/" + q.d);
    }
    private static Q add(Q a, Q b) {
        if (a.nan() || b.nan()) return NAN;
        if (a.d.equals(b.d)) return norm(a.n.add(b.n), a.d);
        return norm(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
    }
    private static Q neg(Q a) { return new Q(a.n.negate(), a.d); }
    private static Q sub(Q a, Q b) { return add(a, neg(b)); }
    private static Q abs(Q a) { return new Q(a.n.abs(), a.d); }
    private static Q mul(Q a, Q b) {
        if (a.nan() || b.nan()) return NAN;
        return norm(a.n.multiply(b.n), a.d.multiply(b.d));
    }
    private static Q div(Q a, Q b) {
        if (a.nan() || b.nan()) return NAN;
        return norm(a.n.multiply(b.d), a.d.multiply(b.n));
    }
    private static int cmp(Q a, Q b) { return a.n.multiply(b.d).compareTo(b.n.multiply(a.d)); }
    private static boolean le(Q a, Q b) { return !a.nan() && !b.nan() && cmp(a, b) <= 0; }
    private static double dbl(Q q) {
        if (q.nan()) return Double.NaN;
        return new BigDecimal(q.n).divide(new BigDecimal(q.d), java.math.MathContext.DECIMAL128).doubleValue();
    }
    private static Q fromDouble(double x) {
        if (Double.isNaN(x) || Double.isInfinite(x)) return NAN;
        BigDecimal b = new BigDecimal(x);
        if (b.scale() <= 0) return new Q(b.toBigIntegerExact(), ONE);
        return norm(b.unscaledValue(), BigInteger.TEN.pow(b.scale()));
    }
    private static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
    private static Value[] seq(Value v) { return ((TupleValue) v.toTuple()).elems; }

    public static Value RInt(Value a) { return out(parse(a)); }
    public static Value RAdd(Value a, Value b) { return out(add(parse(a), parse(b))); }
    public static Value RSub(Value a, Value b) { return out(sub(parse(a), parse(b))); }
    public static Value RMul(Value a, Value b) { return out(mul(parse(a), parse(b))); }
    public static Value RDiv(Value a, Value b) { return out(div(parse(a), parse(b))); }
    public static Value RNeg(Value a) { return out(neg(parse(a))); }
    public static Value RAbs(Value a) { return out(abs(parse(a))); }
    public static Value RLe(Value a, Value b) { return bool(le(parse(a), parse(b))); }
    public static Value RLt(Value a, Value b) {
        Q x = parse(a), y = parse(b);
        return bool(!x.nan() && !y.nan() && cmp(x, y) < 0);
    }
    public static Value REq(Value a, Value b) {
        Q x = parse(a), y = parse(b);
        return bool(!x.nan() && !y.nan() && cmp(x, y) == 0);
    }
    public static Value RSign(Value a) { return IntValue.gen(parse(a).n.signum()); }
    public static Value RSumSeq(Value s) {
        Q r = Q0;
        for (Value v : seq(s)) r = add(r, parse(v));
        return out(r);
    }
    public static Value RProdSeq(Value s) {
        Q r = Q1;
        for (Value v : seq(s)) r = mul(r, parse(v));
        return out(r);
    }
    public static Value RMax(Value s) {
        Q r = null;
        for (Value v : seq(s)) {
            Q x = parse(v);
            if (x.nan()) return out(NAN);
            if (r == null || cmp(x, r) > 0) r = x;
        }
        return out(r == null ? NAN : r);
    }
    public static Value RDot(Value s, Value t) {
        Value[] a = seq(s), b = seq(t);
        if (a.length != b.length) return out(NAN);
        Q r = Q0;
        for (int i = 0; i < a.length; i++) r = add(r, mul(parse(a[i]), parse(b[i])));
        return out(r);
    }
    public static Value RClose(Value a, Value b, Value tol) {
        Q x = parse(a), y = parse(b);
        return bool(le(abs(sub(x, y)), mul(parse(tol), add(Q1, add(abs(x), abs(y))))));
    }
    public static Value RExp(Value a) { return out(fromDouble(Math.exp(dbl(parse(a))))); }
    public static Value RSqrt(Value a) { return out(fromDouble(Math.sqrt(dbl(parse(a))))); }
    public static Value RLog(Value a) { return out(fromDouble(Math.log(dbl(parse(a))))); }
    private static Q trunc(Q x, int k) {
        if (x.nan()) return NAN;
        BigInteger s = ONE.shiftLeft(k);
        BigInteger[] qr = x.n.multiply(s).add(x.d.shiftRight(1)).divideAndRemainder(x.d);
        BigInteger f = qr[1].signum() < 0 ? qr[0].subtract(ONE) : qr[0];
        return norm(f, s);
    }
    public static Value RTrunc(Value a, Value k) { return out(trunc(parse(a), ((IntValue) k).val)); }
    public static Value RFloor(Value a) {
        Q x = parse(a);
        if (x.nan()) return IntValue.gen(0);
        BigInteger[] qr = x.n.divideAndRemainder(x.d);
        return IntValue.gen((qr[1].signum() < 0 ? qr[0].subtract(ONE) : qr[0]).intValueExact());
    }

    // ---- complex ----
    private static final class C {
        final Q r, i;
        C(Q r, Q i) { this.r = r; this.i = i; }
    }
    private static final C C0 = new C(Q0, Q0), C1 = new C(Q1, Q0);
    private static C cparse(Value v) {
        Value[] p = seq(v);
        return new C(parse(p[0]), parse(p[1]));
    }
    private static Value cout(C c) { return new TupleValue(new Value[] {out(c.r), out(c.i)}); }
    private static C cadd(C a, C b) { return new C(add(a.r, b.r), add(a.i, b.i)); }
    private static C csub(C a, C b) { return new C(sub(a.r, b.r), sub(a.i, b.i)); }
    private static C cmul(C a, C b) {
        if (a.i.n.signum() == 0 && b.i.n.signum() == 0 && !a.i.nan() && !b.i.nan())
            return new C(mul(a.r, b.r), Q0);
        return new C(sub(mul(a.r, b.r), mul(a.i, b.i)), add(mul(a.r, b.i), mul(a.i, b.r)));
    }
    private static Q abs2(C a) { return add(mul(a.r, a.r), mul(a.i, a.i)); }
    private static C cdiv(C a, C b) {
        Q d = abs2(b);
        C t = cmul(a, new C(b.r, neg(b.i)));
        return new C(div(t.r, d), div(t.i, d));
    }
    private static Q l1(C a) { return add(abs(a.r), abs(a.i)); }
    private static boolean czero(C a) { return a.r.n.signum() == 0 && a.i.n.signum() == 0 && !a.r.nan() && !a.i.nan(); }

    public static Value CAdd(Value a, Value b) { return cout(cadd(cparse(a), cparse(b))); }
    public static Value CSub(Value a, Value b) { return cout(csub(cparse(a), cparse(b))); }
    public static Value CMul(Value a, Value b) { return cout(cmul(cparse(a), cparse(b))); }
    public static Value CDiv(Value a, Value b) { return cout(cdiv(cparse(a), cparse(b))); }
    public static Value CConj(Value a) { C x = cparse(a); return cout(new C(x.r, neg(x.i))); }
    public static Value CScale(Value r, Value a) {
        Q s = parse(r); C x = cparse(a);
        return cout(new C(mul(s, x.r), mul(s, x.i)));
    }
    public static Value CAbs2(Value a) { return out(abs2(cparse(a))); }
    public static Value CSumSeq(Value s) {
        C r = C0;
        for (Value v : seq(s)) r = cadd(r, cparse(v));
        return cout(r);
    }
    public static Value CProdSeq(Value s) {
        C r = C1;
        for (Value v : seq(s)) r = cmul(r, cparse(v));
        return cout(r);
    }
    public static Value CDot(Value s, Value t) {
        Value[] a = seq(s), b = seq(t);
        if (a.length != b.length) return cout(new C(NAN, NAN));
        C r = C0;
        for (int i = 0; i < a.length; i++) r = cadd(r, cmul(cparse(a[i]), cparse(b[i])));
        return cout(r);
    }
    public static Value CExp(Value a) {
        C x = cparse(a);
        double m = Math.exp(dbl(x.r)), p = dbl(x.i);
        return cout(new C(fromDouble(m * Math.cos(p)), fromDouble(m * Math.sin(p))));
    }
    public static Value CClose(Value a, Value b, Value tol) {
        C x = cparse(a), y = cparse(b);
        return bool(le(l1(csub(x, y)), mul(parse(tol), add(Q1, add(l1(x), l1(y))))));
    }
    public static Value CCloseRel(Value a, Value b, Value tol) {
        C x = cparse(a), y = cparse(b);
        return bool(le(l1(csub(x, y)), mul(parse(tol), add(l1(x), l1(y)))));
    }
    public static Value CTrunc(Value a, Value k) {
        C x = cparse(a); int kk = ((IntValue) k).val;
        return cout(new C(trunc(x.r, kk), trunc(x.i, kk)));
    }
    /** Fraction-exact Gaussian elimination. */
    public static Value CDet(Value m) {
        Value[] rows = seq(m);
        int n = rows.length;
        C[][] a = new C[n][];
        for (int i = 0; i < n; i++) {
            Value[] r = seq(rows[i]);
            if (r.length != n) return cout(new C(NAN, NAN));
            a[i] = new C[n];
            for (int j = 0; j < n; j++) a[i][j] = cparse(r[j]);
        }
        C det = C1;
        for (int k = 0; k < n; k++) {
            int p = k;
            while (p < n && czero(a[p][k])) p++;
            if (p == n) return cout(C0);
            if (p != k) { C[] t = a[p]; a[p] = a[k]; a[k] = t; det = new C(neg(det.r), neg(det.i)); }
            det = cmul(det, a[k][k]);
            for (int i = k + 1; i < n; i++) {
                C f = cdiv(a[i][k], a[k][k]);
                if (czero(f)) continue;
                for (int j = k; j < n; j++) a[i][j] = csub(a[i][j], cmul(f, a[k][j]));
            }
        }
        return cout(det);
    }
}
