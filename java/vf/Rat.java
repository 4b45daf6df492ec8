package vf;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import java.util.HashMap;

import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * TLC overrides for module Rat.  TLC's integers are 32 bits wide, so money
 * amounts are carried as strings: "n" or "n/d" (lowest terms, d > 0) or
 * "inf" / "-inf" / "nan".  Values whose terms grow past MAXBITS are rounded
 * to KEEPBITS significant bits (relative error < 2^-KEEPBITS).
 */
public class Rat implements ITLCOverrides {
    @Override
    public Class[] get() { return new Class[] { Rat.class }; }

    static final int MAXBITS = 640, KEEPBITS = 320;
    static final MathContext MC = new MathContext(80, RoundingMode.HALF_EVEN);
    static final BigInteger ONE = BigInteger.ONE, ZERO = BigInteger.ZERO;

    static final class Q {
        final BigInteger n, d; // d == 0: n=1 inf, n=-1 -inf, n=0 nan
        Q(BigInteger n, BigInteger d) { this.n = n; this.d = d; }
        boolean fin() { return d.signum() != 0; }
        boolean nan() { return d.signum() == 0 && n.signum() == 0; }
    }
    static final Q INF = new Q(ONE, ZERO), NINF = new Q(ONE.negate(), ZERO), NAN = new Q(ZERO, ZERO);
    static final Q Q0 = new Q(ZERO, ONE), Q1 = new Q(ONE, ONE);

    static Q mk(BigInteger n, BigInteger d) {
        if (d.signum() == 0) throw new ArithmeticException("zero denominator");
        if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
        if (n.signum() == 0) return Q0;
        BigInteger g = n.gcd(d);
        if (!g.equals(ONE)) { n = n.divide(g); d = d.divide(g); }
        if (d.bitLength() > MAXBITS) {
            // round to KEEPBITS significant bits: n/d ~ m * 2^-s
            int s = KEEPBITS + d.bitLength() - n.bitLength();
            if (s < 0) s = 0;
            BigInteger m = n.shiftLeft(s + 1).divide(d).add(ONE).shiftRight(1);
            if (m.signum() == 0) return Q0;
            int tz = Math.min(m.getLowestSetBit(), s);
            return new Q(m.shiftRight(tz), ONE.shiftLeft(s - tz));
        }
        return new Q(n, d);
    }

    static String raw(Value v) {
        if (v instanceof StringValue) return ((StringValue) v).val.toString();
        if (v instanceof IntValue) return Integer.toString(((IntValue) v).val);
        throw new RuntimeException("Rat: not a number: " + v);
    }
    static Q q(Value v) {
        if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val), ONE);
        return parse(raw(v));
    }
    static Q parse(String s) {
        switch (s) {
            case "inf": return INF;
            case "-inf": return NINF;
            case "nan": return NAN;
            case "0": return Q0;
            case "1": return Q1;
        }
        int i = s.indexOf('/');
        try {
            if (i < 0) return new Q(new BigInteger(s), ONE);
            return mk(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)));
        } catch (NumberFormatException e) {
            return NAN;
        }
    }
    static String str(Q x) {
        if (!x.fin()) return x.n.signum() > 0 ? "inf" : x.n.signum() < 0 ? "-inf" : "nan";
        if (x.d.equals(ONE)) return x.n.toString();
        return x.n + "/" + x.d;
    }
    static Value v(Q x) { return new StringValue(str(x)); }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    static Q add(Q a, Q b) {
        if (a.fin() && b.fin()) {
            if (a.d.equals(b.d)) return mk(a.n.add(b.n), a.d);
            return mk(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
        }
        if (a.nan() || b.nan()) return NAN;
        if (a.fin()) return b;
        if (b.fin()) return a;
        return a.n.signum() == b.n.signum() ? a : NAN;
    }
    static Q neg(Q a) { return new Q(a.n.negate(), a.d); }
    static Q mul(Q a, Q b) {
        if (a.fin() && b.fin()) return mk(a.n.multiply(b.n), a.d.multiply(b.d));
        int s = a.n.signum() * b.n.signum();
        return s > 0 ? INF : s < 0 ? NINF : NAN;
    }
    static Q div(Q a, Q b) {
        if (a.fin() && b.fin()) {
            if (b.n.signum() == 0) return a.n.signum() > 0 ? INF : a.n.signum() < 0 ? NINF : NAN;
            return mk(a.n.multiply(b.d), a.d.multiply(b.n));
        }
        if (a.nan() || b.nan()) return NAN;
        if (a.fin()) return Q0;
        if (!b.fin()) return NAN;
        return (b.n.signum() < 0) ? neg(a) : a;
    }
    static int cmp(Q a, Q b) { // nan compares as neither; callers check
        if (a.fin() && b.fin()) return a.n.multiply(b.d).compareTo(b.n.multiply(a.d));
        int x = a.fin() ? 0 : a.n.signum() * 2, y = b.fin() ? 0 : b.n.signum() * 2;
        return Integer.compare(x, y);
    }
    static BigDecimal dec(Q a) { return new BigDecimal(a.n).divide(new BigDecimal(a.d), MC); }
    static Q fromDec(BigDecimal x) {
        BigInteger u = x.unscaledValue();
        if (x.scale() >= 0) return mk(u, BigInteger.TEN.pow(x.scale()));
        return new Q(u.multiply(BigInteger.TEN.pow(-x.scale())), ONE);
    }
    static BigDecimal exp(BigDecimal x) {
        int k = 0;
        MathContext mc = new MathContext(110, RoundingMode.HALF_EVEN);
        while (x.abs().compareTo(new BigDecimal("0.25")) > 0) { x = x.divide(BigDecimal.valueOf(2), mc); k++; }
        BigDecimal term = BigDecimal.ONE, sum = BigDecimal.ONE;
        for (int i = 1; i < 200; i++) {
            term = term.multiply(x, mc).divide(BigDecimal.valueOf(i), mc);
            sum = sum.add(term, mc);
            if (term.abs().compareTo(new BigDecimal("1e-105")) < 0) break;
        }
        for (; k > 0; k--) sum = sum.multiply(sum, mc);
        return sum;
    }
    static BigDecimal ln(BigDecimal x) { // x > 0
        MathContext mc = new MathContext(110, RoundingMode.HALF_EVEN);
        if (x.signum() <= 0) throw new ArithmeticException("ln");
        // Newton on exp, from a double start
        double d0 = x.doubleValue();
        BigDecimal y;
        if (Double.isInfinite(d0) || d0 == 0) {
            int e = x.precision() - x.scale();
            y = BigDecimal.valueOf(e * Math.log(10));
        } else y = BigDecimal.valueOf(Math.log(d0));
        for (int i = 0; i < 8; i++) {
            BigDecimal e = exp(y);
            BigDecimal dy = x.subtract(e).divide(x.add(e), mc).multiply(BigDecimal.valueOf(2), mc);
            y = y.add(dy, mc);
            if (dy.abs().compareTo(new BigDecimal("1e-95")) < 0) break;
        }
        return y;
    }

    static final HashMap<String, Q> POW = new HashMap<>();
    static Q pow(Q a, Q e) {
        if (!a.fin() || !e.fin()) return NAN;
        if (e.n.signum() == 0) return Q1;
        if (e.d.equals(ONE) && e.n.bitLength() < 10) {
            int k = e.n.intValue();
            Q r = Q1, base = k < 0 ? div(Q1, a) : a;
            for (k = Math.abs(k); k > 0; k >>= 1) {
                if ((k & 1) != 0) r = mul(r, base);
                base = mul(base, base);
            }
            return r;
        }
        if (a.n.signum() == 0) return e.n.signum() > 0 ? Q0 : INF;
        if (a.n.signum() < 0) return NAN;
        return fromDec(exp(dec(e).multiply(ln(dec(a)), MC)).round(MC));
    }

    @TLAPlusOperator(identifier = "RAdd", module = "Rat", warn = false)
    public static Value RAdd(final Value a, final Value b) { return v(add(q(a), q(b))); }
    @TLAPlusOperator(identifier = "RSub", module = "Rat", warn = false)
    public static Value RSub(final Value a, final Value b) { return v(add(q(a), neg(q(b)))); }
    @TLAPlusOperator(identifier = "RMul", module = "Rat", warn = false)
    public static Value RMul(final Value a, final Value b) { return v(mul(q(a), q(b))); }
    @TLAPlusOperator(identifier = "RDiv", module = "Rat", warn = false)
    public static Value RDiv(final Value a, final Value b) { return v(div(q(a), q(b))); }
    @TLAPlusOperator(identifier = "RNeg", module = "Rat", warn = false)
    public static Value RNeg(final Value a) { return v(neg(q(a))); }
    @TLAPlusOperator(identifier = "RAbs", module = "Rat", warn = false)
    public static Value RAbs(final Value a) { Q x = q(a); return v(x.n.signum() < 0 ? neg(x) : x); }
    @TLAPlusOperator(identifier = "RLe", module = "Rat", warn = false)
    public static Value RLe(final Value a, final Value b) { Q x = q(a), y = q(b); return b(!x.nan() && !y.nan() && cmp(x, y) <= 0); }
    @TLAPlusOperator(identifier = "RLt", module = "Rat", warn = false)
    public static Value RLt(final Value a, final Value b) { Q x = q(a), y = q(b); return b(!x.nan() && !y.nan() && cmp(x, y) < 0); }
    @TLAPlusOperator(identifier = "REq", module = "Rat", warn = false)
    public static Value REq(final Value a, final Value b) { Q x = q(a), y = q(b); return b(!x.nan() && !y.nan() && cmp(x, y) == 0); }
    @TLAPlusOperator(identifier = "RMin", module = "Rat", warn = false)
    public static Value RMin(final Value a, final Value b) { Q x = q(a), y = q(b); return v(cmp(x, y) <= 0 ? x : y); }
    @TLAPlusOperator(identifier = "RMax", module = "Rat", warn = false)
    public static Value RMax(final Value a, final Value b) { Q x = q(a), y = q(b); return v(cmp(x, y) >= 0 ? x : y); }
    @TLAPlusOperator(identifier = "RFloor", module = "Rat", warn = false)
    public static Value RFloor(final Value a) {
        Q x = q(a);
        if (!x.fin()) return v(x);
        BigInteger[] qr = x.n.divideAndRemainder(x.d);
        return v(new Q(qr[1].signum() < 0 ? qr[0].subtract(ONE) : qr[0], ONE));
    }
    @TLAPlusOperator(identifier = "RIsInt", module = "Rat", warn = false)
    public static Value RIsInt(final Value a) { return b(q(a).d.equals(ONE)); }
    @TLAPlusOperator(identifier = "RIsFin", module = "Rat", warn = false)
    public static Value RIsFin(final Value a) { return b(q(a).fin()); }
    @TLAPlusOperator(identifier = "RIsNaN", module = "Rat", warn = false)
    public static Value RIsNaN(final Value a) { return b(q(a).nan()); }
    @TLAPlusOperator(identifier = "RPow", module = "Rat", warn = false)
    public static Value RPow(final Value a, final Value e) {
        String k = raw(a) + "^" + raw(e);
        Q r;
        synchronized (POW) { r = POW.get(k); }
        if (r == null) {
            r = pow(q(a), q(e));
            synchronized (POW) { POW.put(k, r); }
        }
        return v(r);
    }
    @TLAPlusOperator(identifier = "RExp", module = "Rat", warn = false)
    public static Value RExp(final Value a) {
        Q x = q(a);
        if (!x.fin()) return v(NAN);
        String k = "e^" + raw(a);
        Q r;
        synchronized (POW) { r = POW.get(k); }
        if (r == null) {
            r = x.n.signum() == 0 ? Q1 : fromDec(exp(dec(x)).round(MC));
            synchronized (POW) { POW.put(k, r); }
        }
        return v(r);
    }
    /** |a-b| <= tol * max(1, |a|, |b|); infinities only equal themselves. */
    static boolean close(Q x, Q y, Q t) {
        if (x.nan() || y.nan()) return false;
        if (!x.fin() || !y.fin()) return !x.fin() && !y.fin() && x.n.signum() == y.n.signum();
        Q d = add(x, neg(y));
        if (d.n.signum() == 0) return true;
        if (d.n.signum() < 0) d = neg(d);
        Q ax = new Q(x.n.abs(), x.d), ay = new Q(y.n.abs(), y.d);
        Q m = cmp(ax, ay) >= 0 ? ax : ay;
        if (cmp(m, Q1) < 0) m = Q1;
        return cmp(d, mul(t, m)) <= 0;
    }
    @TLAPlusOperator(identifier = "RCloseTol", module = "Rat", warn = false)
    public static Value RCloseTol(final Value a, final Value b, final Value t) { return b(close(q(a), q(b), q(t))); }
    @TLAPlusOperator(identifier = "RSumSeq", module = "Rat", warn = false)
    public static Value RSumSeq(final Value s) {
        TupleValue t = (TupleValue) s.toTuple();
        if (t == null) throw new RuntimeException("RSumSeq: not a sequence: " + s);
        Q r = Q0;
        for (Value e : t.elems) r = add(r, q(e));
        return v(r);
    }
    @TLAPlusOperator(identifier = "RToInt", module = "Rat", warn = false)
    public static Value RToInt(final Value a) {
        Q x = q(a);
        return IntValue.gen(x.n.divide(x.d).intValueExact());
    }
}
