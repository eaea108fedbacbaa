// Operator overrides for spec/BigRat.tla: exact rational arithmetic.
//
// TLC integers are 32 bits wide and TLC has no reals, so the numeric relations
// of the specification are evaluated here, exactly, on rationals of unbounded
// size.  A number is a TLC integer, or a string: "n/d", or a decimal literal as
// printed by %.17g, which stands for exactly the double it denotes.  Anything
// that is not a finite number behaves as the poison value "nan": arithmetic on
// it gives "nan" and every comparison with it is FALSE.
import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import java.util.concurrent.ConcurrentHashMap;

import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public class BigRat {
    static final class Q {
        final BigInteger n, d;
        Q(BigInteger n, BigInteger d) {
            if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
            BigInteger g = n.gcd(d);
            if (!g.equals(BigInteger.ONE) && g.signum() != 0) { n = n.divide(g); d = d.divide(g); }
            this.n = n; this.d = d;
        }
        @Override public boolean equals(Object o) { return o instanceof Q && n.equals(((Q) o).n) && d.equals(((Q) o).d); }
        @Override public int hashCode() { return n.hashCode() * 31 + d.hashCode(); }
        Q(long n) { this(BigInteger.valueOf(n), BigInteger.ONE); }
        Q add(Q o) { return new Q(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d)); }
        Q sub(Q o) { return new Q(n.multiply(o.d).subtract(o.n.multiply(d)), d.multiply(o.d)); }
        Q mul(Q o) { return new Q(n.multiply(o.n), d.multiply(o.d)); }
        Q div(Q o) { return o.n.signum() == 0 ? null : new Q(n.multiply(o.d), d.multiply(o.n)); }
        Q neg() { return new Q(n.negate(), d); }
        int cmp(Q o) { return n.multiply(o.d).compareTo(o.n.multiply(d)); }
    }
    static final Q ZERO = new Q(0), ONE = new Q(1);
    static final ConcurrentHashMap<String, Q> CACHE = new ConcurrentHashMap<>();
    static final Q NAN = new Q(0);           // identity marks "not a number"

    static Q parse(String s) {
        int k = s.indexOf('/');
        try {
            if (k >= 0) {
                BigInteger d = new BigInteger(s.substring(k + 1), 16);
                if (d.signum() == 0) return NAN;
                return new Q(new BigInteger(s.substring(0, k), 16), d);
            }
            double x = Double.parseDouble(s);
            if (Double.isNaN(x) || Double.isInfinite(x)) return NAN;
            BigDecimal b = new BigDecimal(x);
            BigInteger u = b.unscaledValue();
            return b.scale() >= 0 ? new Q(u, BigInteger.TEN.pow(b.scale()))
                                  : new Q(u.multiply(BigInteger.TEN.pow(-b.scale())), BigInteger.ONE);
        } catch (NumberFormatException e) {
            return NAN;
        }
    }
    static Q q(Value v) {
        if (v instanceof IntValue) return new Q(((IntValue) v).val);
        if (v instanceof StringValue) {
            String s = ((StringValue) v).val.toString();
            Q r = CACHE.get(s);
            if (r == null) {
                r = parse(s);
                if (CACHE.size() > 200000) CACHE.clear();
                CACHE.put(s, r);
            }
            return r;
        }
        throw new RuntimeException("BigRat: not a number: " + v);
    }
    // numbers are written "n/d" in hexadecimal (parsing decimal is quadratic)
    static Value w(Q x) {
        if (x == null || x == NAN) return new StringValue("nan");
        if (x.d.equals(BigInteger.ONE) && x.n.bitLength() < 31) return IntValue.gen(x.n.intValue());
        return new StringValue(x.n.toString(16) + "/" + x.d.toString(16));
    }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    static boolean bad(Q a) { return a == null || a == NAN; }
    static Q[] vec(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        if (t == null) throw new RuntimeException("BigRat: not a sequence: " + v);
        Q[] r = new Q[t.elems.length];
        for (int i = 0; i < r.length; i++) r[i] = q(t.elems[i]);
        return r;
    }
    static Q[][] mat(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        if (t == null) throw new RuntimeException("BigRat: not a matrix: " + v);
        Q[][] r = new Q[t.elems.length][];
        for (int i = 0; i < r.length; i++) r[i] = vec(t.elems[i]);
        return r;
    }
    static Value wv(Q[] a) {
        Value[] e = new Value[a.length];
        for (int i = 0; i < e.length; i++) e[i] = w(a[i]);
        return new TupleValue(e);
    }
    static Value wm(Q[][] a) {
        Value[] e = new Value[a.length];
        for (int i = 0; i < e.length; i++) e[i] = wv(a[i]);
        return new TupleValue(e);
    }
    static Q add(Q a, Q b) { return bad(a) || bad(b) ? NAN : a.add(b); }
    static Q sub(Q a, Q b) { return bad(a) || bad(b) ? NAN : a.sub(b); }
    static Q mul(Q a, Q b) { return bad(a) || bad(b) ? NAN : a.mul(b); }
    static Q div(Q a, Q b) {
        if (bad(a) || bad(b)) return NAN;
        Q r = a.div(b);
        return r == null ? NAN : r;
    }

    // ---- scalars
    public static Value RNum(Value a) { return w(q(a)); }
    public static Value RIsNum(Value a) { return b(!bad(q(a))); }
    public static Value RAdd(Value a, Value c) { return w(add(q(a), q(c))); }
    public static Value RSub(Value a, Value c) { return w(sub(q(a), q(c))); }
    public static Value RMul(Value a, Value c) { return w(mul(q(a), q(c))); }
    public static Value RDiv(Value a, Value c) { return w(div(q(a), q(c))); }
    public static Value RNeg(Value a) { Q x = q(a); return w(bad(x) ? NAN : x.neg()); }
    public static Value RAbs(Value a) { Q x = q(a); return w(bad(x) ? NAN : x.n.signum() < 0 ? x.neg() : x); }
    public static Value RLe(Value a, Value c) { Q x = q(a), y = q(c); return b(!bad(x) && !bad(y) && x.cmp(y) <= 0); }
    public static Value RLt(Value a, Value c) { Q x = q(a), y = q(c); return b(!bad(x) && !bad(y) && x.cmp(y) < 0); }
    public static Value REq(Value a, Value c) { Q x = q(a), y = q(c); return b(!bad(x) && !bad(y) && x.cmp(y) == 0); }
    public static Value RMax(Value a, Value c) { Q x = q(a), y = q(c); return w(bad(x) || bad(y) ? NAN : x.cmp(y) >= 0 ? x : y); }
    public static Value RMin(Value a, Value c) { Q x = q(a), y = q(c); return w(bad(x) || bad(y) ? NAN : x.cmp(y) <= 0 ? x : y); }
    public static Value RSign(Value a) { Q x = q(a); return IntValue.gen(bad(x) ? 0 : x.n.signum()); }
    public static Value RPow2(Value k) {
        int e = ((IntValue) k).val;
        BigInteger p = BigInteger.ONE.shiftLeft(Math.abs(e));
        return w(e >= 0 ? new Q(p, BigInteger.ONE) : new Q(BigInteger.ONE, p));
    }
    public static Value RPow10(Value k) {
        int e = ((IntValue) k).val;
        BigInteger p = BigInteger.TEN.pow(Math.abs(e));
        return w(e >= 0 ? new Q(p, BigInteger.ONE) : new Q(BigInteger.ONE, p));
    }
    static BigInteger floor(Q x) { BigInteger[] r = x.n.divideAndRemainder(x.d); return r[1].signum() < 0 ? r[0].subtract(BigInteger.ONE) : r[0]; }
    public static Value RFloor(Value a) { Q x = q(a); return w(bad(x) ? NAN : new Q(floor(x), BigInteger.ONE)); }
    public static Value RNumer(Value a) { Q x = q(a); return w(bad(x) ? NAN : new Q(x.n, BigInteger.ONE)); }
    public static Value RDenom(Value a) { Q x = q(a); return w(bad(x) ? NAN : new Q(x.d, BigInteger.ONE)); }
    // nearest multiple of 2^-bits times the number's own power of two
    static Q round(Q x, int bits) {
        if (bad(x) || x.n.signum() == 0) return x;
        int e = x.n.bitLength() - x.d.bitLength() - bits;
        BigInteger n = e < 0 ? x.n.shiftLeft(-e) : x.n;
        BigInteger d = e > 0 ? x.d.shiftLeft(e) : x.d;
        BigInteger m = floor(new Q(n.shiftLeft(1).add(d), d.shiftLeft(1)));
        return e >= 0 ? new Q(m.shiftLeft(e), BigInteger.ONE) : new Q(m, BigInteger.ONE.shiftLeft(-e));
    }
    public static Value RRound(Value a, Value bits) { return w(round(q(a), ((IntValue) bits).val)); }
    static final int PREC = 200;
    static Q sqrt(Q x) {
        if (bad(x) || x.n.signum() < 0) return NAN;
        // exact when the number is a square
        BigInteger sn = x.n.sqrt(), sd = x.d.sqrt();
        if (sn.multiply(sn).equals(x.n) && sd.multiply(sd).equals(x.d)) return new Q(sn, sd);
        int e = x.n.bitLength() - x.d.bitLength() - 2 * PREC;
        if ((e & 1) != 0) e--;
        BigInteger n = e < 0 ? x.n.shiftLeft(-e) : x.n;
        BigInteger d = e > 0 ? x.d.shiftLeft(e) : x.d;
        BigInteger r = n.divide(d).sqrt();
        return e >= 0 ? new Q(r.shiftLeft(e / 2), BigInteger.ONE) : new Q(r, BigInteger.ONE.shiftLeft(-e / 2));
    }
    public static Value RSqrt(Value a) { return w(sqrt(q(a))); }
    static final MathContext MC = new MathContext(60, RoundingMode.HALF_EVEN);
    static BigDecimal dec(Q x) { return new BigDecimal(x.n).divide(new BigDecimal(x.d), MC); }
    static Q undec(BigDecimal b) {
        BigInteger u = b.unscaledValue();
        return b.scale() >= 0 ? new Q(u, BigInteger.TEN.pow(b.scale())) : new Q(u.multiply(BigInteger.TEN.pow(-b.scale())), BigInteger.ONE);
    }
    static final BigDecimal TINY = new BigDecimal("1e-64");
    // the same few arguments come again and again in a design run
    static final java.util.concurrent.ConcurrentHashMap<Q, Value> EXPS = new java.util.concurrent.ConcurrentHashMap<>(), LOGS = new java.util.concurrent.ConcurrentHashMap<>();
    static Value keep(java.util.concurrent.ConcurrentHashMap<Q, Value> m, Q x, Value v) {
        if (m.size() > 20000) m.clear();
        m.put(x, v);
        return v;
    }
    static BigDecimal exp(BigDecimal x) {
        int k = 0;
        while (x.abs().compareTo(new BigDecimal("0.01")) > 0) { x = x.divide(BigDecimal.valueOf(2), MC); k++; }
        BigDecimal t = BigDecimal.ONE, s = BigDecimal.ONE;
        for (int i = 1; i < 60; i++) {
            t = t.multiply(x, MC).divide(BigDecimal.valueOf(i), MC);
            s = s.add(t, MC);
            if (t.abs().compareTo(TINY) < 0) break;
        }
        for (int i = 0; i < k; i++) s = s.multiply(s, MC);
        return s;
    }
    static BigDecimal log(BigDecimal x) {
        // Newton on exp(y) = x, from the double logarithm
        BigDecimal y = new BigDecimal(Math.log(x.doubleValue()));
        for (int i = 0; i < 3; i++) {
            BigDecimal e = exp(y);
            y = y.add(x.subtract(e).divide(e, MC), MC);
        }
        return y;
    }
    public static Value RExp(Value a) {
        Q x = q(a);
        if (bad(x) || x.n.abs().compareTo(x.d.multiply(BigInteger.valueOf(2000))) > 0) return w(NAN);
        Value known = EXPS.get(x);
        return known != null ? known : keep(EXPS, x, w(undec(exp(dec(x)))));
    }
    public static Value RLog(Value a) {
        Q x = q(a);
        if (bad(x) || x.n.signum() <= 0) return w(NAN);
        Value known = LOGS.get(x);
        if (known != null) return known;
        double d = dec(x).doubleValue();
        if (d == 0. || Double.isInfinite(d)) return w(NAN);
        return keep(LOGS, x, w(undec(log(dec(x)))));
    }
    // for messages and scenario files only: shortest decimal of the nearest double
    public static Value RShow(Value a) { Q x = q(a); return new StringValue(bad(x) ? "nan" : Double.toString(dec(x).doubleValue())); }

    // ---- vectors and matrices (sequences, sequences of rows)
    static Q dot(Q[] x, Q[] y) {
        if (x.length != y.length) return NAN;
        Q s = ZERO;
        for (int i = 0; i < x.length; i++) s = add(s, mul(x[i], y[i]));
        return s;
    }
    public static Value VDot(Value a, Value c) { return w(dot(vec(a), vec(c))); }
    public static Value VAdd(Value a, Value c) {
        Q[] x = vec(a), y = vec(c), r = new Q[x.length];
        for (int i = 0; i < r.length; i++) r[i] = add(x[i], y[i]);
        return wv(r);
    }
    public static Value VSub(Value a, Value c) {
        Q[] x = vec(a), y = vec(c), r = new Q[x.length];
        for (int i = 0; i < r.length; i++) r[i] = sub(x[i], y[i]);
        return wv(r);
    }
    public static Value VScale(Value k, Value a) {
        Q s = q(k); Q[] x = vec(a), r = new Q[x.length];
        for (int i = 0; i < r.length; i++) r[i] = mul(s, x[i]);
        return wv(r);
    }
    public static Value MVec(Value m, Value v) {
        Q[][] x = mat(m); Q[] y = vec(v), r = new Q[x.length];
        for (int i = 0; i < r.length; i++) r[i] = dot(x[i], y);
        return wv(r);
    }
    static Q[][] tr(Q[][] a) {
        int n = a.length == 0 ? 0 : a[0].length;
        Q[][] r = new Q[n][a.length];
        for (int i = 0; i < n; i++) for (int j = 0; j < a.length; j++) r[i][j] = a[j][i];
        return r;
    }
    public static Value MTrans(Value a) { return wm(tr(mat(a))); }
    public static Value MMul(Value a, Value c) {
        Q[][] x = mat(a), y = tr(mat(c)), r = new Q[x.length][y.length];
        for (int i = 0; i < x.length; i++) for (int j = 0; j < y.length; j++) r[i][j] = dot(x[i], y[j]);
        return wm(r);
    }
    public static Value MAdd(Value a, Value c) {
        Q[][] x = mat(a), y = mat(c), r = new Q[x.length][];
        for (int i = 0; i < x.length; i++) { r[i] = new Q[x[i].length]; for (int j = 0; j < r[i].length; j++) r[i][j] = add(x[i][j], y[i][j]); }
        return wm(r);
    }
    public static Value MScale(Value k, Value a) {
        Q s = q(k); Q[][] x = mat(a), r = new Q[x.length][];
        for (int i = 0; i < x.length; i++) { r[i] = new Q[x[i].length]; for (int j = 0; j < r[i].length; j++) r[i][j] = mul(s, x[i][j]); }
        return wm(r);
    }
    public static Value MRound(Value a, Value bits) {
        int k = ((IntValue) bits).val;
        Q[][] x = mat(a);
        for (Q[] row : x) for (int j = 0; j < row.length; j++) row[j] = round(row[j], k);
        return wm(x);
    }
    // pivots of the elimination without row exchanges; stops at a zero pivot
    static Q[] pivots(Q[][] m) {
        int n = m.length; Q[] p = new Q[n];
        for (int k = 0; k < n; k++) {
            p[k] = m[k][k];
            if (bad(p[k]) || p[k].n.signum() == 0) { for (int i = k; i < n; i++) p[i] = i == k ? p[k] : ZERO; return p; }
            for (int i = k + 1; i < n; i++) {
                Q f = div(m[i][k], p[k]);
                for (int j = k; j < n; j++) m[i][j] = sub(m[i][j], mul(f, m[k][j]));
            }
        }
        return p;
    }
    public static Value MPosDef(Value a) {
        for (Q p : pivots(mat(a))) if (bad(p) || p.n.signum() <= 0) return b(false);
        return b(true);
    }
    public static Value MDet(Value a) {
        Q[][] m = mat(a); int n = m.length; Q det = ONE;
        for (int k = 0; k < n; k++) {
            int r = k;
            while (r < n && (bad(m[r][k]) || m[r][k].n.signum() == 0)) r++;
            if (r == n) return w(ZERO);
            if (r != k) { Q[] t = m[r]; m[r] = m[k]; m[k] = t; det = det.neg(); }
            det = mul(det, m[k][k]);
            for (int i = k + 1; i < n; i++) {
                Q f = div(m[i][k], m[k][k]);
                for (int j = k; j < n; j++) m[i][j] = sub(m[i][j], mul(f, m[k][j]));
            }
        }
        return w(det);
    }
    // solution of a x = c, or a vector of "nan" when a is singular
    static Q[] solve(Q[][] m, Q[] y) {
        int n = m.length; Q[] x = y.clone();
        for (int k = 0; k < n; k++) {
            int r = k;
            while (r < n && (bad(m[r][k]) || m[r][k].n.signum() == 0)) r++;
            if (r == n) { for (int i = 0; i < n; i++) x[i] = NAN; return x; }
            Q[] t = m[r]; m[r] = m[k]; m[k] = t;
            Q u = x[r]; x[r] = x[k]; x[k] = u;
            for (int i = 0; i < n; i++) if (i != k) {
                Q f = div(m[i][k], m[k][k]);
                for (int j = k; j < n; j++) m[i][j] = sub(m[i][j], mul(f, m[k][j]));
                x[i] = sub(x[i], mul(f, x[k]));
            }
        }
        for (int i = 0; i < n; i++) x[i] = div(x[i], m[i][i]);
        return x;
    }
    public static Value MSolve(Value a, Value c) { return wv(solve(mat(a), vec(c))); }
    public static Value MInv(Value a) {
        Q[][] m = mat(a); int n = m.length; Q[][] r = new Q[n][n];
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r[i][j] = i == j ? ONE : ZERO;
        for (int k = 0; k < n; k++) {
            int p = k;
            while (p < n && (bad(m[p][k]) || m[p][k].n.signum() == 0)) p++;
            if (p == n) { for (Q[] row : r) java.util.Arrays.fill(row, NAN); return wm(r); }
            Q[] t = m[p]; m[p] = m[k]; m[k] = t;
            t = r[p]; r[p] = r[k]; r[k] = t;
            Q h = m[k][k];
            for (int j = 0; j < n; j++) { m[k][j] = div(m[k][j], h); r[k][j] = div(r[k][j], h); }
            for (int i = 0; i < n; i++) if (i != k) {
                Q f = m[i][k];
                for (int j = 0; j < n; j++) { m[i][j] = sub(m[i][j], mul(f, m[k][j])); r[i][j] = sub(r[i][j], mul(f, r[k][j])); }
            }
        }
        return wm(r);
    }
}
