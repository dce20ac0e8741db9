import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.*;

/** TLC evaluation of spec/Rat.tla: exact rational arithmetic on strings.
 *  Text of a number:  N[~M][|D1,D2,...]   with
 *    N   "n", "n/d", decimal or C hexfloat text: the value, exactly
 *    M   magnitude: an upper bound of the size of the intermediate results that lead to the value, i.e. the quantity to
 *        which a rounding error committed on the way is proportional (omitted when it equals |N|)
 *    Di  directional derivatives (numbers of the form N[~M]); omitted for plain numbers
 *  A non-finite number ("nan") absorbs every operation. */
public class Rat {
    private static final BigInteger ONE = BigInteger.ONE;
    private static final MathContext MC = new MathContext(50);
    private static final class Q {
        final BigInteger n, d;   // value, d > 0
        final double m;          // magnitude >= |n/d|
        final Q[] g;             // derivatives, or null
        Q(BigInteger n, BigInteger d, double m, Q[] g) { this.n = n; this.d = d; this.m = m; this.g = g; }
    }
    private static final Q NAN = new Q(BigInteger.ZERO, BigInteger.ZERO, 0, null);
    private static final Q ZERO = new Q(BigInteger.ZERO, ONE, 0, null);
    private static final Q UNIT = new Q(ONE, ONE, 1, null);
    private static final ConcurrentHashMap<String, Q> cache = new ConcurrentHashMap<>();

    private static double toD(BigInteger n, BigInteger d) {
        if (n.signum() == 0) return 0;
        if (d.equals(ONE) && n.bitLength() < 1000) return n.doubleValue();
        return new BigDecimal(n).divide(new BigDecimal(d), MathContext.DECIMAL64).doubleValue();
    }
    private static double val(Q q) { return toD(q.n, q.d); }
    private static Q mk(BigInteger n, BigInteger d, double m, Q[] g) {
        if (d.signum() == 0) return NAN;
        if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
        if (!d.equals(ONE)) {
            BigInteger h = n.gcd(d);
            if (!h.equals(ONE)) { n = n.divide(h); d = d.divide(h); }
        }
        // keep the representation bounded: beyond 1600 bits round to 300 significant bits (relative error 1e-90)
        if (d.bitLength() > 1600) {
            int k = 300 - (n.abs().bitLength() - d.bitLength());
            if (k > 0) { n = n.shiftLeft(k).divide(d); d = ONE.shiftLeft(k); }
            else { n = n.divide(d); d = ONE; }
            BigInteger h = n.gcd(d);
            if (!h.equals(ONE)) { n = n.divide(h); d = d.divide(h); }
        }
        double a = Math.abs(toD(n, d));
        if (!(m >= a)) m = a;
        return new Q(n, d, m, g);
    }
    private static Q ofDec(BigDecimal b, double m, Q[] g) {
        if (b.scale() <= 0) return mk(b.toBigIntegerExact(), ONE, m, g);
        return mk(b.unscaledValue(), BigInteger.TEN.pow(b.scale()), m, g);
    }
    private static Q ofDouble(double x, double m, Q[] g) {
        if (Double.isNaN(x) || Double.isInfinite(x)) return NAN;
        return ofDec(new BigDecimal(x), m, g);
    }
    private static BigDecimal dec(Q q) { return new BigDecimal(q.n).divide(new BigDecimal(q.d), MC); }
    private static Q parse(String s) {
        Q q = cache.get(s);
        if (q != null) return q;
        String t = s.trim();
        try {
            int bar = t.indexOf('|');
            Q[] g = null;
            if (bar >= 0) {
                String[] p = t.substring(bar + 1).split(",");
                g = new Q[p.length];
                for (int i = 0; i < p.length; i++) g[i] = parse(p[i]);
                t = t.substring(0, bar);
            }
            double m = 0;
            int til = t.indexOf('~');
            if (til >= 0) { m = Double.parseDouble(t.substring(til + 1)); t = t.substring(0, til); }
            int i = t.indexOf('/');
            if (t.contains("nan") || t.contains("inf")) q = NAN;
            else if (i > 0) q = mk(new BigInteger(t.substring(0, i)), new BigInteger(t.substring(i + 1)), m, g);
            else if (t.contains("x")) q = ofDouble(Double.parseDouble(t), m, g);
            else q = ofDec(new BigDecimal(t), m, g);
        } catch (NumberFormatException e) { throw new RuntimeException("Rat: not a number: " + s); }
        if (cache.size() > 400000) cache.clear();
        cache.put(s, q);
        return q;
    }
    private static Q of(Value v) {
        if (v instanceof StringValue) return parse(((StringValue) v).val.toString());
        if (v instanceof IntValue) { int k = ((IntValue) v).val; return new Q(BigInteger.valueOf(k), ONE, Math.abs((double) k), null); }
        throw new RuntimeException("Rat: expected a number, got " + v);
    }
    private static String str(Q q) {
        if (q == NAN) return "nan";
        StringBuilder b = new StringBuilder();
        b.append(q.n);
        if (!q.d.equals(ONE)) b.append('/').append(q.d);
        double a = Math.abs(val(q));
        if (q.m > a * (1 + 1e-12)) b.append('~').append((float) q.m > 0 && !Float.isInfinite((float) q.m) ? Float.toString((float) (q.m * 1.0000002)) : Double.toString(q.m));
        if (q.g != null) {
            b.append('|');
            for (int i = 0; i < q.g.length; i++) { if (i > 0) b.append(','); b.append(str(q.g[i])); }
        }
        return b.toString();
    }
    private static Value out(Q q) { return new StringValue(str(q)); }

    private static Q der(Q a, int i) { return a.g == null || i >= a.g.length ? ZERO : a.g[i]; }
    private static int nd(Q a) { return a.g == null ? 0 : a.g.length; }
    private static Q add(Q a, Q b) {
        if (a == NAN || b == NAN) return NAN;
        int k = Math.max(nd(a), nd(b));
        Q[] g = null;
        if (k > 0) { g = new Q[k]; for (int i = 0; i < k; i++) g[i] = add(der(a, i), der(b, i)); }
        if (a.d.equals(b.d)) return mk(a.n.add(b.n), a.d, a.m + b.m, g);
        return mk(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d), a.m + b.m, g);
    }
    private static Q neg(Q a) {
        if (a == NAN) return NAN;
        Q[] g = null;
        if (a.g != null) { g = new Q[a.g.length]; for (int i = 0; i < g.length; i++) g[i] = neg(a.g[i]); }
        return new Q(a.n.negate(), a.d, a.m, g);
    }
    private static Q flat(Q a) { return a == NAN || a.g == null ? a : new Q(a.n, a.d, a.m, null); }
    private static Q mul(Q a, Q b) {
        if (a == NAN || b == NAN) return NAN;
        int k = Math.max(nd(a), nd(b));
        Q[] g = null;
        if (k > 0) {
            g = new Q[k];
            Q fa = flat(a), fb = flat(b);
            for (int i = 0; i < k; i++) g[i] = add(mul(der(a, i), fb), mul(fa, der(b, i)));
        }
        return mk(a.n.multiply(b.n), a.d.multiply(b.d), a.m * b.m, g);
    }
    private static Q recip(Q b) {
        if (b == NAN || b.n.signum() == 0) return NAN;
        double v = Math.abs(val(b));
        Q[] g = null;
        if (b.g != null) {
            Q r = recip(flat(b));
            Q f = neg(mul(r, r));
            g = new Q[b.g.length];
            for (int i = 0; i < g.length; i++) g[i] = mul(f, b.g[i]);
        }
        return mk(b.d, b.n, b.m / v / v, g);
    }
    private static Q div(Q a, Q b) { return mul(a, recip(b)); }
    private static int cmp(Q a, Q b) { return a.n.multiply(b.d).compareTo(b.n.multiply(a.d)); }
    private static Q abs(Q a) { return a == NAN ? NAN : a.n.signum() < 0 ? neg(a) : a; }
    private static Q ipow(Q p, int e) {
        Q r = UNIT;
        for (int i = 0; i < Math.abs(e); i++) r = mul(r, p);
        return e < 0 ? recip(r) : r;
    }
    private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    private static Value[] seq(Value v) { return ((TupleValue) v.toTuple()).elems; }

    public static Value RNum(Value a) { return out(of(a)); }
    public static Value RFin(Value a) { return b(of(a) != NAN); }
    public static Value RAdd(Value x, Value y) { return out(add(of(x), of(y))); }
    public static Value RSub(Value x, Value y) { return out(add(of(x), neg(of(y)))); }
    public static Value RMul(Value x, Value y) { return out(mul(of(x), of(y))); }
    public static Value RDiv(Value x, Value y) { return out(div(of(x), of(y))); }
    public static Value RNeg(Value x) { return out(neg(of(x))); }
    public static Value RAbs(Value x) { return out(abs(of(x))); }
    public static Value REq(Value x, Value y) {
        Q p = of(x), q = of(y);
        if (p == NAN || q == NAN) return b(p == q);
        return b(cmp(p, q) == 0);
    }
    public static Value RLeq(Value x, Value y) { Q p = of(x), q = of(y); return b(p != NAN && q != NAN && cmp(p, q) <= 0); }
    public static Value RLt(Value x, Value y) { Q p = of(x), q = of(y); return b(p != NAN && q != NAN && cmp(p, q) < 0); }
    private static final double TOL = 1e-9, TINY = 1e-290;
    private static boolean close(Q a, Q e) {
        if (a == NAN || e == NAN) return a == e;
        Q diff = abs(add(flat(a), neg(flat(e))));
        if (diff.n.signum() == 0) return true;
        return val(diff) <= TOL * e.m + TINY;
    }
    /** the recorded number a agrees with the expected number e up to the rounding an evaluation of e can commit */
    public static Value RClose(Value a, Value e) { return b(close(of(a), of(e))); }
    public static Value RVClose(Value a, Value e) {
        Value[] p = seq(a), q = seq(e);
        if (p.length != q.length) return b(false);
        double top = -1;        // an entry may also be off by a rounding error of the largest
        for (int i = 0; i < p.length; i++) {
            Q x = of(p[i]), y = of(q[i]);
            if (close(x, y)) continue;
            if (x == NAN || y == NAN) return b(false);
            if (top < 0) for (Value v : q) { Q w = of(v); if (w != NAN && w.m > top) top = w.m; }
            if (val(abs(add(flat(x), neg(flat(y))))) > 4e-15 * top) return b(false);
        }
        return b(true);
    }
    /** x and y are so close that rounding may decide a comparison between them either way */
    public static Value RTie(Value x, Value y) {
        Q p = of(x), q = of(y);
        if (p == NAN || q == NAN) return b(true);
        return b(val(abs(add(flat(p), neg(flat(q))))) <= 1e-11 * (p.m + q.m) + TINY);
    }
    public static Value RNear(Value x, Value y, Value scale, Value tol) {
        Q p = flat(of(x)), q = flat(of(y)), s = flat(of(scale)), t = flat(of(tol));
        if (p == NAN || q == NAN || s == NAN) return b(false);
        Q m = abs(s);
        if (cmp(abs(q), m) > 0) m = abs(q);
        return b(cmp(abs(add(p, neg(q))), mul(t, m)) <= 0);
    }
    public static Value RSum(Value s) {
        Q r = ZERO;
        for (Value v : seq(s)) r = add(r, of(v));
        return out(r);
    }
    public static Value RDot(Value s, Value t) {
        Value[] a = seq(s), c = seq(t);
        Q r = ZERO;
        for (int i = 0; i < Math.min(a.length, c.length); i++) r = add(r, mul(of(a[i]), of(c[i])));
        return out(r);
    }
    public static Value RMaxAbs(Value s) {
        Q r = ZERO;
        for (Value v : seq(s)) { Q q = abs(of(v)); if (q == NAN) return out(NAN); if (cmp(q, r) > 0) r = q; }
        return out(r);
    }
    public static Value RIPow(Value x, Value k) {
        Q p = of(x);
        return out(p == NAN ? NAN : ipow(p, ((IntValue) k).val));
    }
    public static Value RIsInt(Value x) { Q p = of(x); return b(p != NAN && p.d.equals(ONE)); }
    /** integer part as a TLC integer (for small values) */
    public static Value RTrunc(Value x) { Q p = of(x); return IntValue.gen(p.n.divide(p.d).intValueExact()); }
    private static Q[] chain(Q x, Q f) {
        if (x.g == null) return null;
        Q[] g = new Q[x.g.length];
        for (int i = 0; i < g.length; i++) g[i] = mul(f, x.g[i]);
        return g;
    }
    private static Q sqrt(Q p) {
        if (p == NAN || p.n.signum() < 0) return NAN;
        if (p.n.signum() == 0) return new Q(BigInteger.ZERO, ONE, 100 * Math.sqrt(p.m), p.g == null ? null : nanAll(p.g.length));
        double v = Math.sqrt(val(p));
        double m = Math.min(p.m / (2 * v) + v, Math.max(v, 100 * Math.sqrt(p.m)));
        Q r = ofDec(dec(p).sqrt(MC), m, null);
        return p.g == null ? r : new Q(r.n, r.d, r.m, chain(p, recip(add(r, r))));
    }
    private static Q[] nanAll(int k) { Q[] g = new Q[k]; java.util.Arrays.fill(g, NAN); return g; }
    public static Value RSqrt(Value x) { return out(sqrt(of(x))); }
    private interface F { double f(double x); }
    // f with derivative df: magnitude |f| + |f'| mag(x)
    private static Value fn(Value x, F f, F df) { return fn(x, f, df, 0); }
    // floor: size of the terms whose difference is the derivative, where an evaluation may compute it that way
    private static Value fn(Value x, F f, F df, double floor) {
        Q p = of(x);
        if (p == NAN) return out(NAN);
        double v = val(p), fv = f.f(v), dv = df.f(v);
        if (Double.isNaN(fv) || Double.isInfinite(fv)) return out(NAN);
        Q[] g = p.g == null ? null : chain(p, ofDouble(dv, Math.max(Math.abs(dv), floor * Math.max(1, Math.abs(v))), null));
        return out(ofDouble(fv, Math.abs(fv) + Math.abs(dv) * p.m, g));
    }
    public static Value RExp(Value x) { return fn(x, StrictMath::exp, StrictMath::exp); }
    public static Value RLn(Value x) { return fn(x, StrictMath::log, v -> 1 / v); }
    public static Value RLog10(Value x) { return fn(x, StrictMath::log10, v -> 1 / (v * StrictMath.log(10))); }
    public static Value RSin(Value x) { return fn(x, StrictMath::sin, StrictMath::cos, 1e-3); }
    public static Value RCos(Value x) { return fn(x, StrictMath::cos, v -> -StrictMath.sin(v), 1e-3); }
    public static Value RTan(Value x) { return fn(x, StrictMath::tan, v -> 1 + StrictMath.tan(v) * StrictMath.tan(v)); }
    public static Value RTanh(Value x) { return fn(x, StrictMath::tanh, v -> 1 / (StrictMath.cosh(v) * StrictMath.cosh(v)), 1e-3); }
    public static Value RAsin(Value x) { return fn(x, StrictMath::asin, v -> 1 / StrictMath.sqrt(1 - v * v)); }
    public static Value RAcos(Value x) { return fn(x, StrictMath::acos, v -> -1 / StrictMath.sqrt(1 - v * v)); }
    public static Value RAtan(Value x) { return fn(x, StrictMath::atan, v -> 1 / (1 + v * v)); }
    public static Value RPow(Value x, Value y) {
        Q p = of(x), q = of(y);
        if (p == NAN || q == NAN) return out(NAN);
        if (q.g == null && q.d.equals(ONE) && q.n.bitLength() < 8 && !(p.n.signum() == 0 && q.n.signum() < 0))
            return out(ipow(p, q.n.intValue()));
        double a = val(p), e = val(q), r = StrictMath.pow(a, e);
        if (Double.isNaN(r) || Double.isInfinite(r)) return out(NAN);
        double da = e * StrictMath.pow(a, e - 1), de = a > 0 ? r * StrictMath.log(a) : 0;
        int k = Math.max(nd(p), nd(q));
        Q[] g = null;
        if (k > 0) {
            g = new Q[k];
            Q fa = ofDouble(da, 0, null), fe = ofDouble(de, 0, null);
            for (int i = 0; i < k; i++) g[i] = add(mul(fa, der(p, i)), mul(fe, der(q, i)));
        }
        return out(ofDouble(r, Math.abs(r) + Math.abs(da) * p.m + Math.abs(de) * q.m, g));
    }
    /** value part, i-th derivative, and the independent variable number i of k with value x */
    public static Value RVal(Value x) { return out(flat(of(x))); }
    public static Value RDer(Value x, Value i) { Q p = of(x); return out(p == NAN ? NAN : der(p, ((IntValue) i).val - 1)); }
    public static Value RDual(Value x, Value d) {
        Q p = flat(of(x)), w = flat(of(d));
        if (p == NAN || w == NAN) return out(NAN);
        return out(new Q(p.n, p.d, p.m, new Q[]{w}));
    }
    public static Value RVar(Value x, Value i, Value k) {
        Q p = flat(of(x));
        if (p == NAN) return out(NAN);
        Q[] g = new Q[((IntValue) k).val];
        for (int j = 0; j < g.length; j++) g[j] = j == ((IntValue) i).val - 1 ? UNIT : ZERO;
        return out(new Q(p.n, p.d, p.m, g));
    }
    /** magnitude of a number, and the same value without its history */
    public static Value RMag(Value x) { Q p = of(x); return out(p == NAN ? NAN : ofDouble(p.m, 0, null)); }
    private static Q bare(Q a) { return a == NAN ? NAN : new Q(a.n, a.d, Math.abs(val(a)), null); }
    public static Value RBare(Value x) { return out(bare(of(x))); }
    /** inverse of a square matrix by exact elimination; << >> when it is singular */
    public static Value RInverse(Value A) {
        Value[] rows = seq(A);
        int n = rows.length;
        Q[][] a = new Q[n][2 * n];
        for (int i = 0; i < n; i++) {
            Value[] r = seq(rows[i]);
            for (int j = 0; j < n; j++) { a[i][j] = bare(of(r[j])); a[i][n + j] = i == j ? UNIT : ZERO; if (a[i][j] == NAN) return new TupleValue(new Value[0]); }
        }
        for (int k = 0; k < n; k++) {
            int p = -1;
            for (int i = k; i < n; i++) if (a[i][k].n.signum() != 0 && (p < 0 || Math.abs(val(a[i][k])) > Math.abs(val(a[p][k])))) p = i;
            if (p < 0) return new TupleValue(new Value[0]);
            Q[] t = a[p]; a[p] = a[k]; a[k] = t;
            Q f = recip(a[k][k]);
            for (int j = k; j < 2 * n; j++) if (a[k][j].n.signum() != 0) a[k][j] = bare(mul(a[k][j], f));
            for (int i = 0; i < n; i++) if (i != k && a[i][k].n.signum() != 0) {
                Q g = neg(a[i][k]);
                for (int j = k; j < 2 * n; j++) if (a[k][j].n.signum() != 0) a[i][j] = bare(add(a[i][j], mul(g, a[k][j])));
            }
        }
        Value[] r = new Value[n];
        for (int i = 0; i < n; i++) {
            Value[] c = new Value[n];
            for (int j = 0; j < n; j++) c[j] = out(a[i][n + j]);
            r[i] = new TupleValue(c);
        }
        return new TupleValue(r);
    }
}
