import java.math.BigInteger;
import tlc2.value.impl.*;

/**
 * TLC overrides of the operators declared in Rat.tla: exact arithmetic on
 * rationals, written as canonical strings "n" or "n/d" (gcd(n,d)=1, d>1).
 * Pure functions without state; nothing here knows about Carbon.
 */
public class Rat {

    private static final class Q {
        final BigInteger n, d;
        /** not a number: the result of a division by zero or of an argument that is no rational */
        boolean nan() { return d.signum() == 0; }
        Q(BigInteger n, BigInteger d) {
            if (d.signum() == 0) { this.n = BigInteger.ZERO; this.d = d; return; }
            if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
            if (!d.equals(BigInteger.ONE)) {
                BigInteger g = n.gcd(d);
                if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
            }
            this.n = n; this.d = d;
        }
    }

    private static final Q NAN = new Q(BigInteger.ZERO, BigInteger.ZERO);

    private static Q q(Value v) {
        if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val), BigInteger.ONE);
        if (!(v instanceof StringValue)) return NAN;
        util.UniqueString u = ((StringValue) v).val;
        Entry e = CACHE[u.hashCode() & MASK];
        if (e != null && e.u == u) return e.q;
        Q x = parse(u.toString());
        CACHE[u.hashCode() & MASK] = new Entry(u, x);
        return x;
    }

    /* values parsed or computed recently: strings are interned by TLC */
    private static final class Entry {
        final util.UniqueString u; final Q q;
        Entry(util.UniqueString u, Q q) { this.u = u; this.q = q; }
    }
    private static final int MASK = 0xffff;
    private static final Entry[] CACHE = new Entry[MASK + 1];

    private static Q parse(String s) {
        int i = s.indexOf('/');
        try {
            if (i < 0) return new Q(new BigInteger(s), BigInteger.ONE);
            return new Q(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)));
        } catch (NumberFormatException e) {
            return NAN;
        }
    }
    private static Value v(Q x) {
        if (x.nan()) return new StringValue("nan");
        x = trim(x, 1500, 400);
        StringValue r = new StringValue(x.d.equals(BigInteger.ONE) ? x.n.toString() : x.n + "/" + x.d);
        CACHE[r.val.hashCode() & MASK] = new Entry(r.val, x);
        return r;
    }
    private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    private static int cmp(Q a, Q b) { return a.n.multiply(b.d).compareTo(b.n.multiply(a.d)); }
    private static boolean cmp2(Value a, Value c, java.util.function.IntPredicate p) {
        Q x = q(a), y = q(c);
        return !x.nan() && !y.nan() && p.test(cmp(x, y));
    }
    private static Q add(Q a, Q b) { return new Q(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d)); }
    private static Q neg(Q a) { return new Q(a.n.negate(), a.d); }
    private static Q mul(Q a, Q b) { return new Q(a.n.multiply(b.n), a.d.multiply(b.d)); }
    private static Q abs(Q a) { return a.n.signum() < 0 ? neg(a) : a; }
    private static Q max(Q a, Q b) { return a.nan() || b.nan() ? NAN : cmp(a, b) >= 0 ? a : b; }

    public static Value RCanon(Value a) { return v(q(a)); }
    public static Value RAdd(Value a, Value b) { return v(add(q(a), q(b))); }
    public static Value RSub(Value a, Value b) { return v(add(q(a), neg(q(b)))); }
    public static Value RMul(Value a, Value b) { return v(mul(q(a), q(b))); }
    public static Value RDiv(Value a, Value b) { Q x = q(a), y = q(b); return v(new Q(x.n.multiply(y.d), x.d.multiply(y.n))); }
    public static Value RNeg(Value a) { return v(neg(q(a))); }
    public static Value RAbs(Value a) { return v(abs(q(a))); }
    public static Value RLt(Value a, Value c) { return b(cmp2(a, c, k -> k < 0)); }
    public static Value RLe(Value a, Value c) { return b(cmp2(a, c, k -> k <= 0)); }
    public static Value RGt(Value a, Value c) { return b(cmp2(a, c, k -> k > 0)); }
    public static Value RGe(Value a, Value c) { return b(cmp2(a, c, k -> k >= 0)); }
    public static Value REq(Value a, Value c) { return b(cmp2(a, c, k -> k == 0)); }
    public static Value RMin(Value a, Value c) { Q x = q(a), y = q(c); return v(x.nan() || y.nan() ? NAN : cmp(x, y) <= 0 ? x : y); }
    public static Value RMax(Value a, Value c) { return v(max(q(a), q(c))); }

    /** |a-b| <= abs + rel * max(|a|,|b|) */
    public static Value RNear(Value a, Value c, Value rel, Value ab) {
        Q x = q(a), y = q(c);
        if (x.nan() || y.nan()) return b(false);
        Q lim = add(q(ab), mul(q(rel), max(abs(x), abs(y))));
        return b(cmp(abs(add(x, neg(y))), lim) <= 0);
    }
    private static BigInteger floor(Q a) {
        BigInteger[] r = a.n.divideAndRemainder(a.d);
        return r[1].signum() < 0 ? r[0].subtract(BigInteger.ONE) : r[0];
    }
    public static Value RFloor(Value a) { return q(a).nan() ? v(NAN) : v(new Q(floor(q(a)), BigInteger.ONE)); }
    public static Value RCeil(Value a) { return q(a).nan() ? v(NAN) : v(new Q(floor(neg(q(a))).negate(), BigInteger.ONE)); }
    public static Value RIsInt(Value a) { return b(q(a).d.equals(BigInteger.ONE)); }
    /** a^n for an integer n (a TLC integer) */
    public static Value RPow(Value a, Value n) {
        int k = ((IntValue) n).val;
        Q x = q(a);
        if (k >= 0) return v(new Q(x.n.pow(k), x.d.pow(k)));
        return v(new Q(x.d.pow(-k), x.n.pow(-k)));
    }
    /** exact root if a is the square of a rational, else rounded down to 2^-120 relative */
    public static Value RSqrt(Value a) {
        Q x = q(a);
        if (x.nan() || x.n.signum() < 0) return v(NAN);
        if (x.n.signum() == 0) return v(x);
        BigInteger rn = x.n.sqrt(), rd = x.d.sqrt();
        if (rn.multiply(rn).equals(x.n) && rd.multiply(rd).equals(x.d)) return v(new Q(rn, rd));
        int sh = 240 + 2 * Math.max(0, x.d.bitLength() - x.n.bitLength());
        sh += sh & 1;
        BigInteger r = x.n.shiftLeft(sh).divide(x.d).sqrt();
        return v(new Q(r, BigInteger.ONE.shiftLeft(sh / 2)));
    }
    /** floor of the integer square root */
    public static Value RISqrt(Value a) { return q(a).nan() || q(a).n.signum() < 0 ? v(NAN) : v(new Q(floor(q(a)).sqrt(), BigInteger.ONE)); }
    /** x, rounded down to a mantissa of m bits if numerator and denominator have more than lim bits together */
    private static Q trim(Q x, int lim, int m) {
        if (x.nan() || x.n.bitLength() + x.d.bitLength() <= lim || x.n.signum() == 0) return x;
        int e = m - (x.n.bitLength() - x.d.bitLength());
        if (e >= 0) return new Q(x.n.shiftLeft(e).divide(x.d), BigInteger.ONE.shiftLeft(e));
        return new Q(x.n.divide(x.d.shiftLeft(-e)).shiftLeft(-e), BigInteger.ONE);
    }
    public static Value RTrim(Value a) { return v(trim(q(a), 600, 200)); }
    /** TRUE iff the argument is a rational number */
    public static Value RIsNum(Value a) { return b(!q(a).nan()); }
    /** number of bits of the integer part of |a| (0 for 0) as TLC integer */
    public static Value RBits(Value a) { return IntValue.gen(q(a).nan() ? 0 : floor(abs(q(a))).bitLength()); }
    /** TLC integer of a small integer rational */
    public static Value RToInt(Value a) { return IntValue.gen(q(a).nan() ? -999999 : floor(q(a)).min(BigInteger.valueOf(999999999)).max(BigInteger.valueOf(-999999999)).intValueExact()); }
}
