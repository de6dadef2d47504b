import tlc2.value.impl.*;

/**
 * TLC operator overrides for spec/Float64.tla.
 *
 * A double is the TLA+ pair <<hi, lo>>: the two signed 32-bit halves of its
 * IEEE-754 bit pattern (TLC integers are 32 bits wide).  Every method below is
 * one IEEE operation, a fold of IEEE operations with a TLA+ reference
 * definition in Float64.tla/Complex.tla, or java.lang.Math's elementary
 * function.
 */
public class Float64 {
    static double d(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        long hi = ((IntValue) t.elems[0]).val;
        long lo = ((IntValue) t.elems[1]).val & 0xffffffffL;
        return Double.longBitsToDouble((hi << 32) | lo);
    }
    static Value v(double x) {
        long b = Double.doubleToLongBits(x);
        return new TupleValue(new Value[] { IntValue.gen((int) (b >> 32)), IntValue.gen((int) b) });
    }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    static int i(Value v) { return ((IntValue) v).val; }
    static double[] dv(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        double[] r = new double[t.elems.length];
        for (int k = 0; k < r.length; k++) r[k] = d(t.elems[k]);
        return r;
    }
    static Value vv(double[] x) {
        Value[] r = new Value[x.length];
        for (int k = 0; k < r.length; k++) r[k] = v(x[k]);
        return new TupleValue(r);
    }

    public static Value FAdd(Value x, Value y) { return v(d(x) + d(y)); }
    public static Value FSub(Value x, Value y) { return v(d(x) - d(y)); }
    public static Value FMul(Value x, Value y) { return v(d(x) * d(y)); }
    public static Value FDiv(Value x, Value y) { return v(d(x) / d(y)); }
    public static Value FPow(Value x, Value y) { return v(Math.pow(d(x), d(y))); }
    public static Value FPowI(Value x, Value n) {
        double r = 1, a = d(x); int k = i(n);
        for (int q = 0; q < Math.abs(k); q++) r *= a;
        return v(k < 0 ? 1 / r : r);
    }
    public static Value FNeg(Value x) { return v(-d(x)); }
    public static Value FAbs(Value x) { return v(Math.abs(d(x))); }
    public static Value FSqrt(Value x) { return v(Math.sqrt(d(x))); }
    public static Value FSin(Value x) { return v(Math.sin(d(x))); }
    public static Value FCos(Value x) { return v(Math.cos(d(x))); }
    public static Value FExp(Value x) { return v(Math.exp(d(x))); }
    public static Value FLog(Value x) { return v(Math.log(d(x))); }
    public static Value FTanh(Value x) { return v(Math.tanh(d(x))); }
    public static Value FSinh(Value x) { return v(Math.sinh(d(x))); }
    public static Value FAtan2(Value y, Value x) { return v(Math.atan2(d(y), d(x))); }
    public static Value FMax(Value x, Value y) { return v(Math.max(d(x), d(y))); }
    public static Value FMin(Value x, Value y) { return v(Math.min(d(x), d(y))); }
    public static Value FLt(Value x, Value y) { return b(d(x) < d(y)); }
    public static Value FLe(Value x, Value y) { return b(d(x) <= d(y)); }
    public static Value FEq(Value x, Value y) { return b(d(x) == d(y)); }
    public static Value FIsNaN(Value x) { return b(Double.isNaN(d(x))); }
    public static Value FIsFinite(Value x) { return b(!Double.isNaN(d(x)) && !Double.isInfinite(d(x))); }
    public static Value FI(Value n) { return v(i(n)); }
    public static Value FDec(Value n, Value e) {
        // n * 10^e, correctly rounded
        return v(new java.math.BigDecimal(i(n)).scaleByPowerOfTen(i(e)).doubleValue());
    }
    public static Value FStr(Value s) { return v(Double.parseDouble(((StringValue) s).val.toString())); }
    public static Value FShow(Value x) { return new StringValue(Double.toString(d(x))); }
    public static Value FFloor(Value x) { return v(Math.floor(d(x))); }
    public static Value FToInt(Value x) { return IntValue.gen((int) d(x)); }
    public static Value FRoundHalfEven(Value x) { return v(Math.rint(d(x))); }

    // ---- vectors (sequences of doubles) -------------------------------
    public static Value FSum(Value s) {
        double r = 0; for (double x : dv(s)) r += x; return v(r);
    }
    public static Value FDot(Value s, Value t) {
        double[] a = dv(s), c = dv(t); double r = 0;
        for (int k = 0; k < a.length; k++) r += a[k] * c[k];
        return v(r);
    }
    public static Value FMaxSeq(Value s) {
        double r = Double.NEGATIVE_INFINITY; for (double x : dv(s)) r = Math.max(r, x); return v(r);
    }
    public static Value FMinSeq(Value s) {
        double r = Double.POSITIVE_INFINITY; for (double x : dv(s)) r = Math.min(r, x); return v(r);
    }
    public static Value FMaxAbs(Value s) {
        double r = 0; for (double x : dv(s)) r = Math.max(r, Math.abs(x)); return v(r);
    }
    /** |x-y| <= atol + rtol*|y|, NaN never close */
    public static Value FClose(Value x, Value y, Value rtol, Value atol) {
        double a = d(x), c = d(y);
        return b(a == c || Math.abs(a - c) <= d(atol) + d(rtol) * Math.abs(c));
    }
    /** index (1-based) of the first element that is not close, 0 if none, -1 if the lengths differ */
    public static Value FFirstFar(Value s, Value t, Value rtol, Value atol) {
        double[] a = dv(s), c = dv(t); double rt = d(rtol), at = d(atol);
        if (a.length != c.length) return IntValue.gen(-1);
        for (int k = 0; k < a.length; k++)
            if (!(a[k] == c[k] || Math.abs(a[k] - c[k]) <= at + rt * Math.abs(c[k])))
                return IntValue.gen(k + 1);
        return IntValue.gen(0);
    }
    public static Value FLinspace(Value a, Value z, Value n) {
        int m = i(n); double x = d(a), y = d(z); double[] r = new double[m];
        for (int k = 0; k < m; k++) r[k] = k == m - 1 && m > 1 ? y : x + (y - x) * k / (m - 1.0);
        if (m == 1) r[0] = x;
        return vv(r);
    }
    /** J_n(x) by the ascending series; |x| small enough (|x| <= 12) to be accurate to ~1e-11. */
    public static Value FBesselJ(Value n, Value x) { return v(jn(i(n), d(x))); }
    static double jn(int n, double x) {
        if (n < 0) { double r = jn(-n, x); return (n % 2 == 0) ? r : -r; }
        if (x < 0) { double r = jn(n, -x); return (n % 2 == 0) ? r : -r; }
        if (!(x <= 1e4)) return Double.NaN;
        if (x < 1) {                                  // power series: no cancellation here
            double h = x / 2, t = 1, r = 0;
            for (int k = 1; k <= n; k++) t *= h / k;
            for (int k = 0; k < 60; k++) {
                r += t;
                t *= -(h * h) / ((k + 1.0) * (n + k + 1.0));
            }
            return r;
        }
        // Miller's backward recurrence, normalised with J0 + 2 (J2 + J4 + ..) = 1
        int top = (int) Math.max(n, x) + 60 + (int) (3 * Math.sqrt(Math.max(n, x)));
        double next = 0, here = 1e-300, sum = 0, r = 0;
        for (int k = top; k >= 0; k--) {
            if (k == n) r = here;
            if (k % 2 == 0) sum += (k == 0) ? here : 2 * here;
            double below = 2.0 * k / x * here - next;
            next = here; here = below;
            if (Math.abs(here) > 1e200) { here *= 1e-200; next *= 1e-200; sum *= 1e-200; r *= 1e-200; }
        }
        return r / sum;
    }
}
