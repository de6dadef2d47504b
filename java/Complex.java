import tlc2.value.impl.*;

/** TLC overrides for spec/Complex.tla: a complex number is <<re, im>> of Float64 pairs. */
public class Complex {
    static double[] c(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        return new double[] { Float64.d(t.elems[0]), Float64.d(t.elems[1]) };
    }
    static Value v(double re, double im) {
        return new TupleValue(new Value[] { Float64.v(re), Float64.v(im) });
    }
    public static Value CAdd(Value x, Value y) { double[] a = c(x), b = c(y); return v(a[0] + b[0], a[1] + b[1]); }
    public static Value CSub(Value x, Value y) { double[] a = c(x), b = c(y); return v(a[0] - b[0], a[1] - b[1]); }
    public static Value CMul(Value x, Value y) {
        double[] a = c(x), b = c(y);
        return v(a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]);
    }
    public static Value CDiv(Value x, Value y) {
        double[] a = c(x), b = c(y); double n = b[0] * b[0] + b[1] * b[1];
        return v((a[0] * b[0] + a[1] * b[1]) / n, (a[1] * b[0] - a[0] * b[1]) / n);
    }
    public static Value CNeg(Value x) { double[] a = c(x); return v(-a[0], -a[1]); }
    public static Value CConj(Value x) { double[] a = c(x); return v(a[0], -a[1]); }
    public static Value CScale(Value s, Value x) { double f = Float64.d(s); double[] a = c(x); return v(f * a[0], f * a[1]); }
    public static Value CAbs(Value x) { double[] a = c(x); return Float64.v(Math.hypot(a[0], a[1])); }
    public static Value CArg(Value x) { double[] a = c(x); return Float64.v(Math.atan2(a[1], a[0])); }
    public static Value CExpJ(Value t) { double f = Float64.d(t); return v(Math.cos(f), Math.sin(f)); }
    public static Value CSum(Value s) {
        TupleValue t = (TupleValue) s.toTuple(); double re = 0, im = 0;
        for (Value e : t.elems) { double[] a = c(e); re += a[0]; im += a[1]; }
        return v(re, im);
    }
    public static Value CDot(Value s, Value u) {
        TupleValue t = (TupleValue) s.toTuple(), w = (TupleValue) u.toTuple(); double re = 0, im = 0;
        for (int k = 0; k < t.elems.length; k++) {
            double[] a = c(t.elems[k]), b = c(w.elems[k]);
            re += a[0] * b[0] - a[1] * b[1]; im += a[0] * b[1] + a[1] * b[0];
        }
        return v(re, im);
    }
    /** |x-y| <= atol + rtol*|y| in the complex plane; NaN never close. */
    public static Value CClose(Value x, Value y, Value rtol, Value atol) {
        double[] a = c(x), b = c(y);
        return Float64.b(Math.hypot(a[0] - b[0], a[1] - b[1])
                <= Float64.d(atol) + Float64.d(rtol) * Math.hypot(b[0], b[1]));
    }
}
