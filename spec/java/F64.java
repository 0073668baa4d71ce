import tlc2.value.impl.*;

/** TLC override of module F64: IEEE-754 doubles as <<hi, lo>> pairs of ints. */
public class F64 {
    private static double d(final Value v) {
        final TupleValue t = (TupleValue) v.toTuple();
        final int hi = ((IntValue) t.elems[0]).val, lo = ((IntValue) t.elems[1]).val;
        return Double.longBitsToDouble(((long) hi << 32) | (lo & 0xffffffffL));
    }
    private static Value v(final double x) {
        final long b = Double.doubleToLongBits(x);
        return new TupleValue(new Value[] { IntValue.gen((int) (b >> 32)), IntValue.gen((int) b) });
    }
    private static Value b(final boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    private static int i(final Value n) { return ((IntValue) n).val; }

    public static Value FInt(final Value n) { return v(i(n)); }
    public static Value FPow2(final Value k) { return v(Math.pow(2.0, i(k))); }
    public static Value FParse(final Value s) { return v(Double.parseDouble(((StringValue) s).val.toString())); }
    public static Value FAdd(final Value a, final Value c) { return v(d(a) + d(c)); }
    public static Value FSub(final Value a, final Value c) { return v(d(a) - d(c)); }
    public static Value FMul(final Value a, final Value c) { return v(d(a) * d(c)); }
    public static Value FDiv(final Value a, final Value c) { return v(d(a) / d(c)); }
    public static Value FNeg(final Value a) { return v(-d(a)); }
    public static Value FAbs(final Value a) { return v(Math.abs(d(a))); }
    public static Value FLn(final Value a) { return v(Math.log(d(a))); }
    public static Value FSqrt(final Value a) { return v(Math.sqrt(d(a))); }
    public static Value FLe(final Value a, final Value c) { return b(d(a) <= d(c)); }
    public static Value FLt(final Value a, final Value c) { return b(d(a) < d(c)); }
    public static Value FFinite(final Value a) { return b(Double.isFinite(d(a))); }
    public static Value FIsNaN(final Value a) { return b(Double.isNaN(d(a))); }
    public static Value FClose(final Value a, final Value c, final Value dg, final Value s) {
        final double x = d(a), y = d(c);
        if (!Double.isFinite(x) || !Double.isFinite(y)) return b(false);
        return b(Math.abs(x - y) <= Math.pow(10.0, -i(dg)) * (Math.abs(x) + Math.abs(y) + d(s)));
    }
    public static Value FTruncStr(final Value a) {
        return new StringValue(new java.math.BigDecimal(d(a)).toBigInteger().toString());
    }
    public static Value FShow(final Value a) { return new StringValue(Double.toString(d(a))); }
}
