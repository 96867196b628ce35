package tlc2.module;

import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.*;

/**
 * TLC module override for spec/Float64.tla.
 *
 * A number is a TLA+ string in canonical form:
 *   - an integral double with |v| < 2^53 is its decimal numeral ("3", "-17"); both zeros are "0"
 *   - "nan", "inf", "-inf"
 *   - any other double is "x" followed by the 16 hex digits of its IEEE-754 bits
 * so that TLA+ equality of two numbers is identity of the doubles they denote
 * (the sign of zero and NaN payloads are abstracted away).
 */
public class Float64 {
    private static final ConcurrentHashMap<String, Double> CACHE = new ConcurrentHashMap<>();
    private static final StringValue[] SMALL = new StringValue[4097];
    static {
        for (int i = 0; i <= 4096; i++) SMALL[i] = new StringValue(Integer.toString(i - 2048));
    }

    static double parse(String s) {
        final char c = s.charAt(0);
        final int n = s.length();
        if (c >= '0' && c <= '9' || (c == '-' && n > 1 && s.charAt(1) != 'i')) {
            return s.indexOf('.') < 0 ? (double) Long.parseLong(s) : Double.parseDouble(s);
        }
        switch (s) {
            case "nan": return Double.NaN;
            case "inf": return Double.POSITIVE_INFINITY;
            case "-inf": return Double.NEGATIVE_INFINITY;
            default: break;
        }
        if (c == 'x' && n == 17) return Double.longBitsToDouble(Long.parseUnsignedLong(s.substring(1), 16));
        throw new IllegalArgumentException("not a number: " + s);
    }

    static double d(Value v) {
        final String s = ((StringValue) v).val.toString();
        Double r = CACHE.get(s);
        if (r == null) {
            r = parse(s);
            if (CACHE.size() < 2_000_000) CACHE.put(s, r);
        }
        return r;
    }

    static Value v(double x) {
        if (x == 0.0) return SMALL[2048];
        if (x != x) return new StringValue("nan");
        if (Double.isInfinite(x)) return new StringValue(x > 0 ? "inf" : "-inf");
        if (x == Math.rint(x) && Math.abs(x) < 9007199254740992.0) {
            final long l = (long) x;
            if (l >= -2048 && l <= 2048) return SMALL[(int) l + 2048];
            return new StringValue(Long.toString(l));
        }
        return new StringValue("x" + String.format("%016x", Double.doubleToLongBits(x)));
    }

    static Value b(boolean x) { return x ? SMALL[2049] : SMALL[2048]; }

    // ---- arithmetic ---------------------------------------------------------------------
    public static Value FAdd(Value a, Value c) { return v(d(a) + d(c)); }
    public static Value FSub(Value a, Value c) { return v(d(a) - d(c)); }
    public static Value FMul(Value a, Value c) {
        final double x = d(a), y = d(c);
        return (x == 0.0 || y == 0.0) ? SMALL[2048] : v(x * y);
    }
    public static Value FDiv(Value a, Value c) { return v(d(a) / d(c)); }
    public static Value FMod(Value a, Value c) {
        final double x = d(a), y = d(c);
        if (y == 0.0) return v(Double.NaN);
        double r = x % y;
        if (r != 0.0 && ((r < 0) != (y < 0))) r += y;
        return v(r);
    }
    public static Value FRem(Value a, Value c) { return v(d(a) % d(c)); }
    public static Value FPow(Value a, Value c) { return v(Math.pow(d(a), d(c))); }
    public static Value FMin(Value a, Value c) { final double x = d(a), y = d(c); return v(y < x ? y : x); }
    public static Value FMax(Value a, Value c) { final double x = d(a), y = d(c); return v(y > x ? y : x); }
    public static Value FNeg(Value a) { return v(-d(a)); }
    public static Value FAbs(Value a) { return v(Math.abs(d(a))); }
    public static Value FSign(Value a) { return v(Math.signum(d(a))); }
    public static Value FFloor(Value a) { return v(Math.floor(d(a))); }
    public static Value FCeil(Value a) { return v(Math.ceil(d(a))); }
    /** round half to even */
    public static Value FRint(Value a) { return v(Math.rint(d(a))); }
    public static Value FTrunc(Value a) { final double x = d(a); return v(x < 0 ? Math.ceil(x) : Math.floor(x)); }

    // ---- comparisons (numbers 1 / 0) ----------------------------------------------------
    public static Value FEq(Value a, Value c) { return b(d(a) == d(c)); }
    public static Value FNe(Value a, Value c) { return b(d(a) != d(c)); }
    public static Value FLt(Value a, Value c) { return b(d(a) < d(c)); }
    public static Value FLe(Value a, Value c) { return b(d(a) <= d(c)); }
    public static Value FGt(Value a, Value c) { return b(d(a) > d(c)); }
    public static Value FGe(Value a, Value c) { return b(d(a) >= d(c)); }

    // ---- transcendental (StrictMath) ----------------------------------------------------
    public static Value FUn(Value op, Value a) {
        final double x = d(a);
        switch (((StringValue) op).val.toString()) {
            case "Sin": return v(StrictMath.sin(x));
            case "Cos": return v(StrictMath.cos(x));
            case "Tan": return v(StrictMath.tan(x));
            case "Sinh": return v(StrictMath.sinh(x));
            case "Cosh": return v(StrictMath.cosh(x));
            case "Tanh": return v(StrictMath.tanh(x));
            case "Arcsin": return v(StrictMath.asin(x));
            case "Arccos": return v(StrictMath.acos(x));
            case "Arctan": return v(StrictMath.atan(x));
            case "Log": return v(StrictMath.log(x));
            case "Sqrt": return v(Math.sqrt(x));
            default: throw new IllegalArgumentException(op.toString());
        }
    }
    public static Value FAtan2(Value a, Value c) { return v(StrictMath.atan2(d(a), d(c))); }

    // ---- integers -----------------------------------------------------------------------
    public static Value FIsInt(Value a) {
        final double x = d(a);
        return (x == Math.rint(x) && Math.abs(x) <= 1073741823.0) ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    public static Value FToInt(Value a) { return IntValue.gen((int) d(a)); }
    public static Value FOfInt(Value a) { return v((double) ((IntValue) a).val); }

    /** |a-c| <= ulps * ulp(max(|a|,|c|)), or both NaN, or equal. */
    public static Value FNear(Value a, Value c, Value ulps) {
        final double x = d(a), y = d(c);
        if (x == y || (x != x && y != y)) return BoolValue.ValTrue;
        if (x != x || y != y || Double.isInfinite(x) || Double.isInfinite(y)) return BoolValue.ValFalse;
        final double u = Math.ulp(Math.max(Math.abs(x), Math.abs(y)));
        return Math.abs(x - y) <= ((IntValue) ulps).val * u ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    public static Value FClose(Value a, Value c, Value ulps) {
        final double x = d(a), y = d(c);
        return Math.abs(x - y) <= ((IntValue) ulps).val * Math.ulp(1.0) ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
}
