// TLC module override for FixMath.tla: the same definitions on 64-bit integers.
import tlc2.value.impl.*;

public class FixMath {
    static final long S = 65536, S24 = 16777216L, LN2S24 = 11629080L, LN2 = 45426;
    static final long NaN = -2147483647L, PInf = 2147483647L, NInf = -2147483646L, Big = 2147483646L;
    static boolean isNum(long a) { return a > -2147483600L && a < 2147483600L; }
    static boolean isInf(long a) { return a == PInf || a == NInf; }
    static long norm(long a) { return (a >= 2147483600L || a <= -2147483600L) ? Big : a; }
    static long fdiv(long a, long b) { return Math.floorDiv(a, b); }
    static long muldiv(long a, long b, long c) { return fdiv(2*a*b + c, 2*c); }
    static long neg(long a) { return a == NaN || a == Big ? a : a == PInf ? NInf : a == NInf ? PInf : -a; }
    static long add(long a, long b) {
        if(a == NaN || b == NaN) return NaN;
        if(a == Big || b == Big) return Big;
        if(isInf(a)) return (isInf(b) && b != a) ? NaN : a;
        if(isInf(b)) return b;
        return norm(a+b);
    }
    static long mul(long a, long b) {
        if(a == NaN || b == NaN) return NaN;
        if(a == Big || b == Big) return Big;
        if(isInf(a) || isInf(b)) return (a == 0 || b == 0) ? NaN : ((a > 0) == (b > 0)) ? PInf : NInf;
        return norm(muldiv(a, b, S));
    }
    static long div(long a, long b) {
        if(a == NaN || b == NaN) return NaN;
        if(a == Big || b == Big) return Big;
        if(isInf(a)) return isInf(b) ? NaN : ((a > 0) == (b >= 0)) ? PInf : NInf;
        if(isInf(b)) return 0;
        if(b == 0) return a == 0 ? NaN : a > 0 ? PInf : NInf;
        return b > 0 ? norm(muldiv(a, S, b)) : norm(muldiv(-a, S, -b));
    }
    static long isqrt(long a, long b) {
        long x = a*b;
        long r = (long)Math.sqrt((double)x);
        while(r*r > x) --r;
        while((r+1)*(r+1) <= x) ++r;
        return x - r*r > r ? r+1 : r;
    }
    static long sqrt(long a) {
        if(a == NaN || a == Big) return a;
        if(a == PInf) return PInf;
        return a < 0 ? NaN : isqrt(a, S);
    }
    static long hypot(long a, long b) {
        if(a == NaN || b == NaN) return NaN;
        if(a == Big || b == Big) return Big;
        if(isInf(a) || isInf(b)) return PInf;
        return norm(isqrt(a*a + b*b, 1));
    }
    static long exp(long a) {
        if(a == NaN || a == Big) return a;
        if(a == PInf) return PInf;
        if(a == NInf) return 0;
        if(a < -12*S) return 0;
        if(a > 681500) return Big;
        long n = fdiv(a*256, LN2S24), r = a*256 - n*LN2S24;
        long t = r, p = S24 + t;
        for(long i = 2; i <= 8; ++i) { t = muldiv(t, r, i*S24); p += t; }
        return n >= 0 ? norm(muldiv(p, 1L << n, 256)) : muldiv(p, 1, 256*(1L << -n));
    }
    static long ln(long a) {
        if(a == NaN || a == Big || a == PInf) return a;
        if(a == 0) return NInf;
        if(a < 0) return NaN;
        long m = a, n = 0;
        while(m >= 2*S || m < S) { if(m >= 2*S) { m = fdiv(m+1, 2); ++n; } else { m = 2*m; --n; } }
        long u = muldiv(m-S, S24, m+S), u2 = muldiv(u, u, S24);
        long v = u, s = u;
        for(long i = 3; i <= 11; i += 2) { v = muldiv(v, u2, S24); s += muldiv(v, 1, i); }
        return muldiv(s, 2, 256) + n*LN2;
    }
    static long tanh(long a) {
        if(a == NaN || a == Big) return a;
        if(a > 8*S) return S;
        if(a < -8*S) return -S;
        if(a >= 0) { long e = exp(-2*a); return div(S-e, S+e); }
        long e = exp(2*a); return div(e-S, S+e);
    }
    static long erf(long a) {
        if(a == NaN || a == Big) return a;
        if(a > 4*S) return S;
        if(a < -4*S) return -S;
        long x = Math.abs(a);
        long t = muldiv(S, S, S + muldiv(21470, x, S));
        long p1 = muldiv(69561, t, S) - 95232, p2 = muldiv(p1, t, S) + 93155,
             p3 = muldiv(p2, t, S) - 18645, p4 = muldiv(p3, t, S) + 16700, p5 = muldiv(p4, t, S);
        long y = S - muldiv(p5, exp(-muldiv(x, x, S)), S);
        return a >= 0 ? y : -y;
    }
    static long ipow(long a, long n) { long r = S; for(long i = 0; i < n; ++i) r = mul(r, a); return r; }
    static long pow(long a, long e) {
        if(Math.floorMod(e, S) == 0) return e >= 0 ? ipow(a, fdiv(e, S)) : div(S, ipow(a, fdiv(-e, S)));
        if(a == 0) return e > 0 ? 0 : PInf;
        return exp(mul(e, ln(a)));
    }
    static boolean close(long a, long b, long tol, long rel) {
        if(b == Big) return true;
        if(!isNum(a) || !isNum(b)) return a == b;
        return Math.abs(a-b) <= tol + (rel == 0 ? 0 : Math.abs(b) >> rel);
    }
    static long v(IntValue a) { return a.val; }
    static IntValue i(long a) {
        if(a > Integer.MAX_VALUE || a < Integer.MIN_VALUE) throw new RuntimeException("FixMath overflow " + a);
        return IntValue.gen((int)a);
    }
    public static IntValue MulDiv(IntValue a, IntValue b, IntValue c) { return i(muldiv(v(a), v(b), v(c))); }
    public static IntValue FNeg(IntValue a) { return i(neg(v(a))); }
    public static IntValue FAdd(IntValue a, IntValue b) { return i(add(v(a), v(b))); }
    public static IntValue FSub(IntValue a, IntValue b) { return i(add(v(a), neg(v(b)))); }
    public static IntValue FMul(IntValue a, IntValue b) { return i(mul(v(a), v(b))); }
    public static IntValue FDiv(IntValue a, IntValue b) { return i(div(v(a), v(b))); }
    public static IntValue ISqrt(IntValue a, IntValue b) { return i(isqrt(v(a), v(b))); }
    public static IntValue FSqrt(IntValue a) { return i(sqrt(v(a))); }
    public static IntValue FHypot(IntValue a, IntValue b) { return i(hypot(v(a), v(b))); }
    public static IntValue FExp(IntValue a) { return i(exp(v(a))); }
    public static IntValue FLn(IntValue a) { return i(ln(v(a))); }
    public static IntValue FTanh(IntValue a) { return i(tanh(v(a))); }
    public static IntValue FErf(IntValue a) { return i(erf(v(a))); }
    public static IntValue FPow(IntValue a, IntValue e) { return i(pow(v(a), v(e))); }
    static Value[] elems(Value s) {
        Value t = s.toTuple();
        if(t == null) throw new RuntimeException("FixMath: not a sequence");
        return ((TupleValue)t).elems;
    }
    static long max(long a, long b) {
        if(a == NaN) return b;
        if(b == NaN) return a;
        if(a == Big || b == Big) return Big;
        if(a == NInf) return b;
        if(b == NInf) return a;
        return a >= b ? a : b;
    }
    public static IntValue FSum(Value s) {
        long r = 0; Value[] e = elems(s);
        for(int k = e.length; k > 0; --k) r = add(((IntValue)e[k-1]).val, r);
        return i(r);
    }
    public static IntValue FMaxSeq(Value s) {
        long r = NInf; Value[] e = elems(s);
        for(int k = e.length; k > 0; --k) r = max(((IntValue)e[k-1]).val, r);
        return i(r);
    }
    public static BoolValue Close(IntValue a, IntValue b, IntValue t, IntValue r) {
        return close(v(a), v(b), v(t), v(r)) ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    public static BoolValue AllClose(Value a, Value b, IntValue t, IntValue r) {
        Value[] x = elems(a), y = elems(b);
        for(int k = 0; k < x.length; ++k)
            if(!close(((IntValue)x[k]).val, ((IntValue)y[k]).val, v(t), v(r))) return BoolValue.ValFalse;
        return BoolValue.ValTrue;
    }
}
