package verif;

import java.math.BigInteger;
import tla2sany.semantic.ExprOrOpArgNode;
import tlc2.overrides.Evaluation;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.tool.TLCState;
import tlc2.tool.coverage.CostModel;
import tlc2.tool.impl.Tool;
import tlc2.util.Context;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * Evaluation of the scalar operators of spec/Num.tla with arbitrary precision.
 * Only scalar arithmetic lives here; every formula is written in TLA+.
 * A number is <<re, im, den>> with integers as limb tuples <<sign, l0, l1, ..>>
 * (base 2^15); <<>> is "not a finite number" and absorbs every operation.
 */
public class NumOverrides implements ITLCOverrides {
    public Class[] get() { return new Class[]{NumOverrides.class}; }

    static final int BITS = 15;
    static final BigInteger B1 = BigInteger.ONE, B0 = BigInteger.ZERO;
    static final TupleValue NAN = new TupleValue(new Value[0]);

    static final class C {
        final BigInteger a, b, d;
        C(BigInteger a, BigInteger b, BigInteger d) { this.a = a; this.b = b; this.d = d; }
    }

    static Value[] elems(Value v) {
        Value t = v.toTuple();
        if (t == null) throw new RuntimeException("not a tuple: " + v);
        return ((TupleValue) t).elems;
    }

    static BigInteger bi(Value v) {
        Value[] e = elems(v);
        int s = ((IntValue) e[0]).val;
        if (s == 0) return B0;
        if (e.length <= 5) {
            long x = 0;
            for (int i = e.length - 1; i >= 1; i--) x = (x << BITS) | ((IntValue) e[i]).val;
            return BigInteger.valueOf(s < 0 ? -x : x);
        }
        int n = e.length - 1;
        byte[] mag = new byte[(n * BITS + 7) / 8 + 1];
        for (int i = 0; i < n; i++) {
            int l = ((IntValue) e[i + 1]).val;
            int bit = i * BITS;
            for (int k = 0; k < BITS; k++)
                if (((l >> k) & 1) != 0) {
                    int p = bit + k;
                    mag[mag.length - 1 - (p >> 3)] |= (byte) (1 << (p & 7));
                }
        }
        return new BigInteger(s, mag);
    }

    static Value iv(BigInteger x) {
        int s = x.signum();
        if (s == 0) return new TupleValue(new Value[]{IntValue.gen(0)});
        BigInteger m = x.abs();
        int n = (m.bitLength() + BITS - 1) / BITS;
        Value[] e = new Value[n + 1];
        e[0] = IntValue.gen(s);
        if (n <= 4) {
            long v = m.longValue();
            for (int i = 0; i < n; i++) { e[i + 1] = IntValue.gen((int) (v & 0x7fff)); v >>>= BITS; }
        } else {
            byte[] b = m.toByteArray();
            for (int i = 0; i < n; i++) {
                int val = 0;
                for (int k = BITS - 1; k >= 0; k--) {
                    int p = i * BITS + k, idx = b.length - 1 - (p >> 3);
                    val = (val << 1) | (idx < 0 ? 0 : (b[idx] >> (p & 7)) & 1);
                }
                e[i + 1] = IntValue.gen(val);
            }
        }
        return new TupleValue(e);
    }

    static C cr(Value v) {
        Value[] e = elems(v);
        if (e.length == 0) return null;
        return new C(bi(e[0]), bi(e[1]), bi(e[2]));
    }

    static Value mk(BigInteger a, BigInteger b, BigInteger d) {
        if (d.signum() == 0) return NAN;
        if (d.signum() < 0) { a = a.negate(); b = b.negate(); d = d.negate(); }
        BigInteger g = a.gcd(b).gcd(d);
        if (!g.equals(B1)) { a = a.divide(g); b = b.divide(g); d = d.divide(g); }
        return new TupleValue(new Value[]{iv(a), iv(b), iv(d)});
    }

    @TLAPlusOperator(identifier = "CFrac", module = "Num", warn = false)
    public static Value cfrac(Value a, Value b, Value d) {
        return mk(BigInteger.valueOf(((IntValue) a).val), BigInteger.valueOf(((IntValue) b).val),
                  BigInteger.valueOf(((IntValue) d).val));
    }

    @TLAPlusOperator(identifier = "CAdd", module = "Num", warn = false)
    public static Value cadd(Value x, Value y) {
        C p = cr(x), q = cr(y);
        if (p == null || q == null) return NAN;
        if (p.d.equals(q.d)) return mk(p.a.add(q.a), p.b.add(q.b), p.d);
        return mk(p.a.multiply(q.d).add(q.a.multiply(p.d)),
                  p.b.multiply(q.d).add(q.b.multiply(p.d)), p.d.multiply(q.d));
    }

    @TLAPlusOperator(identifier = "CSub", module = "Num", warn = false)
    public static Value csub(Value x, Value y) {
        C p = cr(x), q = cr(y);
        if (p == null || q == null) return NAN;
        if (p.d.equals(q.d)) return mk(p.a.subtract(q.a), p.b.subtract(q.b), p.d);
        return mk(p.a.multiply(q.d).subtract(q.a.multiply(p.d)),
                  p.b.multiply(q.d).subtract(q.b.multiply(p.d)), p.d.multiply(q.d));
    }

    @TLAPlusOperator(identifier = "CMul", module = "Num", warn = false)
    public static Value cmul(Value x, Value y) {
        C p = cr(x), q = cr(y);
        if (p == null || q == null) return NAN;
        return mk(p.a.multiply(q.a).subtract(p.b.multiply(q.b)),
                  p.a.multiply(q.b).add(p.b.multiply(q.a)), p.d.multiply(q.d));
    }

    @TLAPlusOperator(identifier = "CDiv", module = "Num", warn = false)
    public static Value cdiv(Value x, Value y) {
        C p = cr(x), q = cr(y);
        if (p == null || q == null) return NAN;
        BigInteger n = q.a.multiply(q.a).add(q.b.multiply(q.b));
        return mk(p.a.multiply(q.a).add(p.b.multiply(q.b)).multiply(q.d),
                  p.b.multiply(q.a).subtract(p.a.multiply(q.b)).multiply(q.d), p.d.multiply(n));
    }

    @TLAPlusOperator(identifier = "CConj", module = "Num", warn = false)
    public static Value cconj(Value x) {
        C p = cr(x);
        return p == null ? NAN : mk(p.a, p.b.negate(), p.d);
    }

    @TLAPlusOperator(identifier = "CAbs2", module = "Num", warn = false)
    public static Value cabs2(Value x) {
        C p = cr(x);
        return p == null ? NAN : mk(p.a.multiply(p.a).add(p.b.multiply(p.b)), B0, p.d.multiply(p.d));
    }

    @TLAPlusOperator(identifier = "CRe", module = "Num", warn = false)
    public static Value cre(Value x) {
        C p = cr(x);
        return p == null ? NAN : mk(p.a, B0, p.d);
    }

    @TLAPlusOperator(identifier = "CIm", module = "Num", warn = false)
    public static Value cim(Value x) {
        C p = cr(x);
        return p == null ? NAN : mk(p.b, B0, p.d);
    }

    @TLAPlusOperator(identifier = "CLeq", module = "Num", warn = false)
    public static Value cleq(Value x, Value y) {
        C p = cr(x), q = cr(y);
        if (p == null || q == null) return BoolValue.ValFalse;
        return p.a.multiply(q.d).compareTo(q.a.multiply(p.d)) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    @TLAPlusOperator(identifier = "CRound", module = "Num", warn = false)
    public static Value cround(Value x, Value bits) {
        C p = cr(x);
        if (p == null) return NAN;
        int k = ((IntValue) bits).val;
        return mk(floorDiv(p.a.shiftLeft(k), p.d), floorDiv(p.b.shiftLeft(k), p.d), B1.shiftLeft(k));
    }

    static BigInteger floorDiv(BigInteger a, BigInteger d) {
        BigInteger[] qr = a.divideAndRemainder(d);
        return qr[1].signum() < 0 ? qr[0].subtract(B1) : qr[0];
    }

    /** The first argument, or the second if the first cannot be evaluated. */
    @Evaluation(definition = "Total", module = "TraceBase", warn = false, silent = true)
    public static Value total(final Tool tool, final ExprOrOpArgNode[] args, final Context c,
                              final TLCState s0, final TLCState s1, final int control, final CostModel cm) {
        try {
            Value v = tool.eval(args[0], c, s0, s1, control, cm);
            v.deepNormalize();
            return v;
        } catch (RuntimeException e) {
            String m = String.valueOf(e.getMessage());
            System.out.println("UNDEFINED " + m.substring(Math.max(0, m.length() - 300)).replace('\n', ' '));
            return tool.eval(args[1], c, s0, s1, control, cm);
        }
    }
}
