// TLC module override: IEEE-754 double arithmetic for the TLA+ module FloatOps.
// A float is the decimal string produced by Double.toString (Python's repr is
// accepted as well); TLC integers are accepted wherever a float is expected.
// Everything is total: anything that is not a number reads as NaN, and every
// comparison with NaN is FALSE.
import java.util.Arrays;
import tlc2.value.impl.*;

public class FloatOps {
  private static final int CACHE = 1 << 16;
  private static final String[] KEYS = new String[CACHE];
  private static final double[] VALS = new double[CACHE];

  static double d(Value v) {
    if (v instanceof IntValue) return ((IntValue) v).val;
    if (v instanceof StringValue) {
      String s = ((StringValue) v).val.toString();
      int h = s.hashCode() & (CACHE - 1);
      synchronized (KEYS) { if (s.equals(KEYS[h])) return VALS[h]; }
      double x;
      try { x = parse(s); } catch (Exception e) { x = Double.NaN; }
      synchronized (KEYS) { KEYS[h] = s; VALS[h] = x; }
      return x;
    }
    return Double.NaN;
  }

  static double parse(String s) {
    if (s.equals("inf") || s.equals("Infinity")) return Double.POSITIVE_INFINITY;
    if (s.equals("-inf") || s.equals("-Infinity")) return Double.NEGATIVE_INFINITY;
    if (s.equals("nan") || s.equals("NaN")) return Double.NaN;
    return Double.parseDouble(s);
  }

  static Value s(double x) {
    String t = Double.toString(x);
    int h = t.hashCode() & (CACHE - 1);
    synchronized (KEYS) { KEYS[h] = t; VALS[h] = x; }
    return new StringValue(t);
  }

  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  static Value[] elems(Value v) {
    if (v instanceof TupleValue) return ((TupleValue) v).elems;
    Value t = v.toTuple();
    if (t instanceof TupleValue) return ((TupleValue) t).elems;
    return new Value[0];
  }

  public static Value FAdd(Value x, Value y) { return s(d(x) + d(y)); }
  public static Value FSub(Value x, Value y) { return s(d(x) - d(y)); }
  public static Value FMul(Value x, Value y) { return s(d(x) * d(y)); }
  public static Value FDiv(Value x, Value y) { return s(d(x) / d(y)); }
  public static Value FPow(Value x, Value y) { return s(Math.pow(d(x), d(y))); }
  public static Value FMod(Value x, Value y) {  // Python's floor modulo
    double a = d(x), m = d(y), r = a % m;
    if (r != 0 && ((r < 0) != (m < 0))) r += m;
    return s(r);
  }
  public static Value FNeg(Value x) { return s(-d(x)); }
  public static Value FAbs(Value x) { return s(Math.abs(d(x))); }
  public static Value FSqrt(Value x) { return s(Math.sqrt(d(x))); }
  public static Value FExp(Value x) { return s(Math.exp(d(x))); }
  public static Value FLog(Value x) { return s(Math.log(d(x))); }
  public static Value FSin(Value x) { return s(Math.sin(d(x))); }
  public static Value FCos(Value x) { return s(Math.cos(d(x))); }
  public static Value FTan(Value x) { return s(Math.tan(d(x))); }
  public static Value FAsin(Value x) { return s(Math.asin(d(x))); }
  public static Value FAcos(Value x) { return s(Math.acos(d(x))); }
  public static Value FAtan(Value x) { return s(Math.atan(d(x))); }
  public static Value FAtan2(Value y, Value x) { return s(Math.atan2(d(y), d(x))); }
  public static Value FHypot(Value y, Value x) { return s(Math.hypot(d(y), d(x))); }
  public static Value FFloorF(Value x) { return s(Math.floor(d(x))); }
  public static Value FMin(Value x, Value y) { return s(Math.min(d(x), d(y))); }
  public static Value FMax(Value x, Value y) { return s(Math.max(d(x), d(y))); }
  public static Value FFloor(Value x) {
    double v = Math.floor(d(x));
    if (!(Math.abs(v) < 2.0e9)) v = v > 0 ? 2000000000 : -2000000000;
    return IntValue.gen((int) v);
  }
  public static Value FLt(Value x, Value y) { return b(d(x) < d(y)); }
  public static Value FLe(Value x, Value y) { return b(d(x) <= d(y)); }
  public static Value FGt(Value x, Value y) { return b(d(x) > d(y)); }
  public static Value FGe(Value x, Value y) { return b(d(x) >= d(y)); }
  public static Value FEq(Value x, Value y) { return b(d(x) == d(y)); }
  public static Value FFinite(Value x) {
    double v = d(x);
    return b(!Double.isNaN(v) && !Double.isInfinite(v));
  }
  // |x - y| <= tol * max(1e-300, |x|, |y|)  or  |x - y| <= abs
  public static Value FClose(Value x, Value y, Value rel, Value abs) {
    double a = d(x), c = d(y);
    if (a == c) return BoolValue.ValTrue;
    double e = Math.abs(a - c);
    return b(e <= d(rel) * Math.max(Math.abs(a), Math.abs(c)) || e <= d(abs));
  }

  // Sums and products over sequences, polynomial, table lookups.
  public static Value FSum(Value seq) {
    double t = 0;
    for (Value v : elems(seq)) t += d(v);
    return s(t);
  }
  public static Value FDot(Value p, Value q) {
    Value[] a = elems(p), c = elems(q);
    double t = 0;
    for (int i = 0; i < a.length && i < c.length; i++) t += d(a[i]) * d(c[i]);
    return s(t);
  }
  // Solution x of A x = b for a symmetric positive definite matrix (rows).
  public static Value FSolve(Value A, Value bv) {
    Value[] rows = elems(A);
    int n = rows.length;
    double[][] m = new double[n][n];
    for (int i = 0; i < n; i++) {
      Value[] r = elems(rows[i]);
      for (int j = 0; j < n; j++) m[i][j] = d(r[j]);
    }
    double[] x = solve(m, elems(bv));
    Value[] out = new Value[n];
    for (int i = 0; i < n; i++) out[i] = s(x[i]);
    return new TupleValue(out);
  }
  static double[] solve(double[][] m, Value[] bv) {
    int n = m.length;
    double[] x = new double[n];
    for (int i = 0; i < n; i++) x[i] = d(bv[i]);
    for (int i = 0; i < n; i++) {
      int p = i;
      for (int k = i + 1; k < n; k++) if (Math.abs(m[k][i]) > Math.abs(m[p][i])) p = k;
      double[] t = m[i]; m[i] = m[p]; m[p] = t;
      double u = x[i]; x[i] = x[p]; x[p] = u;
      for (int k = i + 1; k < n; k++) {
        double f = m[k][i] / m[i][i];
        if (f == 0) continue;
        for (int j = i; j < n; j++) m[k][j] -= f * m[i][j];
        x[k] -= f * x[i];
      }
    }
    for (int i = n - 1; i >= 0; i--) {
      double t = x[i];
      for (int j = i + 1; j < n; j++) t -= m[i][j] * x[j];
      x[i] = t / m[i][i];
    }
    return x;
  }
}
