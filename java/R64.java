// IEEE double arithmetic for TLC: each public static method overrides the operator of the same name in
// spec/R64.tla.  A real is a string ("0.5", as read from a trace) or an RV (a result of these operators).
import tlc2.util.FP64;
import tlc2.value.IValue;
import tlc2.value.impl.*;

public class R64 {
  public static final class RV extends Value {
    final double d;
    RV(double d) { this.d = d == 0.0 ? 0.0 : d; }
    public byte getKind() { return REALVALUE; }
    public int compareTo(Object o) {
      return o instanceof RV ? Double.compare(d, ((RV) o).d) : -1;
    }
    public boolean equals(Object o) { return o instanceof RV && Double.compare(d, ((RV) o).d) == 0; }
    public boolean member(Value v) { return false; }
    public boolean isFinite() { return false; }
    public Value takeExcept(ValueExcept e) {
      if (e.idx < e.path.length) throw new RuntimeException("EXCEPT on a real");
      return e.value;
    }
    public Value takeExcept(ValueExcept[] e) {
      Value r = this;
      for (ValueExcept x : e) r = r.takeExcept(x);
      return r;
    }
    public int size() { return 1; }
    public boolean mutates() { return false; }
    public boolean isNormalized() { return true; }
    public Value normalize() { return this; }
    public boolean isDefined() { return true; }
    public IValue deepCopy() { return this; }
    public IValue permute(tlc2.value.IMVPerm p) { return this; }
    // that of the string it becomes when TLC writes states to disk
    public long fingerPrint(long fp) {
      String t = Double.toString(d);
      fp = FP64.Extend(fp, STRINGVALUE);
      fp = FP64.Extend(fp, t.length());
      return FP64.Extend(fp, t);
    }
    public void write(tlc2.value.IValueOutputStream out) throws java.io.IOException {
      new StringValue(Double.toString(d)).write(out);
    }
    public StringBuffer toString(StringBuffer sb, int off, boolean swallow) {
      return sb.append('"').append(d).append('"');
    }
  }

  static double d(Value v) {
    if (v instanceof RV) return ((RV) v).d;
    if (v instanceof IntValue) return ((IntValue) v).val;
    String s = ((StringValue) v).val.toString();
    switch (s) {
      case "nan": case "-nan": return Double.NaN;
      case "inf": return Double.POSITIVE_INFINITY;
      case "-inf": return Double.NEGATIVE_INFINITY;
    }
    return Double.parseDouble(s);
  }
  static Value s(double x) { return new RV(x); }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static Value i(double x) {
    if (!(Math.abs(x) < 2147483647.0)) return IntValue.gen(x > 0 ? Integer.MAX_VALUE : Integer.MIN_VALUE + 1);
    return IntValue.gen((int) x);
  }
  static double norm(double a) { // (-pi, pi]
    double r = Math.IEEEremainder(a, 2 * Math.PI);
    return r <= -Math.PI ? r + 2 * Math.PI : r;
  }

  public static Value R(Value a) { return s(d(a)); }
  public static Value RAdd(Value a, Value c) { return s(d(a) + d(c)); }
  public static Value RSub(Value a, Value c) { return s(d(a) - d(c)); }
  public static Value RMul(Value a, Value c) { return s(d(a) * d(c)); }
  public static Value RDiv(Value a, Value c) { return s(d(a) / d(c)); }
  public static Value RNeg(Value a) { return s(-d(a)); }
  public static Value RAbs(Value a) { return s(Math.abs(d(a))); }
  public static Value RSqrt(Value a) { return s(Math.sqrt(d(a))); }
  public static Value RSin(Value a) { return s(Math.sin(d(a))); }
  public static Value RCos(Value a) { return s(Math.cos(d(a))); }
  public static Value RExp(Value a) { return s(Math.exp(d(a))); }
  public static Value RAtan2(Value a, Value c) { return s(Math.atan2(d(a), d(c))); }
  public static Value RHypot(Value a, Value c) { return s(Math.hypot(d(a), d(c))); }
  public static Value RMin(Value a, Value c) { return s(Math.min(d(a), d(c))); }
  public static Value RMax(Value a, Value c) { return s(Math.max(d(a), d(c))); }
  public static Value RNorm(Value a) { return s(norm(d(a))); }
  public static Value RFloor(Value a) { return i(Math.floor(d(a))); }
  public static Value RTrunc(Value a) { double x = d(a); return i(x < 0 ? Math.ceil(x) : Math.floor(x)); }
  public static Value RInt(Value a) { return s(((IntValue) a).val); }
  public static Value RLt(Value a, Value c) { return b(d(a) < d(c)); }
  public static Value RLe(Value a, Value c) { return b(d(a) <= d(c)); }
  public static Value REq(Value a, Value c) { return b(d(a) == d(c)); }
  public static Value RBits(Value a, Value c) {
    return b(Double.doubleToLongBits(d(a)) == Double.doubleToLongBits(d(c)));
  }
  public static Value RFinite(Value a) { return b(Double.isFinite(d(a))); }
  public static Value RNaN(Value a) { return b(Double.isNaN(d(a))); }
  // |a - c| <= tol * max(1, |a|, |c|); false for anything not finite
  public static Value RClose(Value a, Value c, Value t) {
    double x = d(a), y = d(c);
    return b(Double.isFinite(x) && Double.isFinite(y)
        && Math.abs(x - y) <= d(t) * Math.max(1.0, Math.max(Math.abs(x), Math.abs(y))));
  }
  // |a - c| <= tol
  public static Value RNear(Value a, Value c, Value t) {
    double x = d(a), y = d(c);
    return b(Double.isFinite(x) && Double.isFinite(y) && Math.abs(x - y) <= d(t));
  }
  // equal angles modulo a full turn
  public static Value RAngClose(Value a, Value c, Value t) {
    double x = d(a), y = d(c);
    return b(Double.isFinite(x) && Double.isFinite(y) && Math.abs(Math.IEEEremainder(x - y, 2 * Math.PI)) <= d(t));
  }
}
