import tlc2.value.impl.*;

/**
 * TLC overrides of module Float64: IEEE-754 binary64 arithmetic.
 *
 * A number is a TLA+ string holding a decimal literal that round-trips
 * ("0.1", "-0.0", "NaN", "Infinity"), a TLA+ integer, or (inside one
 * expression only) a boxed double.  Values that enter a state are turned into
 * strings by FStr.
 */
public class Float64 {
  static final class D extends UserObj {
    final double d;
    D(double d) { this.d = d; }
    public int compareTo(Value v) { return Double.compare(d, num(v)); }
    public boolean member(Value v) { throw new RuntimeException("member of a number"); }
    public boolean isFinite() { return true; }
    public StringBuffer toString(StringBuffer sb, int o, boolean s) { return sb.append(d); }
  }
  static double num(Value v) {
    if (v instanceof UserValue) return ((D) ((UserValue) v).userObj).d;
    if (v instanceof StringValue) {
      String s = ((StringValue) v).val.toString();
      return Double.parseDouble(s);
    }
    if (v instanceof IntValue) return ((IntValue) v).val;
    throw new RuntimeException("not a number: " + v);
  }
  static Value mk(double d) { return new UserValue(new D(d)); }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value FAdd(Value a, Value b) { return mk(num(a) + num(b)); }
  public static Value FSub(Value a, Value b) { return mk(num(a) - num(b)); }
  public static Value FMul(Value a, Value b) { return mk(num(a) * num(b)); }
  public static Value FDiv(Value a, Value b) { return mk(num(a) / num(b)); }
  public static Value FNeg(Value a) { return mk(-num(a)); }
  public static Value FAbs(Value a) { return mk(Math.abs(num(a))); }
  public static Value FExp(Value a) { return mk(Math.exp(num(a))); }
  public static Value FLn(Value a) { return mk(Math.log(num(a))); }
  public static Value FSqrt(Value a) { return mk(Math.sqrt(num(a))); }
  public static Value FPow(Value a, Value b) { return mk(Math.pow(num(a), num(b))); }
  public static Value FLt(Value a, Value b) { return bool(num(a) < num(b)); }
  public static Value FLe(Value a, Value b) { return bool(num(a) <= num(b)); }
  public static Value FEq(Value a, Value b) { return bool(num(a) == num(b)); }
  public static Value FInt(Value a) { return mk(num(a)); }
  public static Value FLit(Value a) { return mk(num(a)); }
  public static Value FTrunc(Value a) {
    double d = num(a);
    if (Double.isNaN(d) || Math.abs(d) > 2e9) return IntValue.gen(-2000000000);
    return IntValue.gen((int) d);
  }
  public static Value FIsFinite(Value a) { double d = num(a); return bool(!Double.isNaN(d) && !Double.isInfinite(d)); }
  public static Value FIsNaN(Value a) { return bool(Double.isNaN(num(a))); }
  public static Value FStr(Value a) {
    if (a instanceof StringValue) return a;
    return new StringValue(Double.toString(num(a)));
  }
  /** bit-identical */
  public static Value FSame(Value a, Value b) {
    return bool(Double.doubleToLongBits(num(a)) == Double.doubleToLongBits(num(b)));
  }
  /** |a-b| <= tol * max(|a|, |b|, scale); equal infinities and two NaNs are close */
  public static Value FClose(Value va, Value vb, Value vtol, Value vscale) {
    double a = num(va), b = num(vb), tol = num(vtol), scale = Math.abs(num(vscale));
    if (Double.isNaN(a) || Double.isNaN(b)) return bool(Double.isNaN(a) && Double.isNaN(b));
    if (a == b) return BoolValue.ValTrue;
    if (Double.isInfinite(a) || Double.isInfinite(b)) return BoolValue.ValFalse;
    if (Double.isNaN(scale) || Double.isInfinite(scale)) scale = 0;
    double m = Math.max(Math.max(Math.abs(a), Math.abs(b)), scale);
    return bool(Math.abs(a - b) <= tol * m + Double.MIN_NORMAL);
  }
  /** the eight little-endian bytes of a number */
  public static Value FBytes(Value a) {
    long x = Double.doubleToRawLongBits(num(a));
    Value[] out = new Value[8];
    for (int i = 0; i < 8; i++) out[i] = IntValue.gen((int) ((x >>> (8 * i)) & 255));
    return new TupleValue(out);
  }
  public static Value FFromBytes(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    long x = 0;
    for (int i = 0; i < 8; i++) x |= ((long) ((IntValue) t.elems[i]).val & 255) << (8 * i);
    return new StringValue(Double.toString(Double.longBitsToDouble(x)));
  }
  public static Value StrBytes(Value v) {
    String s = ((StringValue) v).val.toString();
    Value[] out = new Value[s.length()];
    for (int i = 0; i < out.length; i++) out[i] = IntValue.gen(s.charAt(i));
    return new TupleValue(out);
  }
  public static Value BytesStr(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    StringBuilder sb = new StringBuilder();
    for (Value e : t.elems) sb.append((char) ((IntValue) e).val);
    return new StringValue(sb.toString());
  }
}
