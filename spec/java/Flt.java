package tlc2.module;

import tlc2.value.impl.*;
import util.UniqueString;

/**
 * TLC realisation of the operators of Flt.tla: IEEE-754 binary64 arithmetic.
 * A real number is a TLA+ string holding its shortest decimal form (or a TLA+ integer).
 */
public class Flt {
  static double d(Value v) {
    if (v instanceof IntValue) return ((IntValue) v).val;
    if (v instanceof StringValue) return Double.parseDouble(((StringValue) v).val.toString());
    if (v instanceof LazyValue || v instanceof Value) {
      throw new RuntimeException("Flt: not a number: " + v);
    }
    return 0;
  }
  static Value s(double x) { return new StringValue(UniqueString.of(Double.toString(x))); }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value FAdd(Value a, Value b) { return s(d(a) + d(b)); }
  public static Value FSub(Value a, Value b) { return s(d(a) - d(b)); }
  public static Value FMul(Value a, Value b) { return s(d(a) * d(b)); }
  public static Value FDiv(Value a, Value b) { return s(d(a) / d(b)); }
  public static Value FPow(Value a, Value b) { return s(Math.pow(d(a), d(b))); }
  public static Value FNeg(Value a) { return s(-d(a)); }
  public static Value FAbs(Value a) { return s(Math.abs(d(a))); }
  public static Value FSin(Value a) { return s(Math.sin(d(a))); }
  public static Value FCos(Value a) { return s(Math.cos(d(a))); }
  public static Value FExp(Value a) { return s(Math.exp(d(a))); }
  public static Value FLog(Value a) { return s(Math.log(d(a))); }
  public static Value FSqrt(Value a) { return s(Math.sqrt(d(a))); }
  public static Value FFloor(Value a) { return s(Math.floor(d(a))); }
  public static Value FRint(Value a) { return s(Math.rint(d(a))); }
  public static Value FAtan2(Value a, Value b) { return s(Math.atan2(d(a), d(b))); }
  public static Value FMin(Value a, Value b) { return s(Math.min(d(a), d(b))); }
  public static Value FMax(Value a, Value b) { return s(Math.max(d(a), d(b))); }
  public static Value FMod(Value a, Value b) {
    double x = d(a), y = d(b), m = x % y;
    if (m != 0 && ((m < 0) != (y < 0))) m += y;
    return s(m);
  }
  public static Value FLt(Value a, Value b) { return b(d(a) < d(b)); }
  public static Value FLe(Value a, Value b) { return b(d(a) <= d(b)); }
  public static Value FEq(Value a, Value b) { return b(d(a) == d(b)); }
  public static Value FFinite(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
  public static Value FInt(Value a) {
    double x = d(a);
    if (!(Math.abs(x) < 2e9)) x = 2000000000.0;
    return IntValue.gen((int) Math.rint(x));
  }
  public static Value FClose(Value a, Value b, Value rtol, Value atol) {
    double x = d(a), y = d(b);
    if (x == y) return BoolValue.ValTrue;
    if (Double.isNaN(x) || Double.isNaN(y) || Double.isInfinite(x) || Double.isInfinite(y)) return b(false);
    return b(Math.abs(x - y) <= d(atol) + d(rtol) * Math.max(Math.abs(x), Math.abs(y)));
  }

  /* vectors: definitions in Flt.tla are overridden for speed and eager evaluation */
  static Value[] t(Value v) {
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("Flt: not a sequence: " + v);
    return ((TupleValue) t).elems;
  }
  interface Op { double f(double x, double y); }
  static Value map2(Value u, Value v, Op o) {
    Value[] a = t(u), c = t(v), r = new Value[a.length];
    for (int i = 0; i < a.length; i++) r[i] = s(o.f(d(a[i]), d(c[i])));
    return new TupleValue(r);
  }
  public static Value VAdd(Value u, Value v) { return map2(u, v, (x, y) -> x + y); }
  public static Value VSub(Value u, Value v) { return map2(u, v, (x, y) -> x - y); }
  public static Value VMul(Value u, Value v) { return map2(u, v, (x, y) -> x * y); }
  public static Value VDiv(Value u, Value v) { return map2(u, v, (x, y) -> x / y); }
  public static Value VScale(Value k, Value v) {
    double x = d(k);
    Value[] a = t(v), r = new Value[a.length];
    for (int i = 0; i < a.length; i++) r[i] = s(x * d(a[i]));
    return new TupleValue(r);
  }
  static double sum(Value[] a) { double x = 0; for (Value v : a) x += d(v); return x; }
  static double dot(Value[] a, Value[] c) { double x = 0; for (int i = 0; i < a.length; i++) x += d(a[i]) * d(c[i]); return x; }
  public static Value FSum(Value v) { return s(sum(t(v))); }
  public static Value FDot(Value u, Value v) { return s(dot(t(u), t(v))); }
  public static Value MatVec(Value m, Value v) {
    Value[] rows = t(m), a = t(v), r = new Value[rows.length];
    for (int i = 0; i < r.length; i++) r[i] = s(dot(t(rows[i]), a));
    return new TupleValue(r);
  }
  static Value deep(Value v) {
    if (v instanceof FcnLambdaValue || v instanceof FcnRcdValue || v instanceof TupleValue) {
      Value x = v.toTuple();
      if (x == null) return v;
      Value[] a = ((TupleValue) x).elems, r = new Value[a.length];
      for (int i = 0; i < r.length; i++) r[i] = deep(a[i]);
      return new TupleValue(r);
    }
    return v;
  }
  /** Identity; evaluates a (nested) sequence once instead of at every application. */
  public static Value Eager(Value v) { return deep(v); }
}
