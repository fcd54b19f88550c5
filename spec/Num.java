import java.math.BigDecimal;
import java.math.MathContext;
import java.math.RoundingMode;
import tlc2.value.impl.*;

/** Java side of module Num: the field operations, square root and order of decimal numbers, and rounding to an
 *  integer. Everything else (trigonometry, exponentials, vectors, physics) is written in TLA+ on top of these. */
public final class Num {
  static final MathContext MC = new MathContext(38, RoundingMode.HALF_EVEN);
  static BigVal of(Value v) {
    if (v instanceof BigVal) return (BigVal) v;
    if (v instanceof IntValue) return new BigVal(BigDecimal.valueOf(((IntValue) v).val));
    if (v instanceof StringValue) {
      String s = ((StringValue) v).val.toString();
      switch (s) {
        case "nan": return BigVal.NAN;
        case "inf": return BigVal.PINF;
        case "-inf": return BigVal.NINF;
        default: return new BigVal(new BigDecimal(s));
      }
    }
    throw new RuntimeException("Num: not a number: " + v);
  }
  static BigVal mk(BigDecimal d) { return new BigVal(d); }
  public static Value N(Value a) { return of(a); }
  public static Value Add(Value a, Value b) {
    BigVal x = of(a), y = of(b);
    if (x.sp == 0 && y.sp == 0) return mk(x.d.add(y.d, MC));
    if (x.sp == 1 || y.sp == 1) return BigVal.NAN;
    if (x.sp == 0) return y; if (y.sp == 0) return x;
    return x.sp == y.sp ? x : BigVal.NAN;
  }
  public static Value Negate(Value a) {
    BigVal x = of(a);
    return x.sp == 0 ? mk(x.d.negate()) : x.sp == 1 ? x : x.sp == 2 ? BigVal.NINF : BigVal.PINF;
  }
  public static Value Sub(Value a, Value b) {
    BigVal x = of(a), y = of(b);
    if (x.sp == 0 && y.sp == 0) return mk(x.d.subtract(y.d, MC));
    return Add(x, Negate(y));
  }
  public static Value Mul(Value a, Value b) {
    BigVal x = of(a), y = of(b);
    return x.sp == 0 && y.sp == 0 ? mk(x.d.multiply(y.d, MC)) : BigVal.NAN;
  }
  public static Value Div(Value a, Value b) {
    BigVal x = of(a), y = of(b);
    return x.sp == 0 && y.sp == 0 && y.d.signum() != 0 ? mk(x.d.divide(y.d, MC)) : BigVal.NAN;
  }
  public static Value Sqrt(Value a) {
    BigVal x = of(a);
    return x.sp == 0 && x.d.signum() >= 0 ? mk(x.d.sqrt(MC)) : BigVal.NAN;
  }
  /** nearest integer, as a number */
  public static Value Round(Value a) {
    BigVal x = of(a);
    return x.sp == 0 ? mk(x.d.setScale(0, RoundingMode.HALF_EVEN)) : BigVal.NAN;
  }
  /** decimal exponent k with 10^k <= |a| < 10^(k+1), as a TLC integer; 0 for 0 and special values */
  public static Value Exp10(Value a) {
    BigVal x = of(a);
    return IntValue.gen(x.sp != 0 || x.d.signum() == 0 ? 0 : x.d.precision() - x.d.scale() - 1);
  }
  /** a * 10^k */
  public static Value Scale10(Value a, Value k) {
    BigVal x = of(a);
    return x.sp == 0 ? mk(x.d.scaleByPowerOfTen(((IntValue) k).val)) : x;
  }
  public static Value ToInt(Value a) { return IntValue.gen(of(a).d.setScale(0, RoundingMode.HALF_EVEN).intValueExact()); }
  static BoolValue b(boolean v) { return v ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static int cmp(BigVal x, BigVal y) {   // neither is nan
    int i = x.sp == 2 ? 1 : x.sp == 3 ? -1 : 0, j = y.sp == 2 ? 1 : y.sp == 3 ? -1 : 0;
    return i != 0 || j != 0 ? Integer.compare(i, j) : x.d.compareTo(y.d);
  }
  public static Value Lt(Value a, Value c) { BigVal x = of(a), y = of(c); return b(x.sp != 1 && y.sp != 1 && cmp(x, y) < 0); }
  public static Value Le(Value a, Value c) { BigVal x = of(a), y = of(c); return b(x.sp != 1 && y.sp != 1 && cmp(x, y) <= 0); }
  public static Value Eq(Value a, Value c) { BigVal x = of(a), y = of(c); return b(x.sp != 1 && y.sp != 1 && cmp(x, y) == 0); }
  public static Value IsNan(Value a) { return b(of(a).sp == 1); }
  public static Value IsFin(Value a) { return b(of(a).sp == 0); }
  /** the same sequence with every entry evaluated (TLC keeps function constructors as closures otherwise) */
  public static Value Tup(Value v) {
    if (!(v instanceof FcnLambdaValue || v instanceof TupleValue || v instanceof FcnRcdValue)) return v;
    Value t = v.toTuple();
    if (t == null) return v;
    Value[] e = ((TupleValue) t).elems, r = new Value[e.length];
    for (int i = 0; i < e.length; i++) r[i] = Tup(e[i]);
    return new TupleValue(r);
  }
  public static Value Str(Value a) { return new StringValue(of(a).toUnquotedString()); }
}
