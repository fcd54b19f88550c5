import java.math.BigDecimal;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.IValueOutputStream;
import tlc2.value.impl.*;
import tlc2.util.FP64;

/** A TLC value holding one decimal number (or nan / +inf / -inf). Used only by module Num. */
public final class BigVal extends Value {
  public final BigDecimal d;   // null for special values
  public final int sp;         // 0 = number, 1 = nan, 2 = +inf, 3 = -inf
  public static final BigVal NAN = new BigVal(null, 1), PINF = new BigVal(null, 2), NINF = new BigVal(null, 3);
  private BigVal(BigDecimal d, int sp) { this.d = d; this.sp = sp; }
  public BigVal(BigDecimal d) { this(d, 0); }
  public byte getKind() { return DUMMYVALUE; }
  private String canon() {
    if (sp == 1) return "nan"; if (sp == 2) return "inf"; if (sp == 3) return "-inf";
    return d.signum() == 0 ? "0" : d.stripTrailingZeros().toString();
  }
  public int compareTo(Object o) {
    if (!(o instanceof BigVal)) return 1;
    BigVal b = (BigVal) o;
    if (sp == 0 && b.sp == 0) return d.compareTo(b.d);
    return canon().compareTo(b.canon());
  }
  @Override public boolean equals(Object o) { return o instanceof BigVal && compareTo(o) == 0; }
  public boolean member(Value e) { throw new RuntimeException("not a set: " + canon()); }
  public boolean isFinite() { return true; }
  public Value takeExcept(ValueExcept ex) {
    if (ex.idx < ex.path.length) throw new RuntimeException("not a function: " + canon());
    return ex.value;
  }
  public Value takeExcept(ValueExcept[] exs) {
    return exs.length == 0 ? this : takeExcept(exs[exs.length - 1]);
  }
  public int size() { return 1; }
  public boolean mutates() { return false; }
  public boolean isNormalized() { return true; }
  public Value normalize() { return this; }
  public boolean isDefined() { return true; }
  public IValue deepCopy() { return this; }
  public boolean assignable(Value v) { return v instanceof BigVal && v.equals(this); }
  @Override public long fingerPrint(long fp) { return FP64.Extend(FP64.Extend(fp, "Num"), canon()); }
  @Override public IValue permute(IMVPerm perm) { return this; }
  @Override public void write(IValueOutputStream vos) throws java.io.IOException { new StringValue(canon()).write(vos); }
  public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) { return sb.append('"').append(canon()).append('"'); }
  @Override public String toUnquotedString() { return canon(); }
}
