package redox;

import java.math.BigInteger;
import tlc2.util.FP64;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.impl.Value;
import tlc2.value.impl.ValueExcept;

/** An arbitrary-precision integer as a TLC value (see spec/Num.tla). */
public final class BigVal extends Value {
  public final BigInteger v;

  public BigVal(BigInteger v) { this.v = v; }

  @Override public byte getKind() { return STRINGVALUE; }
  @Override public int compareTo(Object o) {
    if (o instanceof BigVal) return v.compareTo(((BigVal) o).v);
    throw new RuntimeException("comparing a big number with " + o);
  }
  @Override public boolean equals(Object o) {
    if (o instanceof BigVal) return v.equals(((BigVal) o).v);
    throw new RuntimeException("equality of the big number " + v + " with " + o);
  }
  @Override public boolean member(Value e) { throw new RuntimeException("member of a number"); }
  @Override public boolean isFinite() { throw new RuntimeException("finite number"); }
  @Override public Value takeExcept(ValueExcept e) {
    if (e.idx < e.path.length) throw new RuntimeException("EXCEPT inside a number");
    return e.value;
  }
  @Override public Value takeExcept(ValueExcept[] e) { throw new RuntimeException("EXCEPT inside a number"); }
  @Override public int size() { throw new RuntimeException("size of a number"); }
  @Override public boolean mutates() { return false; }
  @Override public boolean isNormalized() { return true; }
  @Override public Value normalize() { return this; }
  @Override public boolean isDefined() { return true; }
  @Override public IValue deepCopy() { return this; }
  @Override public long fingerPrint(long fp) { return FP64.Extend(FP64.Extend(fp, 77), v.toString(36)); }
  @Override public IValue permute(IMVPerm p) { return this; }
  @Override public StringBuffer toString(StringBuffer sb, int off, boolean swallow) {
    return sb.append('"').append(v).append('"');
  }
  @Override public String toUnquotedString() { return v.toString(); }
}
