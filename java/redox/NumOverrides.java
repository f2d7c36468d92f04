package redox;

import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Arbitrary-precision evaluation of the operators defined in spec/Num.tla. */
public class NumOverrides implements ITLCOverrides {
  private static final BigInteger TWO = BigInteger.valueOf(2);

  @Override public Class[] get() { return new Class[] { NumOverrides.class }; }

  private static BigInteger b(Value x) {
    if (x instanceof BigVal) return ((BigVal) x).v;
    throw new RuntimeException("not a number built by N(_): " + x);
  }
  private static int i(Value x) {
    if (x instanceof IntValue) return ((IntValue) x).val;
    if (x instanceof BigVal) return ((BigVal) x).v.intValueExact();
    throw new RuntimeException("not an integer: " + x);
  }
  private static Value big(BigInteger v) { return new BigVal(v); }
  private static Value bool(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  @TLAPlusOperator(identifier = "N", module = "Num", warn = false)
  public static Value n(Value x) {
    if (x instanceof BigVal) return x;
    if (x instanceof IntValue) return big(BigInteger.valueOf(((IntValue) x).val));
    if (x instanceof StringValue) return big(new BigInteger(((StringValue) x).val.toString()));
    throw new RuntimeException("N(_) of " + x);
  }
  @TLAPlusOperator(identifier = "ToInt", module = "Num", warn = false)
  public static Value toInt(Value a) { return IntValue.gen(b(a).intValueExact()); }
  @TLAPlusOperator(identifier = "Plus", module = "Num", warn = false)
  public static Value plus(Value x, Value y) { return big(b(x).add(b(y))); }
  @TLAPlusOperator(identifier = "Minus", module = "Num", warn = false)
  public static Value minus(Value x, Value y) { return big(b(x).subtract(b(y))); }
  @TLAPlusOperator(identifier = "Times", module = "Num", warn = false)
  public static Value times(Value x, Value y) { return big(b(x).multiply(b(y))); }
  @TLAPlusOperator(identifier = "DivF", module = "Num", warn = false)
  public static Value divF(Value x, Value y) {
    BigInteger[] qr = b(x).divideAndRemainder(b(y));
    return big(qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0]);
  }
  @TLAPlusOperator(identifier = "ModF", module = "Num", warn = false)
  public static Value modF(Value x, Value y) { return big(b(x).mod(b(y))); }
  @TLAPlusOperator(identifier = "Less", module = "Num", warn = false)
  public static Value less(Value x, Value y) { return bool(b(x).compareTo(b(y)) < 0); }
  @TLAPlusOperator(identifier = "Leq", module = "Num", warn = false)
  public static Value leq(Value x, Value y) { return bool(b(x).compareTo(b(y)) <= 0); }
  @TLAPlusOperator(identifier = "Odd", module = "Num", warn = false)
  public static Value odd(Value x) { return bool(b(x).testBit(0)); }
  @TLAPlusOperator(identifier = "PowMod", module = "Num", warn = false)
  public static Value powMod(Value x, Value e, Value m) {
    if (b(e).signum() < 0) throw new RuntimeException("PowMod with a negative exponent");
    return big(b(x).modPow(b(e), b(m)));
  }
  @TLAPlusOperator(identifier = "InvMod", module = "Num", warn = false)
  public static Value invMod(Value x, Value m) {
    BigInteger r = b(x).mod(b(m));
    return big(r.signum() == 0 ? r : r.modInverse(b(m)));
  }
  private static boolean square(BigInteger a, BigInteger p) {
    return a.signum() == 0 || a.modPow(p.shiftRight(1), p).equals(BigInteger.ONE);
  }
  @TLAPlusOperator(identifier = "IsSquareMod", module = "Num", warn = false)
  public static Value isSquareMod(Value x, Value m) { return bool(square(b(x).mod(b(m)), b(m))); }

  /** Tonelli-Shanks, returning the root with an even representative. */
  @TLAPlusOperator(identifier = "EvenRootMod", module = "Num", warn = false)
  public static Value evenRootMod(Value x, Value m) {
    BigInteger p = b(m), a = b(x).mod(p);
    if (!square(a, p)) throw new RuntimeException("root of a non-square");
    if (a.signum() == 0) return big(a);
    BigInteger q = p.subtract(BigInteger.ONE);
    int s = q.getLowestSetBit();
    q = q.shiftRight(s);
    BigInteger z = TWO;
    while (square(z, p)) z = z.add(BigInteger.ONE);
    BigInteger c = z.modPow(q, p), t = a.modPow(q, p), r = a.modPow(q.add(BigInteger.ONE).shiftRight(1), p);
    int mm = s;
    while (!t.equals(BigInteger.ONE)) {
      int k = 0;
      BigInteger u = t;
      while (!u.equals(BigInteger.ONE)) { u = u.multiply(u).mod(p); k++; }
      BigInteger w = c;
      for (int j = 0; j < mm - k - 1; j++) w = w.multiply(w).mod(p);
      mm = k;
      c = w.multiply(w).mod(p);
      t = t.multiply(c).mod(p);
      r = r.multiply(w).mod(p);
    }
    if (!r.multiply(r).mod(p).equals(a)) throw new RuntimeException("root computation failed");
    return big(r.testBit(0) ? p.subtract(r) : r);
  }
  @TLAPlusOperator(identifier = "BitLen", module = "Num", warn = false)
  public static Value bitLen(Value x) { return IntValue.gen(b(x).bitLength()); }
  @TLAPlusOperator(identifier = "Bit", module = "Num", warn = false)
  public static Value bit(Value x, Value k) { return IntValue.gen(b(x).testBit(i(k)) ? 1 : 0); }

  private static Value bytes(BigInteger v, int len, boolean be) {
    Value[] out = new Value[len];
    for (int k = 0; k < len; k++) {
      int d = v.shiftRight(8 * k).intValue() & 255;
      out[be ? len - 1 - k : k] = IntValue.gen(d);
    }
    return new TupleValue(out);
  }
  @TLAPlusOperator(identifier = "BytesLE", module = "Num", warn = false)
  public static Value bytesLE(Value x, Value len) { return bytes(b(x), i(len), false); }
  @TLAPlusOperator(identifier = "BytesBE", module = "Num", warn = false)
  public static Value bytesBE(Value x, Value len) { return bytes(b(x), i(len), true); }

  private static Value digits(Value s, int radix, boolean be) {
    Value tv = s.toTuple();
    if (tv == null) throw new RuntimeException("not a sequence of digits: " + s);
    Value[] e = ((TupleValue) tv).elems;
    BigInteger r = BigInteger.ZERO, rad = BigInteger.valueOf(radix);
    for (int k = 0; k < e.length; k++)
      r = r.multiply(rad).add(BigInteger.valueOf(i(e[be ? k : e.length - 1 - k])));
    return big(r);
  }
  @TLAPlusOperator(identifier = "FromDigits", module = "Num", warn = false)
  public static Value fromDigits(Value s, Value radix) { return digits(s, i(radix), true); }
  @TLAPlusOperator(identifier = "FromBE", module = "Num", warn = false)
  public static Value fromBE(Value s) { return digits(s, 256, true); }
  @TLAPlusOperator(identifier = "FromLE", module = "Num", warn = false)
  public static Value fromLE(Value s) { return digits(s, 256, false); }
  @TLAPlusOperator(identifier = "IsPrime", module = "Num", warn = false)
  public static Value isPrime(Value x) { return bool(b(x).isProbablePrime(64)); }
  @TLAPlusOperator(identifier = "Show", module = "Num", warn = false)
  public static Value show(Value x) { return new StringValue(b(x).toString()); }
}
