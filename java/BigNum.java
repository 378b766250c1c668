// TLC module override for spec/BigNum.tla: the same operators on java.math.BigInteger.
// SelfTest_BigNum.tla compares every operator here with its TLA+ definition.
import java.math.BigInteger;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public class BigNum {
  private static final int B = 15;                       // bits per limb
  private static final int FB = 60;                      // fraction bits of fixed point numbers
  private static final IntValue[] SMALL = new IntValue[1 << (B + 1)];
  static {
    for (int i = 0; i < SMALL.length; i++) SMALL[i] = IntValue.gen(i - (1 << B));
  }

  // a limb tuple that remembers the number it denotes
  private static final class Big extends TupleValue {
    final BigInteger v;
    Big(BigInteger v) { super(limbs(v)); this.v = v; }
  }

  private static Value[] limbs(BigInteger v) {
    boolean neg = v.signum() < 0;
    BigInteger a = v.abs();
    int n = (a.bitLength() + B - 1) / B;
    Value[] e = new Value[n];
    byte[] raw = a.toByteArray();                        // big endian
    int acc = 0, bits = 0, k = 0;
    for (int i = raw.length - 1; i >= 0 && k < n; i--) {
      acc |= (raw[i] & 0xff) << bits;
      bits += 8;
      while (bits >= B && k < n) {
        int d = acc & ((1 << B) - 1);
        e[k++] = SMALL[(neg ? -d : d) + (1 << B)];
        acc >>>= B;
        bits -= B;
      }
    }
    while (k < n) {
      int d = acc & ((1 << B) - 1);
      e[k++] = SMALL[(neg ? -d : d) + (1 << B)];
      acc >>>= B;
    }
    return e;
  }

  private static BigInteger num(Value x) {
    if (x instanceof Big) return ((Big) x).v;
    TupleValue t = (TupleValue) x.toTuple();
    if (t == null) throw new RuntimeException("BigNum: not a limb sequence: " + x);
    BigInteger r = BigInteger.ZERO;
    for (int i = t.elems.length - 1; i >= 0; i--)
      r = r.shiftLeft(B).add(BigInteger.valueOf(((IntValue) t.elems[i]).val));
    return r;
  }

  private static Value big(BigInteger v) { return new Big(v); }
  private static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  private static BigInteger truncShift(BigInteger a, int k) {
    return a.signum() < 0 ? a.negate().shiftRight(k).negate() : a.shiftRight(k);
  }
  private static BigInteger floorDiv(BigInteger a, BigInteger b) {
    BigInteger[] qr = a.divideAndRemainder(b);
    return (qr[1].signum() != 0 && (qr[1].signum() != b.signum())) ? qr[0].subtract(BigInteger.ONE) : qr[0];
  }

  public static Value FromInt(Value a) { return big(BigInteger.valueOf(((IntValue) a).val)); }
  public static Value Opp(Value a) { return big(num(a).negate()); }
  public static Value Abs(Value a) { return big(num(a).abs()); }
  public static Value Add(Value a, Value b) { return big(num(a).add(num(b))); }
  public static Value Sub(Value a, Value b) { return big(num(a).subtract(num(b))); }
  public static Value Mul(Value a, Value b) { return big(num(a).multiply(num(b))); }
  public static Value Lt(Value a, Value b) { return bool(num(a).compareTo(num(b)) < 0); }
  public static Value Le(Value a, Value b) { return bool(num(a).compareTo(num(b)) <= 0); }
  public static Value Div(Value a, Value b) { return big(floorDiv(num(a), num(b))); }
  public static Value ISqrt(Value a) { return big(num(a).sqrt()); }
  public static Value FMul(Value a, Value b) { return big(truncShift(num(a).multiply(num(b)), FB)); }
  public static Value FDiv(Value a, Value b) { return big(floorDiv(num(a).shiftLeft(FB), num(b))); }
  public static Value FSqrt(Value a) { return big(num(a).shiftLeft(FB).sqrt()); }
  public static Value RawDot(Value a, Value b) { return big(rawDot(a, b)); }
  public static Value FDot(Value a, Value b) { return big(truncShift(rawDot(a, b), FB)); }
  private static BigInteger rawDot(Value a, Value b) {
    Value[] x = ((TupleValue) a.toTuple()).elems, y = ((TupleValue) b.toTuple()).elems;
    BigInteger r = BigInteger.ZERO;
    for (int i = 0; i < x.length; i++) r = r.add(num(x[i]).multiply(num(y[i])));
    return r;
  }
  public static Value VAdd(Value a, Value b) {
    Value[] x = ((TupleValue) a.toTuple()).elems, y = ((TupleValue) b.toTuple()).elems, r = new Value[x.length];
    for (int i = 0; i < x.length; i++) r[i] = big(num(x[i]).add(num(y[i])));
    return new TupleValue(r);
  }
  public static Value VSub(Value a, Value b) {
    Value[] x = ((TupleValue) a.toTuple()).elems, y = ((TupleValue) b.toTuple()).elems, r = new Value[x.length];
    for (int i = 0; i < x.length; i++) r[i] = big(num(x[i]).subtract(num(y[i])));
    return new TupleValue(r);
  }
  public static Value VScale(Value s, Value a) {
    Value[] x = ((TupleValue) a.toTuple()).elems, r = new Value[x.length];
    BigInteger k = num(s);
    for (int i = 0; i < x.length; i++) r[i] = big(truncShift(k.multiply(num(x[i])), FB));
    return new TupleValue(r);
  }
}
