import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** Faster evaluation of the operators defined in BigNat.tla (same values; compared by BigNatTest.tla). */
public class BigNatOverrides implements ITLCOverrides {
  static final int LB = 15, BASE = 1 << LB, MASK = BASE - 1;

  static Value[] limbs(Value v) {
    if (v instanceof TupleValue) return ((TupleValue) v).elems;
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null) throw new IllegalArgumentException("not a limb sequence: " + v);
    return t.elems;
  }
  static int li(Value v) { return ((IntValue) v).val; }

  static BigInteger big(Value v) {
    Value[] e = limbs(v);
    int n = e.length;
    if (n <= 4) {
      long r = 0;
      for (int i = n - 1; i >= 0; i--) r = (r << LB) | li(e[i]);
      return BigInteger.valueOf(r);
    }
    int bits = n * LB;
    byte[] b = new byte[(bits + 7) / 8 + 1];
    long acc = 0; int nb = 0; int p = b.length - 1;
    for (int i = 0; i < n; i++) {
      acc |= ((long) li(e[i])) << nb; nb += LB;
      while (nb >= 8) { b[p--] = (byte) acc; acc >>>= 8; nb -= 8; }
    }
    if (nb > 0) b[p] = (byte) acc;
    return new BigInteger(b);
  }

  static final TupleValue EMPTY = new TupleValue(new Value[0]);

  static Value tup(BigInteger x) {
    int bl = x.bitLength();
    if (bl == 0) return EMPTY;
    int n = (bl + LB - 1) / LB;
    Value[] e = new Value[n];
    if (bl <= 62) {
      long r = x.longValue();
      for (int i = 0; i < n; i++) { e[i] = IntValue.gen((int) (r & MASK)); r >>>= LB; }
    } else {
      byte[] b = x.toByteArray();
      int p = b.length - 1; long acc = 0; int nb = 0;
      for (int i = 0; i < n; i++) {
        while (nb < LB && p >= 0) { acc |= ((long) (b[p--] & 0xff)) << nb; nb += 8; }
        e[i] = IntValue.gen((int) (acc & MASK)); acc >>>= LB; nb -= LB;
      }
    }
    return new TupleValue(e);
  }

  @TLAPlusOperator(identifier = "BNorm", module = "BigNat", warn = false)
  public static Value norm(final Value a) { return tup(big(a)); }

  @TLAPlusOperator(identifier = "BOfInt", module = "BigNat", warn = false)
  public static Value ofInt(final Value a) { return tup(BigInteger.valueOf(li(a))); }

  @TLAPlusOperator(identifier = "BToInt", module = "BigNat", warn = false)
  public static Value toInt(final Value a) { return IntValue.gen(big(a).intValueExact()); }

  @TLAPlusOperator(identifier = "BBitLen", module = "BigNat", warn = false)
  public static Value bitLen(final Value a) {
    Value[] e = limbs(a);
    if (e.length == 0) return IntValue.gen(0);
    return IntValue.gen((e.length - 1) * LB + 32 - Integer.numberOfLeadingZeros(li(e[e.length - 1])));
  }

  @TLAPlusOperator(identifier = "BCmp", module = "BigNat", warn = false)
  public static Value cmp(final Value a, final Value b) {
    Value[] x = limbs(a), y = limbs(b);
    int r = 0;
    if (x.length != y.length) r = x.length < y.length ? -1 : 1;
    else for (int i = x.length - 1; i >= 0 && r == 0; i--) r = Integer.compare(li(x[i]), li(y[i]));
    return IntValue.gen(r);
  }

  @TLAPlusOperator(identifier = "BAdd", module = "BigNat", warn = false)
  public static Value add(final Value a, final Value b) { return tup(big(a).add(big(b))); }

  @TLAPlusOperator(identifier = "BSub", module = "BigNat", warn = false)
  public static Value sub(final Value a, final Value b) {
    BigInteger r = big(a).subtract(big(b));
    if (r.signum() < 0) throw new ArithmeticException("BSub: negative");
    return tup(r);
  }

  @TLAPlusOperator(identifier = "BMul", module = "BigNat", warn = false)
  public static Value mul(final Value a, final Value b) { return tup(big(a).multiply(big(b))); }

  @TLAPlusOperator(identifier = "BShl", module = "BigNat", warn = false)
  public static Value shl(final Value a, final Value k) { return tup(big(a).shiftLeft(nat(k))); }

  @TLAPlusOperator(identifier = "BShr", module = "BigNat", warn = false)
  public static Value shr(final Value a, final Value k) { return tup(big(a).shiftRight(nat(k))); }

  @TLAPlusOperator(identifier = "BLow", module = "BigNat", warn = false)
  public static Value low(final Value a, final Value k) {
    return tup(big(a).and(BigInteger.ONE.shiftLeft(nat(k)).subtract(BigInteger.ONE)));
  }

  @TLAPlusOperator(identifier = "BPow2", module = "BigNat", warn = false)
  public static Value pow2(final Value k) { return tup(BigInteger.ONE.shiftLeft(nat(k))); }

  @TLAPlusOperator(identifier = "BTz", module = "BigNat", warn = false)
  public static Value tz(final Value a) { return IntValue.gen(big(a).getLowestSetBit()); }

  @TLAPlusOperator(identifier = "BPow", module = "BigNat", warn = false)
  public static Value pow(final Value a, final Value k) { return tup(big(a).pow(nat(k))); }

  @TLAPlusOperator(identifier = "BDivMod", module = "BigNat", warn = false)
  public static Value divMod(final Value a, final Value b) {
    BigInteger[] r = big(a).divideAndRemainder(big(b));
    return new TupleValue(new Value[] { tup(r[0]), tup(r[1]) });
  }

  @TLAPlusOperator(identifier = "BSqrt", module = "BigNat", warn = false)
  public static Value sqrt(final Value a) { return tup(big(a).sqrt()); }

  static int nat(Value k) {
    int r = li(k);
    if (r < 0) throw new ArithmeticException("negative count " + r);
    return r;
  }

  @SuppressWarnings("unchecked")
  @Override
  public Class[] get() { return new Class[] { BigNatOverrides.class }; }
}
