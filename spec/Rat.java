import java.math.BigInteger;
import tlc2.value.impl.*;

/** Unbounded-integer override of Rat.tla (see there for the meaning of each operator). */
public final class Rat {
  private static final BigInteger MASK = BigInteger.ONE.shiftLeft(30).subtract(BigInteger.ONE);

  static Value box(BigInteger x) {
    if (x.bitLength() < 31) return IntValue.gen(x.intValue());
    BigInteger m = x.abs();
    int k = (m.bitLength() + 29) / 30;
    Value[] v = new Value[k + 1];
    v[0] = IntValue.gen(x.signum());
    for (int i = 1; i <= k; i++) { v[i] = IntValue.gen(m.and(MASK).intValue()); m = m.shiftRight(30); }
    return new TupleValue(v);
  }
  static BigInteger unbox(Value v) {
    if (v instanceof IntValue) return BigInteger.valueOf(((IntValue) v).val);
    Value[] e = elems(v);
    BigInteger m = BigInteger.ZERO;
    for (int i = e.length - 1; i >= 1; i--) m = m.shiftLeft(30).or(BigInteger.valueOf(((IntValue) e[i]).val));
    return ((IntValue) e[0]).val < 0 ? m.negate() : m;
  }
  static Value[] elems(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null) throw new RuntimeException("Rat: not a tuple: " + v);
    return t.elems;
  }
  private static boolean small(Value[] a) { return a[0] instanceof IntValue && a[1] instanceof IntValue; }
  private static long iv(Value v) { return ((IntValue) v).val; }
  private static long gcd(long a, long b) { while (b != 0) { long t = a % b; a = b; b = t; } return a < 0 ? -a : a; }
  private static Value mk(long n, long d) {
    if (d == 0) throw new RuntimeException("Rat: division by zero");
    long g = gcd(n, d);
    if (d < 0) g = -g;
    n /= g; d /= g;
    if (n > -(1L << 30) && n < (1L << 30) && d < (1L << 30))
      return new TupleValue(new Value[]{IntValue.gen((int) n), IntValue.gen((int) d)});
    return new TupleValue(new Value[]{box(BigInteger.valueOf(n)), box(BigInteger.valueOf(d))});
  }
  static Value mk(BigInteger n, BigInteger d) {
    if (d.signum() == 0) throw new RuntimeException("Rat: division by zero");
    BigInteger g = n.gcd(d);
    if (d.signum() < 0) g = g.negate();
    return new TupleValue(new Value[]{box(n.divide(g)), box(d.divide(g))});
  }
  public static Value RQ(Value n, Value d) { return mk(unbox(n), unbox(d)); }
  public static Value RI(Value n) { return new TupleValue(new Value[]{n, IntValue.gen(1)}); }
  private static Value addsub(Value x, Value y, boolean sub) {
    Value[] a = elems(x), b = elems(y);
    if (small(a) && small(b)) {
      long p = iv(a[0]) * iv(b[1]), q = iv(b[0]) * iv(a[1]);
      return mk(sub ? p - q : p + q, iv(a[1]) * iv(b[1]));
    }
    BigInteger a1 = unbox(a[1]), b1 = unbox(b[1]);
    BigInteger p = unbox(a[0]).multiply(b1), q = unbox(b[0]).multiply(a1);
    return mk(sub ? p.subtract(q) : p.add(q), a1.multiply(b1));
  }
  public static Value RAdd(Value x, Value y) { return addsub(x, y, false); }
  public static Value RSub(Value x, Value y) { return addsub(x, y, true); }
  public static Value RMul(Value x, Value y) {
    Value[] a = elems(x), b = elems(y);
    if (small(a) && small(b)) return mk(iv(a[0]) * iv(b[0]), iv(a[1]) * iv(b[1]));
    return mk(unbox(a[0]).multiply(unbox(b[0])), unbox(a[1]).multiply(unbox(b[1])));
  }
  public static Value RDiv(Value x, Value y) {
    Value[] a = elems(x), b = elems(y);
    if (small(a) && small(b)) return mk(iv(a[0]) * iv(b[1]), iv(a[1]) * iv(b[0]));
    return mk(unbox(a[0]).multiply(unbox(b[1])), unbox(a[1]).multiply(unbox(b[0])));
  }
  public static Value RNeg(Value x) { Value[] a = elems(x); return mk(unbox(a[0]).negate(), unbox(a[1])); }
  public static Value RCmp(Value x, Value y) {
    Value[] a = elems(x), b = elems(y);
    if (small(a) && small(b)) return IntValue.gen(Long.compare(iv(a[0]) * iv(b[1]), iv(b[0]) * iv(a[1])));
    return IntValue.gen(unbox(a[0]).multiply(unbox(b[1])).compareTo(unbox(b[0]).multiply(unbox(a[1]))));
  }
  private static final Value ONE = new TupleValue(new Value[]{IntValue.gen(1), IntValue.gen(1)});
  private static final Value ZERO = new TupleValue(new Value[]{IntValue.gen(0), IntValue.gen(1)});
  public static Value RLerp(Value x, Value y, Value t) { return RAdd(RMul(x, RSub(ONE, t)), RMul(y, t)); }
  public static Value RSqrt(Value x) {
    Value[] a = elems(x);
    BigInteger n = unbox(a[0]), d = unbox(a[1]);
    BigInteger[] rn = n.sqrtAndRemainder(), rd = d.sqrtAndRemainder();
    if (rn[1].signum() == 0 && rd[1].signum() == 0) return mk(rn[0], rd[0]);
    return mk(n.shiftLeft(120).divide(d).sqrt(), BigInteger.ONE.shiftLeft(60));
  }
  public static Value RFloor(Value x) {
    Value[] a = elems(x);
    BigInteger[] qr = unbox(a[0]).divideAndRemainder(unbox(a[1]));
    return IntValue.gen((qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0]).intValueExact());
  }
  public static Value VAdd(Value v, Value w) {
    Value[] a = elems(v), b = elems(w), r = new Value[a.length];
    for (int i = 0; i < r.length; i++) r[i] = RAdd(a[i], b[i]);
    return new TupleValue(r);
  }
  public static Value VSub(Value v, Value w) {
    Value[] a = elems(v), b = elems(w), r = new Value[a.length];
    for (int i = 0; i < r.length; i++) r[i] = RSub(a[i], b[i]);
    return new TupleValue(r);
  }
  public static Value VScale(Value v, Value s) {
    Value[] a = elems(v), r = new Value[a.length];
    for (int i = 0; i < r.length; i++) r[i] = RMul(a[i], s);
    return new TupleValue(r);
  }
  public static Value VLerp(Value v, Value w, Value t) {
    Value[] a = elems(v), b = elems(w), r = new Value[a.length];
    Value s = RSub(ONE, t);
    for (int i = 0; i < r.length; i++) r[i] = RAdd(RMul(a[i], s), RMul(b[i], t));
    return new TupleValue(r);
  }
  public static Value VDot(Value v, Value w) {
    Value[] a = elems(v), b = elems(w);
    Value r = ZERO;
    for (int i = 0; i < a.length; i++) r = RAdd(r, RMul(a[i], b[i]));
    return r;
  }
  public static Value VEq(Value v, Value w) {
    Value[] a = elems(v), b = elems(w);
    for (int i = 0; i < a.length; i++) if (((IntValue) RCmp(a[i], b[i])).val != 0) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }
}
