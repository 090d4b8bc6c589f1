import java.math.BigInteger;
import java.util.ArrayList;
import tlc2.value.impl.*;
import util.UniqueString;

/** Java overrides of Plane.tla: Bernstein products and root isolation, the same functions on unbounded integers. */
public final class Plane {
  private static final UniqueString OK = UniqueString.of("ok"), R = UniqueString.of("r"), LO = UniqueString.of("lo"),
      HI = UniqueString.of("hi"), AT = UniqueString.of("at"), SG = UniqueString.of("sg");

  private static BigInteger binom(int n, int k) {
    BigInteger r = BigInteger.ONE;
    for (int i = 1; i <= k; i++) r = r.multiply(BigInteger.valueOf(n - k + i)).divide(BigInteger.valueOf(i));
    return r;
  }
  /** numerators over one common denominator, which is the last element */
  private static BigInteger[] common(Value v) {
    Value[] e = Rat.elems(v);
    BigInteger[] n = new BigInteger[e.length + 1];
    BigInteger d = BigInteger.ONE;
    for (Value x : e) { BigInteger q = Rat.unbox(Rat.elems(x)[1]); d = d.multiply(q.divide(d.gcd(q))); }
    for (int i = 0; i < e.length; i++) {
      Value[] f = Rat.elems(e[i]);
      n[i] = Rat.unbox(f[0]).multiply(d.divide(Rat.unbox(f[1])));
    }
    n[e.length] = d;
    return n;
  }
  public static Value BMul(Value vx, Value vy) {
    BigInteger[] x = common(vx), y = common(vy);
    int p = x.length - 2, q = y.length - 2;
    Value[] r = new Value[p + q + 1];
    BigInteger d = x[p + 1].multiply(y[q + 1]);
    for (int k = 0; k <= p + q; k++) {
      BigInteger s = BigInteger.ZERO;
      for (int i = Math.max(0, k - q); i <= Math.min(k, p); i++)
        s = s.add(binom(p, i).multiply(binom(q, k - i)).multiply(x[i]).multiply(y[k - i]));
      r[k] = Rat.mk(s, d.multiply(binom(p + q, k)));
    }
    return new TupleValue(r);
  }

  /** a polynomial on [s + (t-s) i / 2^j, s + (t-s)(i+1) / 2^j]: integer coefficients over den */
  private record Part(BigInteger[] c, BigInteger den, BigInteger i, int j) {
    Part[] halves() {
      int n = c.length;
      BigInteger[] l = new BigInteger[n], r = new BigInteger[n], w = c.clone();
      // column k of the triangle carries a factor 2^k; all are brought to 2^(n-1)
      for (int k = 0; k < n; k++) {
        l[k] = w[0].shiftLeft(n - 1 - k);
        r[n - 1 - k] = w[n - 1 - k].shiftLeft(n - 1 - k);
        for (int m = 0; m < n - 1 - k; m++) w[m] = w[m].add(w[m + 1]);
      }
      BigInteger d = den.shiftLeft(n - 1);
      return new Part[]{new Part(l, d, i.shiftLeft(1), j + 1), new Part(r, d, i.shiftLeft(1).add(BigInteger.ONE), j + 1)};
    }
  }
  private static Value at(Value s, Value t, BigInteger i, int j) {
    return Rat.RLerp(s, t, Rat.mk(i, BigInteger.ONE.shiftLeft(j)));
  }
  private static Value root(Value lo, Value hi, int at, int sg) {
    return new RecordValue(new UniqueString[]{LO, HI, AT, SG}, new Value[]{lo, hi, IntValue.gen(at), IntValue.gen(sg)}, false);
  }
  private static boolean isolate(Part b, Value s, Value t, BigInteger dn, BigInteger dd, int k, ArrayList<Value> out) {
    int n = b.c.length;
    boolean above = true, below = true, up = true, down = true;
    BigInteger lim = dn.multiply(b.den);
    for (int i = 0; i < n; i++) {
      BigInteger x = b.c[i].multiply(dd);
      above &= x.compareTo(lim) > 0;
      below &= x.compareTo(lim.negate()) < 0;
      if (i > 0) {
        int z = b.c[i].compareTo(b.c[i - 1]);
        up &= z > 0;
        down &= z < 0;
      }
    }
    if (above || below) return true;
    if (up || down) {
      int a = b.c[0].signum(), z = b.c[n - 1].signum();
      Value lo = at(s, t, b.i, b.j), hi = at(s, t, b.i.add(BigInteger.ONE), b.j);
      if (a == 0) out.add(root(lo, lo, 2, z));
      else if (z == 0) out.add(root(hi, hi, 1, a));
      else if (a != z) {
        Part w = b;
        for (int m = 26; ; m--) {
          if (m == 0) { out.add(root(at(s, t, w.i, w.j), at(s, t, w.i.add(BigInteger.ONE), w.j), 0, z)); break; }
          Part[] h = w.halves();
          int y = h[1].c[0].signum();
          if (y == 0) { Value x = at(s, t, h[1].i, h[1].j); out.add(root(x, x, 0, z)); break; }
          w = y == w.c[0].signum() ? h[1] : h[0];
        }
      }
      return true;
    }
    if (k == 0) return false;
    Part[] h = b.halves();
    return isolate(h[0], s, t, dn, dd, k - 1, out) && isolate(h[1], s, t, dn, dd, k - 1, out);
  }
  public static Value Isolate(Value b, Value s, Value t, Value d, Value k) {
    BigInteger[] c = common(b);
    BigInteger[] e = java.util.Arrays.copyOf(c, c.length - 1);
    Value[] dv = Rat.elems(d);
    ArrayList<Value> out = new ArrayList<>();
    boolean ok = isolate(new Part(e, c[c.length - 1], BigInteger.ZERO, 0), s, t, Rat.unbox(dv[0]), Rat.unbox(dv[1]), ((IntValue) k).val, out);
    Value[] r = ok ? out.toArray(new Value[0]) : new Value[0];
    return new RecordValue(new UniqueString[]{OK, R}, new Value[]{ok ? BoolValue.ValTrue : BoolValue.ValFalse, new TupleValue(r)}, false);
  }
}
