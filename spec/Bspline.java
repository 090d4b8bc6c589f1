import tlc2.value.impl.*;
import util.UniqueString;

/** Java override of Bspline.Blossom: the same triangular scheme as the TLA+ definition BlossomR. */
public final class Bspline {
  private static final UniqueString FP = UniqueString.of("p"), FU = UniqueString.of("U"), FPt = UniqueString.of("P");

  static Value[] tup(Value v) { return ((TupleValue) v.toTuple()).elems; }

  static Value field(Value c, UniqueString f) {
    RecordValue r = (RecordValue) c.toRcd();
    for (int i = 0; i < r.names.length; i++) if (r.names[i].equals(f)) return r.values[i];
    throw new RuntimeException("Bspline: no field " + f);
  }

  public static Value Blossom(Value c, Value kk, Value argv) {
    int p = ((IntValue) field(c, FP)).val, k = ((IntValue) kk).val;
    Value[] u = tup(field(c, FU)), pts = tup(field(c, FPt)), args = tup(argv);
    Value[] d = new Value[p + 1];
    for (int j = 0; j <= p; j++) d[j] = pts[k - p + j - 1];
    for (int r = 1; r <= p; r++) {
      for (int j = 0; j <= p - r; j++) {
        int i = k - p + r + j;               // 1-based knot index, as in the TLA+ text
        Value lo = u[i - 1], hi = u[i + p - r];
        d[j] = Rat.VLerp(d[j], d[j + 1], Rat.RDiv(Rat.RSub(args[r - 1], lo), Rat.RSub(hi, lo)));
      }
    }
    return d[0];
  }
}
