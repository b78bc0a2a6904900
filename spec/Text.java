import tlc2.value.impl.*;
public class Text {
  public static Value TLess(Value a, Value b) {
    String x = ((StringValue) a).val.toString(), y = ((StringValue) b).val.toString();
    int[] p = x.codePoints().toArray(), q = y.codePoints().toArray();
    for (int i = 0; i < Math.min(p.length, q.length); i++)
      if (p[i] != q[i]) return p[i] < q[i] ? BoolValue.ValTrue : BoolValue.ValFalse;
    return p.length < q.length ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
}
