// TLC evaluates the operators of module Dec by these methods.
// A decimal is a record [m |-> mantissa, s |-> scale]; the mantissa is a string
// of digits, as it may not fit TLC's 32-bit integers.
// The arithmetic follows rust_decimal (96-bit mantissa, scale at most 28).
import java.math.BigInteger;
import tlc2.value.impl.*;
import util.UniqueString;

public class Dec {
  static final UniqueString M = UniqueString.uniqueStringOf("m");
  static final UniqueString S = UniqueString.uniqueStringOf("s");
  static final BigInteger TEN = BigInteger.TEN;
  static final BigInteger MAX96 = BigInteger.ONE.shiftLeft(96).subtract(BigInteger.ONE);
  static final int MAXS = 28;

  static BigInteger m(Value v) {
    Value x = rec(v).select(new StringValue(M));
    if (x instanceof IntValue) return BigInteger.valueOf(((IntValue) x).val);
    return new BigInteger(((StringValue) x).val.toString());
  }
  static int s(Value v) { return ((IntValue) rec(v).select(new StringValue(S))).val; }
  static RecordValue rec(Value v) {
    Value r = v.toRcd();
    if (r == null) throw new RuntimeException("not a decimal: " + v);
    return (RecordValue) r;
  }
  static Value mk(BigInteger m, int s) {
    if (m.abs().compareTo(MAX96) > 0) throw new RuntimeException("decimal overflow");
    Value mv = new StringValue(m.toString());
    return new RecordValue(new UniqueString[] {M, S}, new Value[] {mv, IntValue.gen(s)}, false);
  }
  static BigInteger pow(int k) { return TEN.pow(k); }

  // reduce to 96 bits and at most 28 digits of scale, rounding half even
  static Value fit(BigInteger m, int s) {
    int drop = Math.max(0, s - MAXS);
    while (true) {
      BigInteger q = drop == 0 ? m : halfEven(m, pow(drop));
      if (q.abs().compareTo(MAX96) <= 0) return mk(q, s - drop);
      drop++;
    }
  }
  static BigInteger halfEven(BigInteger n, BigInteger d) {
    BigInteger[] qr = n.abs().divideAndRemainder(d);
    int c = qr[1].shiftLeft(1).compareTo(d);
    BigInteger q = qr[0];
    if (c > 0 || (c == 0 && q.testBit(0))) q = q.add(BigInteger.ONE);
    return n.signum() < 0 ? q.negate() : q;
  }

  public static Value DNew(Value a, Value b) { return mk(BigInteger.valueOf(((IntValue) a).val), ((IntValue) b).val); }
  public static Value DNeg(Value a) { return mk(m(a).negate(), s(a)); }
  public static Value DAbs(Value a) { return mk(m(a).abs(), s(a)); }
  public static Value DAdd(Value a, Value b) {
    BigInteger x = m(a), y = m(b);
    int p = s(a), q = s(b);
    if (x.signum() == 0) return mk(y, q);
    if (y.signum() == 0) return mk(x, p);
    int t = Math.max(p, q);
    return fit(x.multiply(pow(t - p)).add(y.multiply(pow(t - q))), t);
  }
  public static Value DSub(Value a, Value b) { return DAdd(a, DNeg(b)); }
  public static Value DMul(Value a, Value b) {
    BigInteger x = m(a), y = m(b);
    if (x.signum() == 0 || y.signum() == 0) return mk(BigInteger.ZERO, 0);
    return fit(x.multiply(y), s(a) + s(b));
  }
  public static Value DCmp(Value a, Value b) {
    int p = s(a), q = s(b), t = Math.max(p, q);
    return IntValue.gen(m(a).multiply(pow(t - p)).compareTo(m(b).multiply(pow(t - q))));
  }
  public static Value DRescale(Value a, Value sv) {
    int p = s(a), t = ((IntValue) sv).val;
    BigInteger x = m(a);
    if (t >= p) {
      // raising the scale stops where the mantissa would overflow
      while (t > p && x.multiply(pow(t - p)).abs().compareTo(MAX96) > 0) t--;
      return mk(x.multiply(pow(t - p)), t);
    }
    BigInteger d = pow(p - t);
    BigInteger q = x.abs().shiftLeft(1).add(d).divide(d.shiftLeft(1));
    return mk(x.signum() < 0 ? q.negate() : q, t);
  }
  static int findScale(BigInteger q, int scale) {
    int p = 0;
    while (p < 9 && scale + p < MAXS && q.multiply(pow(p + 1)).compareTo(MAX96) <= 0) p++;
    return p;
  }
  public static Value DDiv(Value a, Value b) {
    BigInteger n = m(a), d = m(b);
    if (d.signum() == 0) throw new RuntimeException("division by zero");
    if (n.signum() == 0) return mk(BigInteger.ZERO, 0);
    boolean neg = n.signum() * d.signum() < 0;
    n = n.abs();
    d = d.abs();
    int scale = s(a) - s(b);
    BigInteger[] qr = n.divideAndRemainder(d);
    BigInteger q = qr[0], r = qr[1];
    boolean unscale = false;
    while (true) {
      int p;
      if (r.signum() == 0) {
        if (scale >= 0) break;
        p = Math.min(9, -scale);
      } else {
        unscale = true;
        p = scale == MAXS ? 0 : findScale(q, scale);
        if (p == 0) {
          int c = r.shiftLeft(1).compareTo(d);
          if (c > 0 || (c == 0 && q.testBit(0))) q = q.add(BigInteger.ONE);
          break;
        }
      }
      scale += p;
      qr = r.multiply(pow(p)).divideAndRemainder(d);
      q = q.multiply(pow(p)).add(qr[0]);
      r = qr[1];
    }
    if (unscale) {
      // trailing zeros are dropped only as far as the library's shortcut finds them
      while (low(q, 0xFFFFFFFFL) == 0 && scale >= 8 && divides(q, 8)) { q = q.divide(pow(8)); scale -= 8; }
      if (low(q, 0xF) == 0 && scale >= 4 && divides(q, 4)) { q = q.divide(pow(4)); scale -= 4; }
      if (low(q, 0x3) == 0 && scale >= 2 && divides(q, 2)) { q = q.divide(pow(2)); scale -= 2; }
      if (low(q, 0x1) == 0 && scale >= 1 && divides(q, 1)) { q = q.divide(pow(1)); scale -= 1; }
    }
    return mk(neg ? q.negate() : q, scale);
  }
  static long low(BigInteger q, long mask) { return q.longValue() & mask; }
  static boolean divides(BigInteger q, int k) { return q.mod(pow(k)).signum() == 0; }

  public static Value DStr(Value a) {
    BigInteger x = m(a);
    int p = s(a);
    String d = x.abs().toString();
    if (p > 0) {
      while (d.length() <= p) d = "0" + d;
      d = d.substring(0, d.length() - p) + "." + d.substring(d.length() - p);
    }
    return new StringValue((x.signum() < 0 ? "-" : "") + d);
  }
}
