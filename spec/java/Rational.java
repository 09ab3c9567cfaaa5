// Evaluates the operators of module Rational for TLC (TLC loads a class with the name of the module).
import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import tlc2.value.impl.*;
import util.UniqueString;

public class Rational {
  private static final BigInteger ONE = BigInteger.ONE, ZERO = BigInteger.ZERO;

  static final class Q {
    final BigInteger n, d;
    Q(BigInteger n, BigInteger d) {
      if (d.signum() == 0) throw new ArithmeticException("Rational: division by zero");
      if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
      BigInteger g;
      int s = Math.min(d.getLowestSetBit(), n.signum() == 0 ? 0 : n.getLowestSetBit());
      if (s > 0) { n = n.shiftRight(s); d = d.shiftRight(s); }
      if (d.bitLength() == d.getLowestSetBit() + 1) { // power of two: already reduced up to s
        if (n.signum() == 0) d = ONE;
      } else {
        g = n.gcd(d);
        if (!g.equals(ONE)) { n = n.divide(g); d = d.divide(g); }
      }
      this.n = n; this.d = d;
    }
    Q(BigInteger n) { this.n = n; this.d = ONE; }
    Q add(Q o) { return d.equals(o.d) ? new Q(n.add(o.n), d) : new Q(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d)); }
    Q sub(Q o) { return add(new Q(o.n.negate(), o.d)); }
    Q mul(Q o) { return new Q(n.multiply(o.n), d.multiply(o.d)); }
    Q div(Q o) { return new Q(n.multiply(o.d), d.multiply(o.n)); }
    int cmp(Q o) { return d.equals(o.d) ? n.compareTo(o.n) : n.multiply(o.d).compareTo(o.n.multiply(d)); }
    public String toString() { return d.equals(ONE) ? n.toString() : n + "/" + d; }
  }

  // "p", "p/q", "1.25", "1e-3" and "pbk" (= p * 2^k)
  static Q parse(Value v) {
    if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val));
    String s = ((StringValue) v).val.toString();
    int i = s.indexOf('/');
    if (i >= 0) return new Q(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)));
    i = s.indexOf('b');
    if (i >= 0) {
      BigInteger m = new BigInteger(s.substring(0, i));
      int e = Integer.parseInt(s.substring(i + 1));
      return e >= 0 ? new Q(m.shiftLeft(e)) : new Q(m, ONE.shiftLeft(-e));
    }
    if (s.indexOf('.') >= 0 || s.indexOf('e') >= 0) {
      BigDecimal b = new BigDecimal(s);
      return b.scale() > 0 ? new Q(b.unscaledValue(), BigInteger.TEN.pow(b.scale())) : new Q(b.toBigIntegerExact());
    }
    return new Q(new BigInteger(s));
  }
  static Value val(Q q) { return new StringValue(q.toString()); }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static Value[] seq(Value v) { return ((TupleValue) v.toTuple()).elems; }

  public static Value R(Value a) { return val(parse(a)); }
  public static Value RAdd(Value a, Value b) { return val(parse(a).add(parse(b))); }
  public static Value RSub(Value a, Value b) { return val(parse(a).sub(parse(b))); }
  public static Value RMul(Value a, Value b) { return val(parse(a).mul(parse(b))); }
  public static Value RDiv(Value a, Value b) { return val(parse(a).div(parse(b))); }
  public static Value RNeg(Value a) { Q x = parse(a); return val(new Q(x.n.negate(), x.d)); }
  public static Value RAbs(Value a) { Q x = parse(a); return val(new Q(x.n.abs(), x.d)); }
  public static Value RLe(Value a, Value b) { return bool(parse(a).cmp(parse(b)) <= 0); }
  public static Value RLt(Value a, Value b) { return bool(parse(a).cmp(parse(b)) < 0); }
  public static Value REq(Value a, Value b) { return bool(parse(a).cmp(parse(b)) == 0); }
  public static Value RMin(Value a, Value b) { Q x = parse(a), y = parse(b); return val(x.cmp(y) <= 0 ? x : y); }
  public static Value RMax(Value a, Value b) { Q x = parse(a), y = parse(b); return val(x.cmp(y) >= 0 ? x : y); }
  public static Value RSum(Value s) {
    Q r = new Q(ZERO);
    for (Value v : seq(s)) r = r.add(parse(v));
    return val(r);
  }
  public static Value RSumAbs(Value s) {
    Q r = new Q(ZERO);
    for (Value v : seq(s)) { Q x = parse(v); r = r.add(new Q(x.n.abs(), x.d)); }
    return val(r);
  }
  public static Value RDot(Value s, Value t) {
    Value[] a = seq(s), b = seq(t);
    if (a.length != b.length) throw new RuntimeException("RDot: lengths differ");
    Q r = new Q(ZERO);
    for (int i = 0; i < a.length; ++i) r = r.add(parse(a[i]).mul(parse(b[i])));
    return val(r);
  }
  public static Value RMaxSeq(Value s) {
    Q r = null;
    for (Value v : seq(s)) { Q x = parse(v); if (r == null || x.cmp(r) > 0) r = x; }
    return val(r);
  }
  public static Value RMinSeq(Value s) {
    Q r = null;
    for (Value v : seq(s)) { Q x = parse(v); if (r == null || x.cmp(r) < 0) r = x; }
    return val(r);
  }
  public static Value RPow(Value a, Value k) {
    Q x = parse(a);
    int e = ((IntValue) k).val;
    if (e >= 0) return val(new Q(x.n.pow(e), x.d.pow(e)));
    return val(new Q(x.d.pow(-e), x.n.pow(-e)));
  }
  // floor / ceiling to k significant bits
  static Q round(Q x, int k, boolean up) {
    if (x.n.signum() == 0) return x;
    int e = x.n.abs().bitLength() - x.d.bitLength() - k; // |x| ~ 2^(e+k)
    BigInteger num = e >= 0 ? x.n : x.n.shiftLeft(-e), den = e >= 0 ? x.d.shiftLeft(e) : x.d;
    BigInteger[] qr = num.divideAndRemainder(den);
    BigInteger f = qr[0];
    if (qr[1].signum() != 0) {
      if (up && num.signum() > 0) f = f.add(ONE);
      if (!up && num.signum() < 0) f = f.subtract(ONE);
    }
    return e >= 0 ? new Q(f.shiftLeft(e)) : new Q(f, ONE.shiftLeft(-e));
  }
  public static Value RDown(Value a, Value k) { return val(round(parse(a), ((IntValue) k).val, false)); }
  public static Value RUp(Value a, Value k) { return val(round(parse(a), ((IntValue) k).val, true)); }
  static BigInteger iroot(BigInteger x, int n) { // floor of the n-th root, x >= 0
    if (x.signum() == 0) return ZERO;
    if (n == 2) return x.sqrt();
    BigInteger r = ONE.shiftLeft(x.bitLength() / n + 1), N = BigInteger.valueOf(n), N1 = BigInteger.valueOf(n - 1);
    for (;;) {
      BigInteger s = r.multiply(N1).add(x.divide(r.pow(n - 1))).divide(N);
      if (s.compareTo(r) >= 0) return r;
      r = s;
    }
  }
  static Q root(Q x, int n, int k, boolean up) { // k bits
    if (x.n.signum() < 0) throw new ArithmeticException("Rational: root of a negative number");
    if (x.n.signum() == 0) return x;
    int b = x.n.bitLength() - x.d.bitLength();
    int s = Math.max(0, k + 2 - b / n); // scale by 2^s in the result
    BigInteger num = x.n.shiftLeft(s * n);
    BigInteger fl = num.divide(x.d), r = iroot(fl, n);
    boolean exact = r.pow(n).multiply(x.d).equals(num);
    if (up && !exact) r = r.add(ONE);
    return new Q(r, ONE.shiftLeft(s));
  }
  public static Value RRootDown(Value a, Value n, Value k) { return val(root(parse(a), ((IntValue) n).val, ((IntValue) k).val, false)); }
  public static Value RRootUp(Value a, Value n, Value k) { return val(root(parse(a), ((IntValue) n).val, ((IntValue) k).val, true)); }
  // lower / upper bound of exp(a), error below 2^-80 relative
  static Q exp(Q x, boolean up) {
    int h = Math.max(0, x.n.abs().bitLength() - x.d.bitLength() + 2);
    Q y = round(new Q(x.n, x.d.shiftLeft(h)), 160 + h, false); // |y| <= 1/2
    Q t = new Q(ONE), s = new Q(ONE);
    for (int i = 1; i < 45; ++i) { t = round(t.mul(y).div(new Q(BigInteger.valueOf(i))), 200, false); s = s.add(t); }
    s = round(s, 200, false);
    for (int i = 0; i < h; ++i) s = round(s.mul(s), 200, false);
    Q eps = new Q(ONE, ONE.shiftLeft(100));
    return round(s.mul(up ? new Q(ONE).add(eps) : new Q(ONE).sub(eps)), 120, up);
  }
  public static Value RExpDown(Value a) { return val(exp(parse(a), false)); }
  public static Value RExpUp(Value a) { return val(exp(parse(a), true)); }
  // natural logarithm, absolute error below 2^-150 * max(1, |ln|)
  static Q atanh2(Q z) { // 2 atanh(z), |z| <= 1/3
    Q z2 = round(z.mul(z), 260, false), t = round(z, 260, false), s = new Q(ZERO);
    for (int i = 0; i < 100; ++i) { s = s.add(t.div(new Q(BigInteger.valueOf(2 * i + 1)))); s = round(s, 260, false); t = round(t.mul(z2), 260, false); }
    return s.add(s);
  }
  static final Q LN2 = atanh2(new Q(ONE, BigInteger.valueOf(3)));
  static Q ln(Q x) {
    int e = x.n.bitLength() - x.d.bitLength();
    Q m = e >= 0 ? new Q(x.n, x.d.shiftLeft(e)) : new Q(x.n.shiftLeft(-e), x.d); // 1/2 < m < 2
    return LN2.mul(new Q(BigInteger.valueOf(e))).add(atanh2(round(m.sub(new Q(ONE)).div(m.add(new Q(ONE))), 260, false)));
  }
  static Q power(Q a, Q x, boolean up) {
    if (a.n.signum() == 0) return x.n.signum() > 0 ? a : new Q(ZERO).div(a);
    if (a.n.signum() < 0) throw new ArithmeticException("Rational: power of a negative number");
    Q y = round(x, 200, false).mul(ln(a));
    Q eps = new Q(ONE, ONE.shiftLeft(110));
    y = round(y.mul(new Q(ONE)), 220, false);
    return exp(up ? y.add(eps) : y.sub(eps), up);
  }
  // lower / upper bound of a^x, error below 2^-80 relative
  public static Value RPowerDown(Value a, Value x) { return val(power(parse(a), parse(x), false)); }
  public static Value RPowerUp(Value a, Value x) { return val(power(parse(a), parse(x), true)); }
  public static Value RFloor(Value a) {
    Q x = parse(a);
    BigInteger[] qr = x.n.divideAndRemainder(x.d);
    BigInteger f = qr[1].signum() < 0 ? qr[0].subtract(ONE) : qr[0];
    return IntValue.gen(f.intValueExact());
  }
  public static Value RShow(Value a) {
    Q x = parse(a);
    return new StringValue(new BigDecimal(x.n).divide(new BigDecimal(x.d), new MathContext(17, RoundingMode.HALF_EVEN)).toString());
  }
}
