import java.math.BigInteger;
import java.util.LinkedHashMap;
import java.util.Map;
import tlc2.value.impl.*;

/** Evaluates the operators of module Newton for TLC. */
public class Newton {
  static final Value NIL = new StringValue("none");
  static final BigInteger ONE = BigInteger.ONE;

  static BigInteger[] seq(Value x) {
    Value[] e = ((TupleValue) x.toTuple()).elems;
    BigInteger[] r = new BigInteger[e.length];
    for (int i = 0; i < e.length; i++) r[i] = BigNum.v(e[i]);
    return r;
  }
  static boolean fits(BigInteger a, int w) { return a.signum() >= 0 && a.bitLength() <= w; }
  static boolean close(BigInteger a, BigInteger b) { return a.subtract(b).abs().compareTo(ONE) <= 0; }

  static final Map<String, Value> memo = new LinkedHashMap<String, Value>(512, 0.75f, true) {
    protected boolean removeEldestEntry(Map.Entry<String, Value> e) { return size() > 4096; }
  };

  public static Value DSolve(Value xs, Value an, Value wd) {
    BigInteger[] x = seq(xs);
    String key = java.util.Arrays.toString(x) + an + "/" + wd;
    synchronized (memo) {
      Value v = memo.get(key);
      if (v == null) {
        v = solve(x, BigNum.v(an), BigNum.n(wd));
        memo.put(key, v);
      }
      return v;
    }
  }
  static Value solve(BigInteger[] x, BigInteger ann, int w) {
    BigInteger sum = BigInteger.ZERO, n = BigInteger.valueOf(x.length);
    for (BigInteger a : x) sum = sum.add(a);
    BigInteger d = sum;
    for (int k = 0; k < 256; k++) {
      BigInteger dp = d;
      for (BigInteger a : x) {
        BigInteger m = dp.multiply(d), q = a.multiply(n);
        if (!fits(m, w) || q.signum() == 0 || !fits(q, 128)) return NIL;
        dp = m.divide(q);
      }
      BigInteger nu = d.multiply(dp.multiply(n).add(sum.multiply(ann)));
      BigInteger de = d.multiply(ann.subtract(ONE)).add(dp.multiply(n.add(ONE)));
      if (!fits(nu, w) || !fits(de, w) || de.signum() == 0) return NIL;
      BigInteger e = nu.divide(de);
      if (close(e, d)) return BigNum.r(e);
      d = e;
    }
    return BigNum.r(d);
  }

  public static Value YTerm(Value xs, Value dv, Value cv, Value ixv, Value iyv, Value wd) {
    BigInteger[] x = seq(xs);
    BigInteger d = BigNum.v(dv), c = BigNum.v(cv);
    int ix = BigNum.n(ixv), iy = BigNum.n(iyv), w = BigNum.n(wd);
    for (int i = 1; i <= x.length; i++) {
      if (i == ix || i == iy) continue;
      BigInteger m = c.multiply(d);
      if (!fits(m, w) || x[i - 1].signum() == 0) return NIL;
      c = m.divide(x[i - 1]);
    }
    return BigNum.r(c);
  }

  public static Value YSolve(Value bv, Value cv, Value dv, Value wd) {
    BigInteger b = BigNum.v(bv), c = BigNum.v(cv), d = BigNum.v(dv), y = d;
    int w = BigNum.n(wd);
    for (int k = 0; k < 256; k++) {
      BigInteger nu = y.multiply(y).add(c), de = y.shiftLeft(1).add(b).subtract(d);
      if (!fits(nu, w) || de.signum() <= 0) return NIL;
      BigInteger z = nu.divide(de);
      if (close(z, y)) return BigNum.r(z);
      y = z;
    }
    return BigNum.r(y);
  }
}
