import java.math.BigInteger;
import java.util.Arrays;
import java.util.regex.Pattern;
import tlc2.value.impl.*;

/** Evaluates the operators of module BigNum for TLC. */
public class BigNum {
  static String str(Value x) { return x instanceof StringValue ? ((StringValue) x).val.toString() : x.toString(); }
  static BigInteger v(Value x) {
    if (x instanceof IntValue) return BigInteger.valueOf(((IntValue) x).val);
    if (x instanceof StringValue) return new BigInteger(((StringValue) x).val.toString());
    throw new RuntimeException("BigNum: not a number: " + x);
  }
  static int n(Value x) { return v(x).intValueExact(); }
  static Value r(BigInteger b) { return new StringValue(b.toString()); }
  static Value b(boolean c) { return c ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value BAdd(Value a, Value c) { return r(v(a).add(v(c))); }
  public static Value BSub(Value a, Value c) { return r(v(a).subtract(v(c))); }
  public static Value BMul(Value a, Value c) { return r(v(a).multiply(v(c))); }
  public static Value BDiv(Value a, Value c) { return r(v(a).divide(v(c))); }
  public static Value BMod(Value a, Value c) { return r(v(a).mod(v(c))); }
  public static Value BPow(Value a, Value c) { return r(v(a).pow(n(c))); }
  public static Value BSqrt(Value a) { return r(v(a).sqrt()); }
  public static Value BLt(Value a, Value c) { return b(v(a).compareTo(v(c)) < 0); }
  public static Value BLe(Value a, Value c) { return b(v(a).compareTo(v(c)) <= 0); }
  public static Value BEq(Value a, Value c) { return b(v(a).equals(v(c))); }
  public static Value BInt(Value a) { return IntValue.gen(n(a)); }
  public static Value BStr(Value a) { return r(v(a)); }
  public static Value BFits(Value a, Value c) { return b(v(a).signum() >= 0 && v(a).bitLength() <= n(c)); }

  public static Value SStarts(Value s, Value p) { return b(str(s).startsWith(str(p))); }
  public static Value SEnds(Value s, Value p) { return b(str(s).endsWith(str(p))); }
  public static Value SDrop(Value s, Value k) { return new StringValue(str(s).substring(Math.min(n(k), str(s).length()))); }
  public static Value SSplit(Value s, Value c) {
    String[] ps = str(s).split(Pattern.quote(str(c)), -1);
    Value[] vs = new Value[ps.length];
    for (int i = 0; i < ps.length; i++) vs[i] = new StringValue(ps[i]);
    return new TupleValue(vs);
  }
  public static Value SCat(Value s, Value t) { return new StringValue(str(s) + str(t)); }
  public static Value SLen(Value s) { return IntValue.gen(str(s).length()); }
  public static Value SIsNum(Value s) { return b(str(s).matches("[0-9]+")); }
  public static Value IsStr(Value s) { return b(s instanceof StringValue); }
  public static Value SSort(Value s) {
    Value n = s.toSetEnum(); n.normalize(); ValueVec e = ((SetEnumValue) n).elems;
    String[] ps = new String[e.size()];
    for (int i = 0; i < ps.length; i++) ps[i] = str(e.elementAt(i));
    Arrays.sort(ps);
    Value[] vs = new Value[ps.length];
    for (int i = 0; i < ps.length; i++) vs[i] = new StringValue(ps[i]);
    return new TupleValue(vs);
  }

  /** Equality that never fails: values of different types differ. */
  public static Value VEq(Value a, Value c) {
    try { return b(a.equals(c)); } catch (RuntimeException e) { return b(false); }
  }
  /** Prints a value on one line. */
  public static Value Emit(Value a) {
    a.deepNormalize();
    synchronized (System.out) { System.out.println("@@" + a.toString()); }
    return BoolValue.ValTrue;
  }
}
