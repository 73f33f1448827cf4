import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** Num.tla over the real number range: a number is a decimal string. */
public class NumOverrides implements ITLCOverrides {
  @SuppressWarnings("rawtypes")
  public Class[] get() { return new Class[] {NumOverrides.class}; }

  private static final StringValue U64 = new StringValue("18446744073709551615");
  private static final StringValue SEQ = new StringValue("9223372036854775807");
  private static final StringValue BPSV = new StringValue("10000");

  private static String s(Value v) { return ((StringValue) v).val.toString(); }
  private static boolean fast(String a) { return a.length() <= 18; }
  private static BigInteger big(String a) { return new BigInteger(a); }
  private static StringValue out(long n) { return new StringValue(Long.toString(n)); }
  private static StringValue out(BigInteger n) { return new StringValue(n.toString()); }

  @TLAPlusOperator(identifier = "N", module = "Num", warn = false)
  public static Value num(Value i) { return out(((IntValue) i).val); }
  @TLAPlusOperator(identifier = "U64MAX", module = "Num", warn = false)
  public static Value u64max() { return U64; }
  @TLAPlusOperator(identifier = "SEQMAX", module = "Num", warn = false)
  public static Value seqmax() { return SEQ; }
  @TLAPlusOperator(identifier = "BPS", module = "Num", warn = false)
  public static Value bps() { return BPSV; }

  @TLAPlusOperator(identifier = "++", module = "Num", warn = false)
  public static Value add(Value a, Value b) {
    String x = s(a), y = s(b);
    if (fast(x) && fast(y)) return out(Long.parseLong(x) + Long.parseLong(y));
    return out(big(x).add(big(y)));
  }
  @TLAPlusOperator(identifier = "--", module = "Num", warn = false)
  public static Value sub(Value a, Value b) {
    String x = s(a), y = s(b);
    if (fast(x) && fast(y)) return out(Long.parseLong(x) - Long.parseLong(y));
    return out(big(x).subtract(big(y)));
  }
  @TLAPlusOperator(identifier = "**", module = "Num", warn = false)
  public static Value mul(Value a, Value b) {
    String x = s(a), y = s(b);
    if (x.length() + y.length() <= 18) return out(Long.parseLong(x) * Long.parseLong(y));
    return out(big(x).multiply(big(y)));
  }
  /** floor division, divisor > 0 */
  @TLAPlusOperator(identifier = "//", module = "Num", warn = false)
  public static Value div(Value a, Value b) {
    String x = s(a), y = s(b);
    if (fast(x) && fast(y)) return out(Math.floorDiv(Long.parseLong(x), Long.parseLong(y)));
    BigInteger[] qr = big(x).divideAndRemainder(big(y));
    return out(qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0]);
  }
  @TLAPlusOperator(identifier = "%%", module = "Num", warn = false)
  public static Value mod(Value a, Value b) {
    String x = s(a), y = s(b);
    if (fast(x) && fast(y)) return out(Math.floorMod(Long.parseLong(x), Long.parseLong(y)));
    return out(big(x).mod(big(y)));
  }
  private static int cmp(Value a, Value b) {
    String x = s(a), y = s(b);
    if (fast(x) && fast(y)) return Long.compare(Long.parseLong(x), Long.parseLong(y));
    return big(x).compareTo(big(y));
  }
  @TLAPlusOperator(identifier = "\\prec", module = "Num", warn = false)
  public static Value lt(Value a, Value b) { return cmp(a, b) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  @TLAPlusOperator(identifier = "\\preceq", module = "Num", warn = false)
  public static Value le(Value a, Value b) { return cmp(a, b) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }

  @TLAPlusOperator(identifier = "ToInt", module = "Num", warn = false)
  public static Value toInt(Value a, Value cap) {
    BigInteger x = big(s(a));
    int c = ((IntValue) cap).val;
    return x.compareTo(BigInteger.valueOf(c)) > 0 ? cap : IntValue.gen(x.intValueExact());
  }
  @TLAPlusOperator(identifier = "LE", module = "Num", warn = false)
  public static Value le(Value bytes, Value from, Value n) {
    TupleValue t = (TupleValue) bytes.toTuple();
    int f = ((IntValue) from).val - 1, k = ((IntValue) n).val;
    byte[] be = new byte[k];
    for (int i = 0; i < k; i++) be[k - 1 - i] = (byte) ((IntValue) t.elems[f + i]).val;
    return out(new BigInteger(1, be));
  }
  @TLAPlusOperator(identifier = "SumOver", module = "Num", warn = false)
  public static Value sumOver(Value set, Value f) {
    BigInteger r = BigInteger.ZERO;
    ValueEnumeration e = ((Enumerable) set).elements();
    FunctionValue g = (FunctionValue) f;
    for (Value k = e.nextElement(); k != null; k = e.nextElement()) r = r.add(big(s(g.select(k))));
    return out(r);
  }
}
