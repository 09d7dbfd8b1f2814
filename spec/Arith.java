/* TLC module override for Arith.tla: IEEE-754 double arithmetic primitives.
 * A real is the pair <<hi, lo>> of the signed 32 bit halves of its bit pattern.
 * Only arithmetic lives here; every formula of the camera model is written in TLA+. */
import tlc2.value.impl.*;

public class Arith {
  static double d(Value v) {
    TupleValue t = (v instanceof TupleValue) ? (TupleValue) v : (TupleValue) v.toTuple();
    long hi = ((IntValue) t.elems[0]).val, lo = ((IntValue) t.elems[1]).val;
    return Double.longBitsToDouble((hi << 32) | (lo & 0xffffffffL));
  }
  static Value v(double x) {
    long b = Double.doubleToLongBits(x);
    return new TupleValue(IntValue.gen((int) (b >> 32)), IntValue.gen((int) b));
  }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static int i(Value v) { return ((IntValue) v).val; }

  public static Value RInt(Value a) { return v(i(a)); }
  public static Value RRat(Value n, Value m) { return v((double) i(n) / (double) i(m)); }
  public static Value RSci(Value n, Value e) { return v(Double.parseDouble(i(n) + "e" + i(e))); }
  public static Value RAdd(Value x, Value y) { return v(d(x) + d(y)); }
  public static Value RSub(Value x, Value y) { return v(d(x) - d(y)); }
  public static Value RMul(Value x, Value y) { return v(d(x) * d(y)); }
  public static Value RDiv(Value x, Value y) { return v(d(x) / d(y)); }
  public static Value RNeg(Value x) { return v(-d(x)); }
  public static Value RAbs(Value x) { return v(Math.abs(d(x))); }
  public static Value RSqrt(Value x) { return v(Math.sqrt(d(x))); }
  public static Value RSin(Value x) { return v(Math.sin(d(x))); }
  public static Value RCos(Value x) { return v(Math.cos(d(x))); }
  public static Value RTan(Value x) { return v(Math.tan(d(x))); }
  public static Value RAsin(Value x) { return v(Math.asin(d(x))); }
  public static Value RAcos(Value x) { return v(Math.acos(d(x))); }
  public static Value RAtan(Value x) { return v(Math.atan(d(x))); }
  public static Value RAtan2(Value y, Value x) { return v(Math.atan2(d(y), d(x))); }
  public static Value RExp(Value x) { return v(Math.exp(d(x))); }
  public static Value RLog(Value x) { return v(Math.log(d(x))); }
  public static Value RFloor(Value x) { return v(Math.floor(d(x))); }
  public static Value RPowI(Value x, Value n) { return v(Math.pow(d(x), i(n))); }
  public static Value RMin(Value x, Value y) { return v(Math.min(d(x), d(y))); }
  public static Value RMax(Value x, Value y) { return v(Math.max(d(x), d(y))); }
  /* floored remainder, the sign follows the divisor */
  public static Value RMod(Value x, Value y) {
    double a = d(x), m = d(y), r = a % m;
    if (r != 0 && ((r < 0) != (m < 0))) r += m;
    return v(r);
  }
  public static Value RLt(Value x, Value y) { return b(d(x) < d(y)); }
  public static Value RLe(Value x, Value y) { return b(d(x) <= d(y)); }
  public static Value REq(Value x, Value y) { return b(d(x) == d(y)); }
  public static Value RIsNaN(Value x) { return b(Double.isNaN(d(x))); }
  public static Value RIsInf(Value x) { return b(Double.isInfinite(d(x))); }
  public static Value RIsFin(Value x) { return b(!Double.isNaN(d(x)) && !Double.isInfinite(d(x))); }
  /* nearest integer; values outside the 32 bit range saturate, NaN gives the lower limit */
  public static Value RRound(Value x) {
    double a = Math.rint(d(x));
    if (!(a > -2.147483648e9)) return IntValue.gen(Integer.MIN_VALUE);
    if (a > 2.147483647e9) return IntValue.gen(Integer.MAX_VALUE);
    return IntValue.gen((int) a);
  }
  public static Value RStr(Value x) { return new StringValue(Double.toString(d(x))); }
  /* sum of a sequence of reals */
  public static Value RSum(Value s) {
    TupleValue t = (TupleValue) s.toTuple();
    double a = 0;
    for (Value e : t.elems) a += d(e);
    return v(a);
  }
}
