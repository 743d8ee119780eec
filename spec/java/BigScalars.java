import java.math.BigInteger;
import tlc2.value.impl.*;
import tlc2.value.IBoolValue;

/**
 * Evaluates the operators of BigScalars.tla on decimal strings. The TLA+
 * module states what each operator means; this class only computes it.
 */
public class BigScalars {
  private static BigInteger of(Value v) {
    if (v instanceof IntValue) return BigInteger.valueOf(((IntValue) v).val);
    return new BigInteger(((StringValue) v).val.toString());
  }
  private static Value val(BigInteger b) { return new StringValue(b.toString()); }
  private static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value BOf(Value a) { return val(of(a)); }
  public static Value BAdd(Value a, Value b) { return val(of(a).add(of(b))); }
  public static Value BSub(Value a, Value b) { return val(of(a).subtract(of(b))); }
  public static Value BMul(Value a, Value b) { return val(of(a).multiply(of(b))); }
  public static Value BMod(Value a, Value m) { return val(of(a).mod(of(m))); }
  public static Value BDiv(Value a, Value m) {
    BigInteger[] qr = of(a).divideAndRemainder(of(m));
    if (qr[1].signum() < 0) qr[0] = qr[0].subtract(BigInteger.valueOf(of(m).signum()));
    return val(qr[0]);
  }
  public static Value BInv(Value a, Value m) { return val(of(a).modInverse(of(m))); }
  public static Value BPow2(Value n) { return val(BigInteger.ONE.shiftLeft(of(n).intValueExact())); }
  public static Value BExp(Value a, Value e, Value m) { return val(of(a).modPow(of(e), of(m))); }
  public static Value BLt(Value a, Value b) { return bool(of(a).compareTo(of(b)) < 0); }
  public static Value BLe(Value a, Value b) { return bool(of(a).compareTo(of(b)) <= 0); }
  public static Value BBitLen(Value a) { return IntValue.gen(of(a).bitLength()); }
  public static Value BBit(Value a, Value k) { return IntValue.gen(of(a).testBit(of(k).intValueExact()) ? 1 : 0); }
  public static Value BToInt(Value a) { return IntValue.gen(of(a).intValueExact()); }
}
