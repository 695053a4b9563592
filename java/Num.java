// TLC module override for spec/Num.tla: real arithmetic.
//
// TLC has no real numbers.  This class gives TLC values that are reals, held as
// 40-digit decimals (plus NaN, +oo and -oo), and evaluates the operators that
// Num.tla declares.  It contains arithmetic only: no formula of any frds model
// lives here.  SelfTest.tla checks it against the field axioms and known
// constants.
import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;

import tlc2.tool.EvalException;
import tlc2.tool.EvalControl;
import tlc2.value.IValue;
import tlc2.value.IValueOutputStream;
import tlc2.value.IMVPerm;
import tlc2.value.Values;
import tlc2.value.impl.*;
import util.UniqueString;

public class Num {
  static final MathContext MC = new MathContext(40, RoundingMode.HALF_EVEN);
  static final MathContext HI = new MathContext(52, RoundingMode.HALF_EVEN);
  static final int FIN = 0, PINF = 1, NINF = 2, NAN = 3;
  // magnitudes beyond 10^BIG overflow to infinity, below 10^-BIG flush to zero
  static final int BIG = 100000;

  public static final class R extends Value {
    final int kind;
    final BigDecimal v;
    R(BigDecimal v) { this.kind = FIN; this.v = v; }
    R(int k) { this.kind = k; this.v = null; }
    @Override public byte getKind() { return REALVALUE; }
    @Override public String getKindString() { return "a real number"; }
    private String text;
    String canon() {
      if (text == null) text = canon1();
      return text;
    }
    private String canon1() {
      switch (kind) {
        case PINF: return "Infinity";
        case NINF: return "-Infinity";
        case NAN: return "NaN";
      }
      if (v.signum() == 0) return "0";
      return v.stripTrailingZeros().toString();
    }
    @Override public int compareTo(Object o) {
      R b = real(o, "compareTo");
      if (kind == FIN && b.kind == FIN) return v.compareTo(b.v);
      return Integer.compare(kind, b.kind);
    }
    @Override public boolean equals(Object o) {
      if (!(o instanceof R) && !(o instanceof StringValue) && !(o instanceof IntValue)) return false;
      return compareTo(o) == 0;
    }
    @Override public boolean member(Value e) { throw new EvalException(1000, "member of a real"); }
    @Override public boolean isFinite() { throw new EvalException(1000, "isFinite of a real"); }
    @Override public Value takeExcept(ValueExcept ex) { return this; }
    @Override public Value takeExcept(ValueExcept[] exs) { return this; }
    @Override public Value normalize() { return this; }
    @Override public boolean isNormalized() { return true; }
    @Override public boolean isDefined() { return true; }
    @Override public boolean mutates() { return false; }
    @Override public IValue deepCopy() { return this; }
    @Override public int size() { throw new EvalException(1000, "size of a real"); }
    @Override public long fingerPrint(long fp) { 
      String s = canon();                 // as a string value would, without interning it
      fp = tlc2.util.FP64.Extend(fp, STRINGVALUE);
      fp = tlc2.util.FP64.Extend(fp, s.length());
      return tlc2.util.FP64.Extend(fp, s);
    }
    @Override public IValue permute(IMVPerm p) { return this; }
    @Override public void write(IValueOutputStream vos) throws java.io.IOException {
      new StringValue(canon()).write(vos);
    }
    @Override public StringBuffer toString(StringBuffer sb, int off, boolean sw) {
      return sb.append('"').append(show(this, 17)).append('"');
    }
  }

  static final R NaN = new R(NAN), PosInf = new R(PINF), NegInf = new R(NINF);
  static final R ZERO = new R(BigDecimal.ZERO), ONE = new R(BigDecimal.ONE);

  static String show(R a, int digits) {
    if (a.kind != FIN) return a.canon();
    if (a.v.signum() == 0) return "0";
    return a.v.round(new MathContext(digits)).stripTrailingZeros().toString();
  }

  static final java.util.concurrent.ConcurrentHashMap<String, R> parsed = new java.util.concurrent.ConcurrentHashMap<>();

  static R parse(String s) {
    switch (s) {
      case "NaN": return NaN;
      case "Infinity": case "inf": return PosInf;
      case "-Infinity": case "-inf": return NegInf;
    }
    int k = s.indexOf('/');
    try {
      if (k > 0) return div(new R(new BigDecimal(s.substring(0, k))), new R(new BigDecimal(s.substring(k + 1))));
      return new R(new BigDecimal(s).round(MC));
    } catch (NumberFormatException e) { return null; }
  }

  static R real(Object o, String op) {
    if (o instanceof R) return (R) o;
    if (o instanceof IntValue) return new R(BigDecimal.valueOf(((IntValue) o).val));
    if (o instanceof StringValue) {
      String u = ((StringValue) o).val.toString();
      R r = parsed.get(u);
      if (r == null) {
        r = parse(u);
        if (r != null && parsed.size() < 200000) parsed.put(u, r);
      }
      if (r != null) return r;
    }
    throw new EvalException(1000, "Num!" + op + ": not a real number: " + o);
  }

  static R fin(BigDecimal d) {
    if (d.signum() == 0) return ZERO;
    d = d.round(MC);
    long mag = (long) d.precision() - d.scale();
    if (mag > BIG) return d.signum() > 0 ? PosInf : NegInf;
    if (mag < -BIG) return ZERO;
    return new R(d);
  }
  static int sgn(R a) { return a.kind == FIN ? a.v.signum() : a.kind == PINF ? 1 : a.kind == NINF ? -1 : 0; }
  static R inf(int s) { return s > 0 ? PosInf : NegInf; }
  static R neg(R a) {
    switch (a.kind) { case PINF: return NegInf; case NINF: return PosInf; case NAN: return NaN; }
    return new R(a.v.negate());
  }
  static R add(R a, R b) {
    if (a.kind == FIN && b.kind == FIN) return fin(a.v.add(b.v));
    if (a.kind == NAN || b.kind == NAN) return NaN;
    if (a.kind != FIN && b.kind != FIN) return a.kind == b.kind ? a : NaN;
    return a.kind != FIN ? a : b;
  }
  static R mul(R a, R b) {
    if (a.kind == FIN && b.kind == FIN) return fin(a.v.multiply(b.v));
    if (a.kind == NAN || b.kind == NAN) return NaN;
    int s = sgn(a) * sgn(b);
    return s == 0 ? NaN : inf(s);
  }
  static R div(R a, R b) {
    if (a.kind == NAN || b.kind == NAN) return NaN;
    if (b.kind != FIN) return a.kind == FIN ? ZERO : NaN;
    if (b.v.signum() == 0) return sgn(a) == 0 ? NaN : inf(sgn(a));   // zeros are unsigned (+0)
    if (a.kind != FIN) return inf(sgn(a) * sgn(b));
    return fin(a.v.divide(b.v, MC));
  }
  static R sqrt(R a) {
    if (a.kind == NAN || sgn(a) < 0) return NaN;
    if (a.kind == PINF) return a;
    if (a.v.signum() == 0) return ZERO;
    return fin(a.v.sqrt(MC));
  }

  // ---- elementary functions, 52 digits inside, 40 returned
  static final BigDecimal LN2 = lnSmall(new BigDecimal(2));
  static final BigDecimal LN10 = lnRaw(BigDecimal.TEN);
  static final BigDecimal PI = pi();

  // ln x for x in about [0.5, 2]: 2 artanh((x-1)/(x+1))
  static BigDecimal lnSmall(BigDecimal x) {
    BigDecimal y = x.subtract(BigDecimal.ONE).divide(x.add(BigDecimal.ONE), HI);
    BigDecimal y2 = y.multiply(y, HI), t = y, s = y;
    for (int k = 3; ; k += 2) {
      t = t.multiply(y2, HI);
      BigDecimal d = t.divide(BigDecimal.valueOf(k), HI);
      if (d.signum() == 0 || d.precision() - d.scale() < -56 + Math.min(0, s.precision() - s.scale())) break;
      s = s.add(d, HI);
    }
    return s.multiply(BigDecimal.valueOf(2), HI);
  }
  static BigDecimal lnRaw(BigDecimal x) {   // x in [1, 10]
    int k = 0;
    BigDecimal two = BigDecimal.valueOf(2);
    while (x.compareTo(new BigDecimal("1.42")) > 0) { x = x.divide(two, HI); k++; }
    return lnSmall(x).add(LN2.multiply(BigDecimal.valueOf(k)), HI);
  }
  static R ln(R a) {
    if (a.kind == NAN || sgn(a) < 0) return NaN;
    if (a.kind == PINF) return a;
    if (a.v.signum() == 0) return NegInf;
    if (a.v.compareTo(new BigDecimal("0.6")) > 0 && a.v.compareTo(new BigDecimal("1.5")) < 0) return fin(lnSmall(a.v));
    int e = a.v.precision() - a.v.scale() - 1;          // a = m * 10^e, 1 <= m < 10
    BigDecimal m = a.v.scaleByPowerOfTen(-e);
    return fin(lnRaw(m).add(LN10.multiply(BigDecimal.valueOf(e)), HI));
  }
  static BigDecimal expRaw(BigDecimal x) {  // |x| <= ~1.2
    BigDecimal h = x.divide(BigDecimal.valueOf(256), HI), t = BigDecimal.ONE, s = BigDecimal.ONE;
    for (int k = 1; ; k++) {
      t = t.multiply(h, HI).divide(BigDecimal.valueOf(k), HI);
      if (t.signum() == 0 || t.precision() - t.scale() < -56) break;
      s = s.add(t, HI);
    }
    for (int i = 0; i < 8; i++) s = s.multiply(s, HI);
    return s;
  }
  static R exp(R a) {
    switch (a.kind) { case PINF: return a; case NINF: return ZERO; case NAN: return NaN; }
    if (a.v.abs().compareTo(BigDecimal.valueOf(240000)) > 0) return a.v.signum() > 0 ? PosInf : ZERO;
    BigDecimal k = a.v.divide(LN10, HI).setScale(0, RoundingMode.HALF_EVEN);
    BigDecimal r = a.v.subtract(k.multiply(LN10), HI);
    return fin(expRaw(r).scaleByPowerOfTen(k.intValueExact()));
  }
  static BigDecimal pi() {                 // Machin
    return arctanInv(5).multiply(BigDecimal.valueOf(16)).subtract(arctanInv(239).multiply(BigDecimal.valueOf(4)), HI);
  }
  static BigDecimal arctanInv(int n) {
    BigDecimal x = BigDecimal.ONE.divide(BigDecimal.valueOf(n), HI), n2 = BigDecimal.valueOf((long) n * n), s = x, t = x;
    for (int k = 1; ; k++) {
      t = t.divide(n2, HI).negate();
      BigDecimal d = t.divide(BigDecimal.valueOf(2L * k + 1), HI);
      if (d.precision() - d.scale() < -56) break;
      s = s.add(d, HI);
    }
    return s;
  }
  // standard normal cdf: series near zero, continued fraction in the tails
  static R phi(R a) {
    switch (a.kind) { case PINF: return ONE; case NINF: return ZERO; case NAN: return NaN; }
    BigDecimal x = a.v.round(MC), ax = x.abs();
    R pdf = div(exp(new R(x.multiply(x, HI).divide(BigDecimal.valueOf(-2), HI))), sqrt(new R(PI.multiply(BigDecimal.valueOf(2), HI))));
    if (ax.compareTo(BigDecimal.valueOf(6)) <= 0) {
      BigDecimal x2 = x.multiply(x, HI), t = x, s = x;
      for (int k = 1; ; k++) {
        t = t.multiply(x2, HI).divide(BigDecimal.valueOf(2L * k + 1), HI);
        if (t.signum() == 0 || t.precision() - t.scale() < -56) break;
        s = s.add(t, HI);
      }
      return fin(s.multiply(pdf.v, HI).add(new BigDecimal("0.5"), HI));
    }
    BigDecimal f = ax;
    for (int k = 260; k >= 1; k--) f = ax.add(BigDecimal.valueOf(k).divide(f, HI), HI);
    R tail = div(pdf, new R(f));
    return x.signum() < 0 ? tail : add(ONE, neg(tail));
  }
  static int cmp(R a, R b) { // neither NaN
    if (a.kind == FIN && b.kind == FIN) return a.v.compareTo(b.v);
    if (a.kind == b.kind) return 0;
    if (a.kind == PINF || b.kind == NINF) return 1;
    return -1;
  }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static Value[] seq(Value s, String op) {
    Value t = s.toTuple();
    if (!(t instanceof TupleValue)) throw new EvalException(1000, "Num!" + op + ": not a sequence");
    return ((TupleValue) t).elems;
  }

  // ---- operators declared in Num.tla
  public static Value RVal(Value a) { return real(a, "RVal"); }
  public static Value RStr(Value a) { return new StringValue(show(real(a, "RStr"), 17)); }
  public static Value RIsNaN(Value a) { return bool(real(a, "RIsNaN").kind == NAN); }
  public static Value RIsFinite(Value a) { return bool(real(a, "RIsFinite").kind == FIN); }
  public static Value RNeg(Value a) { return neg(real(a, "RNeg")); }
  public static Value RAdd(Value a, Value b) { return add(real(a, "RAdd"), real(b, "RAdd")); }
  public static Value RSub(Value a, Value b) { return add(real(a, "RSub"), neg(real(b, "RSub"))); }
  public static Value RMul(Value a, Value b) { return mul(real(a, "RMul"), real(b, "RMul")); }
  public static Value RDiv(Value a, Value b) { return div(real(a, "RDiv"), real(b, "RDiv")); }
  public static Value RSqrt(Value a) { return sqrt(real(a, "RSqrt")); }
  public static Value RLn(Value a) { return ln(real(a, "RLn")); }
  public static Value RExp(Value a) { return exp(real(a, "RExp")); }
  public static Value RPhi(Value a) { return phi(real(a, "RPhi")); }
  public static Value RAbs(Value a) { R x = real(a, "RAbs"); return sgn(x) < 0 ? neg(x) : x; }
  public static Value RLt(Value a, Value b) {
    R x = real(a, "RLt"), y = real(b, "RLt");
    return bool(x.kind != NAN && y.kind != NAN && cmp(x, y) < 0);
  }
  public static Value RLe(Value a, Value b) {
    R x = real(a, "RLe"), y = real(b, "RLe");
    return bool(x.kind != NAN && y.kind != NAN && cmp(x, y) <= 0);
  }
  public static Value REq(Value a, Value b) {
    R x = real(a, "REq"), y = real(b, "REq");
    return bool(x.kind != NAN && y.kind != NAN && cmp(x, y) == 0);
  }
  public static Value RIPow(Value a, Value n) {
    R x = real(a, "RIPow");
    int k = ((IntValue) n).val;
    R r = ONE, b = x;
    for (int e = Math.abs(k); e > 0; e >>= 1) { if ((e & 1) == 1) r = mul(r, b); b = mul(b, b); }
    return k < 0 ? div(ONE, r) : r;
  }
  public static Value RFloor(Value a) {
    R x = real(a, "RFloor");
    if (x.kind != FIN) throw new EvalException(1000, "RFloor of " + x.canon());
    return IntValue.gen(x.v.setScale(0, RoundingMode.FLOOR).intValueExact());
  }
  public static Value RSum(Value s) {
    R r = ZERO;
    for (Value e : seq(s, "RSum")) r = add(r, real(e, "RSum"));
    return r;
  }
  public static Value RSeq(Value s) {
    Value[] x = seq(s, "RSeq"), y = new Value[x.length];
    for (int i = 0; i < x.length; i++) y[i] = real(x[i], "RSeq");
    return new TupleValue(y);
  }
  public static Value SShift(Value s, Value c) {
    Value[] x = seq(s, "SShift"), y = new Value[x.length];
    R d = real(c, "SShift");
    for (int i = 0; i < x.length; i++) y[i] = add(real(x[i], "SShift"), d);
    return new TupleValue(y);
  }
  public static Value RDot(Value s, Value t) {
    Value[] x = seq(s, "RDot"), y = seq(t, "RDot");
    if (x.length != y.length) throw new EvalException(1000, "RDot: lengths differ");
    R r = ZERO;
    for (int i = 0; i < x.length; i++) r = add(r, mul(real(x[i], "RDot"), real(y[i], "RDot")));
    return r;
  }
  // rank permutation of a sequence of reals (stable, ascending), NaN last
  public static Value RArgSort(Value s) {
    Value[] x = seq(s, "RArgSort");
    R[] r = new R[x.length];
    Integer[] ix = new Integer[x.length];
    for (int i = 0; i < x.length; i++) { r[i] = real(x[i], "RArgSort"); ix[i] = i; }
    java.util.Arrays.sort(ix, (i, j) -> r[i].kind == NAN || r[j].kind == NAN ? Boolean.compare(r[i].kind == NAN, r[j].kind == NAN) : cmp(r[i], r[j]));
    Value[] out = new Value[x.length];
    for (int i = 0; i < x.length; i++) out[i] = IntValue.gen(ix[i] + 1);
    return new TupleValue(out);
  }
  public static final Value RPi() { return fin(PI); }
}
