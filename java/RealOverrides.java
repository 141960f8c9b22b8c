// TLC module overrides for spec/lib/Real.tla and spec/lib/LinAlg.tla.
// A real number is a TLA+ string: a decimal ("-1.25e-3"), a C hexfloat
// ("0x1.8p+1"), or "nan" / "inf" / "-inf".  Finite arithmetic is carried out
// with 60 significant decimal digits, so every value is exact for the small
// dyadic inputs the models use and otherwise correct far below double rounding.
import java.math.*;
import java.util.*;
import tlc2.overrides.*;
import tlc2.value.impl.*;

public class RealOverrides implements ITLCOverrides {
  public Class[] get() { return new Class[] {RealOverrides.class}; }

  static final MathContext MC = new MathContext(60, RoundingMode.HALF_EVEN);
  static final MathContext MCX = new MathContext(75, RoundingMode.HALF_EVEN);
  static final BigDecimal TWO = BigDecimal.valueOf(2);

  /** finite (b != null) or special (b == null, d in {nan, inf, -inf}) */
  static final class N {
    final BigDecimal b; final double d;
    N(BigDecimal b) { this.b = b; this.d = 0; }
    N(double d) { if (Double.isNaN(d) || Double.isInfinite(d)) { this.b = null; this.d = d; } else { this.b = new BigDecimal(d); this.d = 0; } }
    boolean fin() { return b != null; }
    double dbl() { return b == null ? d : b.doubleValue(); }
    boolean zero() { return b != null && b.signum() == 0; }
  }
  static N parse(String s) {
    switch (s) {
      case "nan": case "-nan": return new N(Double.NaN);
      case "inf": return new N(Double.POSITIVE_INFINITY);
      case "-inf": return new N(Double.NEGATIVE_INFINITY);
    }
    if (s.indexOf('x') >= 0) return new N(Double.parseDouble(s));
    int sl = s.indexOf('/');
    if (sl >= 0) return new N(new BigDecimal(s.substring(0, sl)).divide(new BigDecimal(s.substring(sl + 1)), MC));
    return new N(new BigDecimal(s));
  }
  static N num(Value v) {
    if (v instanceof IntValue) return new N(BigDecimal.valueOf(((IntValue) v).val));
    if (v instanceof StringValue) return parse(((StringValue) v).val.toString());
    throw new RuntimeException("not a real: " + v);
  }
  static String str(N n) {
    if (!n.fin()) return Double.isNaN(n.d) ? "nan" : n.d > 0 ? "inf" : "-inf";
    if (n.b.signum() == 0) return "0";
    return n.b.round(MC).stripTrailingZeros().toString();
  }
  static Value val(N n) { return new StringValue(str(n)); }
  static Value val(BigDecimal b) { return val(new N(b)); }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

  static N add(N a, N b) { return a.fin() && b.fin() ? new N(a.b.add(b.b, MC)) : new N(a.dbl() + b.dbl()); }
  static N sub(N a, N b) { return a.fin() && b.fin() ? new N(a.b.subtract(b.b, MC)) : new N(a.dbl() - b.dbl()); }
  static N mul(N a, N b) { return a.fin() && b.fin() ? new N(a.b.multiply(b.b, MC)) : new N(a.dbl() * b.dbl()); }
  static N div(N a, N b) {
    if (a.fin() && b.fin() && !b.zero()) return new N(a.b.divide(b.b, MC));
    return new N(a.dbl() / b.dbl());
  }
  static int cmp(N a, N b) { return a.fin() && b.fin() ? a.b.compareTo(b.b) : Double.compare(a.dbl(), b.dbl()); }
  static boolean nan(N a) { return !a.fin() && Double.isNaN(a.d); }

  @TLAPlusOperator(identifier = "R", module = "Real", warn = false)
  public static Value r(final Value a) { return val(num(a)); }
  @TLAPlusOperator(identifier = "RAdd", module = "Real", warn = false)
  public static Value radd(final Value a, final Value b) { return val(add(num(a), num(b))); }
  @TLAPlusOperator(identifier = "RSub", module = "Real", warn = false)
  public static Value rsub(final Value a, final Value b) { return val(sub(num(a), num(b))); }
  @TLAPlusOperator(identifier = "RMul", module = "Real", warn = false)
  public static Value rmul(final Value a, final Value b) { return val(mul(num(a), num(b))); }
  @TLAPlusOperator(identifier = "RDiv", module = "Real", warn = false)
  public static Value rdiv(final Value a, final Value b) { return val(div(num(a), num(b))); }
  @TLAPlusOperator(identifier = "RNeg", module = "Real", warn = false)
  public static Value rneg(final Value a) { N x = num(a); return val(x.fin() ? new N(x.b.negate()) : new N(-x.d)); }
  @TLAPlusOperator(identifier = "RAbs", module = "Real", warn = false)
  public static Value rabs(final Value a) { N x = num(a); return val(x.fin() ? new N(x.b.abs()) : new N(Math.abs(x.d))); }
  @TLAPlusOperator(identifier = "RLt", module = "Real", warn = false)
  public static Value rlt(final Value a, final Value b) { N x = num(a), y = num(b); return bool(!nan(x) && !nan(y) && cmp(x, y) < 0); }
  @TLAPlusOperator(identifier = "RLeq", module = "Real", warn = false)
  public static Value rleq(final Value a, final Value b) { N x = num(a), y = num(b); return bool(!nan(x) && !nan(y) && cmp(x, y) <= 0); }
  @TLAPlusOperator(identifier = "REq", module = "Real", warn = false)
  public static Value req(final Value a, final Value b) { N x = num(a), y = num(b); return bool(!nan(x) && !nan(y) && cmp(x, y) == 0); }
  /** identical values, nan identical to nan */
  @TLAPlusOperator(identifier = "RSame", module = "Real", warn = false)
  public static Value rsame(final Value a, final Value b) { N x = num(a), y = num(b); return bool(nan(x) ? nan(y) : !nan(y) && cmp(x, y) == 0); }
  @TLAPlusOperator(identifier = "RIsFinite", module = "Real", warn = false)
  public static Value rfin(final Value a) { return bool(num(a).fin()); }
  @TLAPlusOperator(identifier = "RIsNan", module = "Real", warn = false)
  public static Value risnan(final Value a) { return bool(nan(num(a))); }
  static boolean near(N x, N y, N rt, N at) {
    if (!x.fin() || !y.fin()) return nan(x) ? nan(y) : !nan(y) && cmp(x, y) == 0;
    BigDecimal m = x.b.abs().max(y.b.abs());
    return x.b.subtract(y.b, MC).abs().compareTo(at.b.add(rt.b.multiply(m, MC), MC)) <= 0;
  }
  @TLAPlusOperator(identifier = "RNear", module = "Real", warn = false)
  public static Value rnear(final Value a, final Value b, final Value rt, final Value at) {
    return bool(near(num(a), num(b), num(rt), num(at)));
  }
  @TLAPlusOperator(identifier = "RSqrt", module = "Real", warn = false)
  public static Value rsqrt(final Value a) {
    N x = num(a);
    if (!x.fin() || x.b.signum() < 0) return val(new N(Math.sqrt(x.dbl())));
    return val(x.b.signum() == 0 ? x.b : x.b.sqrt(MC));
  }
  static BigDecimal exp(BigDecimal x) {
    if (x.signum() == 0) return BigDecimal.ONE;
    if (x.compareTo(BigDecimal.valueOf(-5000)) < 0) return BigDecimal.ZERO;
    if (x.compareTo(BigDecimal.valueOf(5000)) > 0) throw new RuntimeException("exp overflow");
    int k = 0;
    BigDecimal y = x;
    while (y.abs().compareTo(new BigDecimal("0.01")) > 0) { y = y.divide(TWO, MCX); k++; }
    BigDecimal t = BigDecimal.ONE, s = BigDecimal.ONE;
    for (int i = 1; i < 60; i++) { t = t.multiply(y, MCX).divide(BigDecimal.valueOf(i), MCX); s = s.add(t, MCX); if (t.signum() == 0) break; }
    MathContext w = new MathContext(85);
    for (int i = 0; i < k; i++) s = s.multiply(s, w);
    return s;
  }
  static BigDecimal log(BigDecimal x) {
    // Newton on exp from the double estimate, after scaling into range
    int e = x.precision() - x.scale();
    BigDecimal m = x.scaleByPowerOfTen(-e); // in [0.1, 1)
    BigDecimal y = new BigDecimal(Math.log(m.doubleValue()));
    for (int i = 0; i < 4; i++) {
      BigDecimal ey = exp(y);
      y = y.add(TWO.multiply(m.subtract(ey), MCX).divide(m.add(ey), MCX), MCX);
    }
    return e == 0 ? y : y.add(LN10().multiply(BigDecimal.valueOf(e), MCX), MCX);
  }
  static BigDecimal ln10;
  static synchronized BigDecimal LN10() {
    if (ln10 == null) {
      BigDecimal y = new BigDecimal(Math.log(10.0)), m = BigDecimal.TEN;
      for (int i = 0; i < 4; i++) { BigDecimal ey = exp(y); y = y.add(TWO.multiply(m.subtract(ey), MCX).divide(m.add(ey), MCX), MCX); }
      ln10 = y;
    }
    return ln10;
  }
  static final BigDecimal PI = new BigDecimal("3.14159265358979323846264338327950288419716939937510582097494459230781640628620899862803482534211706798");
  @TLAPlusOperator(identifier = "RExp", module = "Real", warn = false)
  public static Value rexp(final Value a) { N x = num(a); return x.fin() ? val(exp(x.b)) : val(new N(Math.exp(x.d))); }
  @TLAPlusOperator(identifier = "RLog", module = "Real", warn = false)
  public static Value rlog(final Value a) { N x = num(a); return x.fin() && x.b.signum() > 0 ? val(log(x.b)) : val(new N(Math.log(x.dbl()))); }
  @TLAPlusOperator(identifier = "RSin", module = "Real", warn = false)
  public static Value rsin(final Value a) { return val(sin(num(a).b)); }
  @TLAPlusOperator(identifier = "RCos", module = "Real", warn = false)
  public static Value rcos(final Value a) { return val(sin(num(a).b.add(PI.divide(TWO, MCX), MCX))); }
  static BigDecimal sin(BigDecimal x) {
    BigDecimal tp = PI.multiply(TWO);
    BigDecimal q = x.divide(tp, 0, RoundingMode.HALF_EVEN);
    BigDecimal y = x.subtract(q.multiply(tp)).round(MCX);
    BigDecimal t = y, s = y, y2 = y.multiply(y, MCX);
    for (int i = 1; i < 120; i++) {
      t = t.multiply(y2, MCX).divide(BigDecimal.valueOf((2L * i) * (2L * i + 1)), MCX).negate();
      s = s.add(t, MCX);
      if (t.abs().compareTo(new BigDecimal("1e-75")) < 0) break;
    }
    return s;
  }
  /** angle in [0, pi] with the given cosine, from asin of the half angle */
  @TLAPlusOperator(identifier = "RAcos", module = "Real", warn = false)
  public static Value racos(final Value a) {
    BigDecimal c = num(a).b;
    if (c.abs().compareTo(BigDecimal.ONE) > 0) return val(new N(Double.NaN));
    boolean neg = c.signum() < 0;
    BigDecimal s2 = BigDecimal.ONE.subtract(c.abs()).divide(TWO, MCX);
    BigDecimal th = BigDecimal.ZERO;
    if (s2.signum() > 0) {
      BigDecimal s = s2.sqrt(MCX);
      th = new BigDecimal(Math.asin(s.doubleValue()));
      for (int i = 0; i < 4; i++)
        th = th.subtract(sin(th).subtract(s).divide(sin(th.add(PI.divide(TWO, MCX), MCX)), MCX), MCX);
      th = th.multiply(TWO);
    }
    return val(neg ? PI.subtract(th) : th);
  }
  @TLAPlusOperator(identifier = "RPi", module = "Real", warn = false)
  public static Value rpi() { return val(PI); }
  @TLAPlusOperator(identifier = "RPlain", module = "Real", warn = false)
  public static Value rplain(final Value a) { return new StringValue(new BigDecimal(str(num(a))).toPlainString()); }
  /** nearest IEEE double */
  @TLAPlusOperator(identifier = "RDouble", module = "Real", warn = false)
  public static Value rdouble(final Value a) { return val(new N(num(a).dbl())); }
  @TLAPlusOperator(identifier = "RFloor", module = "Real", warn = false)
  public static Value rfloor(final Value a) { return IntValue.gen(num(a).b.setScale(0, RoundingMode.FLOOR).intValueExact()); }

  // ---------------------------------------------------------------- arrays
  static Value[] elems(Value v) {
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("not a sequence: " + v);
    return ((TupleValue) t).elems;
  }
  static N[] vec(Value v) { Value[] e = elems(v); N[] r = new N[e.length]; for (int i = 0; i < e.length; i++) r[i] = num(e[i]); return r; }
  static N[][] mat(Value v) { Value[] e = elems(v); N[][] r = new N[e.length][]; for (int i = 0; i < e.length; i++) r[i] = vec(e[i]); return r; }
  static Value vv(N[] a) { Value[] r = new Value[a.length]; for (int i = 0; i < r.length; i++) r[i] = val(a[i]); return new TupleValue(r); }
  static Value mv(N[][] a) { Value[] r = new Value[a.length]; for (int i = 0; i < r.length; i++) r[i] = vv(a[i]); return new TupleValue(r); }
  static final N Z = new N(BigDecimal.ZERO);

  static N[][] matmul(N[][] a, N[][] b) {
    int n = a.length, k = b.length, m = k == 0 ? 0 : b[0].length;
    N[][] r = new N[n][m];
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) {
      N s = Z;
      if (a[i].length != k) throw new RuntimeException("matmul shape");
      for (int l = 0; l < k; l++) s = add(s, mul(a[i][l], b[l][j]));
      r[i][j] = s;
    }
    return r;
  }
  @TLAPlusOperator(identifier = "MatMul", module = "LinAlg", warn = false)
  public static Value jmatmul(final Value a, final Value b) { return mv(matmul(mat(a), mat(b))); }
  /** Gaussian elimination with partial pivoting; returns {X} or null when singular. det[0] gets the determinant. */
  static N[][] solve(N[][] a0, N[][] b0, N[] det) {
    int n = a0.length, m = b0.length == 0 ? 0 : b0[0].length;
    N[][] a = new N[n][], b = new N[n][];
    for (int i = 0; i < n; i++) { a[i] = a0[i].clone(); b[i] = b0.length == 0 ? new N[0] : b0[i].clone(); }
    N d = new N(BigDecimal.ONE);
    for (int c = 0; c < n; c++) {
      int p = c;
      for (int i = c + 1; i < n; i++) if (a[i][c].b.abs().compareTo(a[p][c].b.abs()) > 0) p = i;
      if (a[p][c].zero()) { if (det != null) det[0] = Z; return null; }
      if (p != c) { N[] t = a[p]; a[p] = a[c]; a[c] = t; t = b[p]; b[p] = b[c]; b[c] = t; d = sub(Z, d); }
      d = mul(d, a[c][c]);
      for (int i = c + 1; i < n; i++) {
        if (a[i][c].zero()) continue;
        N f = div(a[i][c], a[c][c]);
        for (int j = c; j < n; j++) a[i][j] = sub(a[i][j], mul(f, a[c][j]));
        for (int j = 0; j < m; j++) b[i][j] = sub(b[i][j], mul(f, b[c][j]));
      }
    }
    if (det != null) det[0] = d;
    for (int c = n - 1; c >= 0; c--)
      for (int j = 0; j < m; j++) {
        N s = b[c][j];
        for (int l = c + 1; l < n; l++) s = sub(s, mul(a[c][l], b[l][j]));
        b[c][j] = div(s, a[c][c]);
      }
    return b;
  }
  @TLAPlusOperator(identifier = "MatSolve", module = "LinAlg", warn = false)
  public static Value jsolve(final Value a, final Value b) {
    N[][] x = solve(mat(a), mat(b), null);
    if (x == null) throw new RuntimeException("MatSolve: singular");
    return mv(x);
  }
  @TLAPlusOperator(identifier = "Det", module = "LinAlg", warn = false)
  public static Value jdet(final Value a) {
    N[] d = new N[1]; N[][] m = mat(a); N[][] e = new N[m.length][0];
    solve(m, e, d); return val(d[0]);
  }
  @TLAPlusOperator(identifier = "VecNear", module = "LinAlg", warn = false)
  public static Value vnear(final Value a, final Value b, final Value rt, final Value at) {
    N[] x = vec(a), y = vec(b); N r = num(rt), t = num(at);
    if (x.length != y.length) return bool(false);
    for (int i = 0; i < x.length; i++) if (!near(x[i], y[i], r, t)) return bool(false);
    return bool(true);
  }
  @TLAPlusOperator(identifier = "MatNear", module = "LinAlg", warn = false)
  public static Value mnear(final Value a, final Value b, final Value rt, final Value at) {
    N[][] x = mat(a), y = mat(b); N r = num(rt), t = num(at);
    if (x.length != y.length) return bool(false);
    for (int i = 0; i < x.length; i++) {
      if (x[i].length != y[i].length) return bool(false);
      for (int j = 0; j < x[i].length; j++) if (!near(x[i][j], y[i][j], r, t)) return bool(false);
    }
    return bool(true);
  }
  @TLAPlusOperator(identifier = "VecAdd", module = "LinAlg", warn = false)
  public static Value vadd(final Value a, final Value b) { N[] x = vec(a), y = vec(b); N[] z = new N[x.length]; for (int i = 0; i < z.length; i++) z[i] = add(x[i], y[i]); return vv(z); }
  @TLAPlusOperator(identifier = "VecSub", module = "LinAlg", warn = false)
  public static Value vsub(final Value a, final Value b) { N[] x = vec(a), y = vec(b); N[] z = new N[x.length]; for (int i = 0; i < z.length; i++) z[i] = sub(x[i], y[i]); return vv(z); }
  @TLAPlusOperator(identifier = "Dot", module = "LinAlg", warn = false)
  public static Value dot(final Value a, final Value b) { N[] x = vec(a), y = vec(b); if (x.length != y.length) throw new RuntimeException("dot shape"); N s = Z; for (int i = 0; i < x.length; i++) s = add(s, mul(x[i], y[i])); return val(s); }
  @TLAPlusOperator(identifier = "MatAdd", module = "LinAlg", warn = false)
  public static Value madd(final Value a, final Value b) { return mbin(mat(a), mat(b), true); }
  @TLAPlusOperator(identifier = "MatSub", module = "LinAlg", warn = false)
  public static Value msub(final Value a, final Value b) { return mbin(mat(a), mat(b), false); }
  static Value mbin(N[][] x, N[][] y, boolean plus) {
    N[][] z = new N[x.length][];
    if (x.length != y.length) throw new RuntimeException("mat shape");
    for (int i = 0; i < z.length; i++) { z[i] = new N[x[i].length]; for (int j = 0; j < z[i].length; j++) z[i][j] = plus ? add(x[i][j], y[i][j]) : sub(x[i][j], y[i][j]); }
    return mv(z);
  }
  @TLAPlusOperator(identifier = "MatVec", module = "LinAlg", warn = false)
  public static Value matvec(final Value a, final Value b) {
    N[][] x = mat(a); N[] y = vec(b); N[] z = new N[x.length];
    for (int i = 0; i < z.length; i++) { N s = Z; for (int j = 0; j < y.length; j++) s = add(s, mul(x[i][j], y[j])); z[i] = s; }
    return vv(z);
  }
}
