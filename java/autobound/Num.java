package autobound;

import java.math.BigInteger;

/**
 * Rigorous arithmetic behind the TLA+ module RealField: a number is either an
 * infinity, NaN (undefined), or a bracket [lo, hi] of dyadic rationals that is
 * certain to contain the real number it stands for.  Operations are exact while
 * results stay below EXACT_BITS significant bits and round outward to PREC bits
 * otherwise.
 */
public final class Num {
  static final int PREC = 144, EXACT_BITS = 208;

  /** m * 2^e, m odd or zero. */
  static final class Dy implements Comparable<Dy> {
    final BigInteger m; final int e;
    static final Dy ZERO = new Dy(BigInteger.ZERO, 0, true), ONE = new Dy(BigInteger.ONE, 0, true);
    private Dy(BigInteger m, int e, boolean norm) { this.m = m; this.e = e; }
    static Dy of(BigInteger m, int e) {
      if (m.signum() == 0) return ZERO;
      int t = m.getLowestSetBit();
      return t == 0 ? new Dy(m, e, true) : new Dy(m.shiftRight(t), e + t, true);
    }
    static Dy of(long v) { return of(BigInteger.valueOf(v), 0); }
    Dy add(Dy o) {
      if (m.signum() == 0) return o; if (o.m.signum() == 0) return this;
      if (e <= o.e) return of(m.add(o.m.shiftLeft(o.e - e)), e);
      return of(m.shiftLeft(e - o.e).add(o.m), o.e);
    }
    Dy neg() { return new Dy(m.negate(), e, true); }
    Dy sub(Dy o) { return add(o.neg()); }
    Dy mul(Dy o) { return of(m.multiply(o.m), e + o.e); }
    int sgn() { return m.signum(); }
    public int compareTo(Dy o) {
      int s = m.signum(), t = o.m.signum();
      if (s != t) return Integer.compare(s, t);
      if (s == 0) return 0;
      long a = (long) m.bitLength() + e, b = (long) o.m.bitLength() + o.e;
      if (a != b) return s > 0 ? Long.compare(a, b) : Long.compare(b, a);
      return sub(o).sgn();
    }
    public boolean equals(Object o) { return o instanceof Dy && ((Dy) o).m.equals(m) && ((Dy) o).e == e; }
    public int hashCode() { return m.hashCode() * 31 + e; }
    /** Rounds to PREC bits downward (dir<0) or upward (dir>0) when longer than EXACT_BITS. */
    Dy round(int dir) { return m.bitLength() <= EXACT_BITS ? this : roundTo(PREC, dir); }
    Dy roundTo(int bits, int dir) {
      int x = m.bitLength() - bits;
      if (x <= 0) return this;
      BigInteger q = m.shiftRight(x);                       // floor
      if (dir > 0) q = q.add(BigInteger.ONE);               // m is odd, so never exact
      return of(q, e + x);
    }
    static Dy div(Dy a, Dy b, int dir) {
      if (a.sgn() == 0) return ZERO;
      BigInteger n = a.m, d = b.m;
      if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
      int sh = Math.max(0, PREC + 2 + d.bitLength() - n.bitLength());
      BigInteger[] qr = n.shiftLeft(sh).divideAndRemainder(d);
      BigInteger q = qr[0];
      if (qr[1].signum() != 0) {
        if (dir < 0 && n.signum() < 0) q = q.subtract(BigInteger.ONE);
        if (dir > 0 && n.signum() > 0) q = q.add(BigInteger.ONE);
      }
      return of(q, a.e - b.e - sh).round(dir);
    }
    double dbl() {
      if (m.signum() == 0) return 0;
      int x = Math.max(0, m.bitLength() - 60);
      return Math.scalb((double) m.shiftRight(x).longValue(), Math.max(-3000, Math.min(3000, e + x)));
    }
    /** floor(this * 2^f). */
    BigInteger fixed(int f) { int s = e + f; return s >= 0 ? m.shiftLeft(s) : m.shiftRight(-s); }
    public String toString() { return m + "e" + e; }
  }

  static final int FIN = 0, PINF = 1, NINF = 2, NAN = 3;
  final int kind; final Dy lo, hi;
  public static final Num NaN = new Num(NAN, null, null), PInf = new Num(PINF, null, null),
      NInf = new Num(NINF, null, null), ZERO = new Num(Dy.ZERO, Dy.ZERO), ONE = new Num(Dy.ONE, Dy.ONE);
  private Num(int kind, Dy lo, Dy hi) { this.kind = kind; this.lo = lo; this.hi = hi; }
  Num(Dy lo, Dy hi) { this(FIN, lo, hi); }
  static Num mk(Dy lo, Dy hi) { return new Num(lo.round(-1), hi.round(1)); }
  public static Num of(long v) { Dy d = Dy.of(v); return new Num(d, d); }
  public static Num of(double v) {
    if (Double.isNaN(v)) return NaN;
    if (Double.isInfinite(v)) return v > 0 ? PInf : NInf;
    if (v == 0) return ZERO;
    int ex = Math.getExponent(v); long bits = Double.doubleToLongBits(v) & 0xfffffffffffffL;
    if (ex < Double.MIN_EXPONENT) ex = -1022; else bits |= 0x10000000000000L;
    if (v < 0) bits = -bits;
    Dy d = Dy.of(BigInteger.valueOf(bits), ex - 52);
    return new Num(d, d);
  }
  /** "nan", "inf", "-inf", "<int>e<int>" (dyadic), or two of the latter joined by "~". */
  public static Num parse(String s) {
    switch (s) { case "nan": return NaN; case "inf": return PInf; case "-inf": return NInf; default: }
    int t = s.indexOf('~');
    if (t >= 0) return new Num(parseDy(s.substring(0, t)), parseDy(s.substring(t + 1)));
    Dy d = parseDy(s); return new Num(d, d);
  }
  private static Dy parseDy(String s) {
    int k = s.indexOf('e');
    return k < 0 ? Dy.of(new BigInteger(s), 0) : Dy.of(new BigInteger(s.substring(0, k)), Integer.parseInt(s.substring(k + 1)));
  }
  public String toString() {
    switch (kind) { case NAN: return "nan"; case PINF: return "inf"; case NINF: return "-inf"; default: }
    return lo.equals(hi) ? lo.toString() : lo + "~" + hi;
  }
  public boolean equals(Object o) {
    if (!(o instanceof Num)) return false;
    Num n = (Num) o;
    return kind == n.kind && (kind != FIN || (lo.equals(n.lo) && hi.equals(n.hi)));
  }
  public int hashCode() { return kind == FIN ? lo.hashCode() * 7 + hi.hashCode() : kind; }

  boolean fin() { return kind == FIN; }
  boolean exact() { return kind == FIN && lo.equals(hi); }

  // Extended-real arithmetic; anything indeterminate is NaN ("undefined").
  Num neg() {
    switch (kind) { case NAN: return NaN; case PINF: return NInf; case NINF: return PInf; default: }
    return new Num(hi.neg(), lo.neg());
  }
  Num add(Num o) {
    if (kind == FIN && o.kind == FIN) return mk(lo.add(o.lo), hi.add(o.hi));
    if (kind == NAN || o.kind == NAN) return NaN;
    if (kind == FIN) return o; if (o.kind == FIN) return this;
    return kind == o.kind ? this : NaN;
  }
  Num sub(Num o) { return add(o.neg()); }
  /** Certain sign, or 2 if unknown. */
  int sgn() {
    if (kind == PINF) return 1; if (kind == NINF) return -1; if (kind == NAN) return 2;
    if (lo.sgn() > 0) return 1; if (hi.sgn() < 0) return -1;
    return lo.sgn() == 0 && hi.sgn() == 0 ? 0 : 2;
  }
  Num mul(Num o) {
    if (kind == FIN && o.kind == FIN) {
      if (lo.equals(hi) && o.lo.equals(o.hi)) { Dy p = lo.mul(o.lo); return mk(p, p); }
      Dy a = lo.mul(o.lo), b = lo.mul(o.hi), c = hi.mul(o.lo), d = hi.mul(o.hi);
      return mk(min(min(a, b), min(c, d)), max(max(a, b), max(c, d)));
    }
    int s = sgn(), t = o.sgn();
    if (s == 2 || t == 2 || s == 0 || t == 0) return NaN;
    return s * t > 0 ? PInf : NInf;
  }
  static Dy min(Dy a, Dy b) { return a.compareTo(b) <= 0 ? a : b; }
  static Dy max(Dy a, Dy b) { return a.compareTo(b) >= 0 ? a : b; }
  Num inv() {
    if (kind == PINF || kind == NINF) return ZERO;
    if (kind == NAN || (lo.sgn() <= 0 && hi.sgn() >= 0)) return NaN;
    return new Num(Dy.div(Dy.ONE, hi, -1), Dy.div(Dy.ONE, lo, 1));
  }
  Num div(Num o) {
    if (kind == FIN && o.exact() && o.lo.sgn() != 0) {
      Dy a = Dy.div(lo, o.lo, o.lo.sgn() > 0 ? -1 : -1), b = Dy.div(hi, o.lo, 1);
      if (o.lo.sgn() < 0) { a = Dy.div(hi, o.lo, -1); b = Dy.div(lo, o.lo, 1); }
      return new Num(a, b);
    }
    return mul(o.inv());
  }
  Num abs() {
    if (kind != FIN) return kind == NAN ? NaN : PInf;
    if (lo.sgn() >= 0) return this; if (hi.sgn() <= 0) return neg();
    return new Num(Dy.ZERO, max(lo.neg(), hi));
  }
  Num minN(Num o) {
    if (kind == NAN || o.kind == NAN) return NaN;
    if (kind == NINF || o.kind == PINF) return this; if (o.kind == NINF || kind == PINF) return o;
    return new Num(min(lo, o.lo), min(hi, o.hi));
  }
  /** Some number from the least of a to the greatest of b. */
  static Num between(Num a, Num b) { return a.fin() && b.fin() && a.lo.compareTo(b.hi) <= 0 ? new Num(a.lo, b.hi) : NaN; }
  Num maxN(Num o) { return neg().minN(o.neg()).neg(); }
  Num powi(int n) {
    if (n == 0) return ONE;
    if (n < 0) return powi(-n).inv();
    if (kind != FIN) return kind == NAN ? NaN : (kind == PINF || n % 2 == 0 ? PInf : NInf);
    if (n % 2 == 0 && lo.sgn() < 0 && hi.sgn() > 0) { Num a = abs().powi(n); return new Num(Dy.ZERO, a.hi); }
    Num r = ONE, b = this;
    for (int k = n; k > 0; k >>= 1) { if ((k & 1) == 1) r = r.mul(b); if (k > 1) b = b.mul(b); }
    return r;
  }

  // ---- transcendental functions -------------------------------------------
  private static final int F = 192;                        // fixed-point bits
  private static final BigInteger ONEF = BigInteger.ONE.shiftLeft(F);
  private static final BigInteger LN2 = ln2();             // |LN2/2^F - ln 2| < 2^-(F-8)
  private static BigInteger ln2() {                        // 2*atanh(1/3)
    BigInteger s = BigInteger.ZERO, t = ONEF.shiftLeft(16).divide(BigInteger.valueOf(3)), nine = BigInteger.valueOf(9);
    for (int k = 1; t.signum() != 0; k += 2) { s = s.add(t.divide(BigInteger.valueOf(k))); t = t.divide(nine); }
    return s.shiftLeft(1).shiftRight(16);
  }
  /** exp of a dyadic; result certainly below (dir<0) or above (dir>0). */
  private static Dy expDy(Dy x, int dir) {
    if (x.sgn() == 0) return Dy.ONE;
    double d = x.dbl();
    if (d > 1e6) d = 1e6; if (d < -1e6) return dir < 0 ? Dy.ZERO : Dy.of(BigInteger.ONE, -1000000);
    long n = Math.round(d / Math.log(2));
    BigInteger r = x.fixed(F).subtract(LN2.multiply(BigInteger.valueOf(n)));   // |r| <~ 0.35, error < (|n|+1)*2^8 ulp
    BigInteger s = ONEF, t = ONEF;
    for (int k = 1; t.signum() != 0 && t.bitLength() > 1; k++) {
      t = t.multiply(r).shiftRight(F).divide(BigInteger.valueOf(k));
      s = s.add(t);
      if (t.bitLength() <= 1) break;
    }
    BigInteger err = BigInteger.valueOf((Math.abs(n) + 2) * 1024);
    s = dir < 0 ? s.subtract(err) : s.add(err);
    return Dy.of(s, (int) n - F).roundTo(PREC, dir);
  }
  Num exp() {
    switch (kind) { case NAN: return NaN; case PINF: return PInf; case NINF: return ZERO; default: }
    if (hi.dbl() > 50000) return NaN;                       // out of reach of any floating-point number
    if (hi.dbl() < -50000) return new Num(Dy.ZERO, Dy.of(BigInteger.ONE, -70000));
    if (lo.dbl() < -50000) return new Num(Dy.ZERO, expDy(hi, 1));
    return new Num(expDy(lo, -1), expDy(hi, 1));
  }
  private static Dy logDy(Dy x, int dir) {
    if (x.equals(Dy.ONE)) return Dy.ZERO;
    int k = x.m.bitLength() + x.e;                          // x = y*2^k, y in [1/2,1)
    BigInteger y = Dy.of(x.m, -x.m.bitLength()).fixed(F);
    if (y.compareTo(ONEF.multiply(BigInteger.valueOf(181)).shiftRight(8)) < 0) { y = Dy.of(x.m, 1 - x.m.bitLength()).fixed(F); k--; }
    // log y = 2 atanh((y-1)/(y+1)), |.| <= 0.18
    BigInteger u = y.subtract(ONEF).shiftLeft(F).divide(y.add(ONEF)), u2 = u.multiply(u).shiftRight(F), s = BigInteger.ZERO, t = u;
    for (int j = 1; t.signum() != 0 && t.bitLength() > 1; j += 2) { s = s.add(t.divide(BigInteger.valueOf(j))); t = t.multiply(u2).shiftRight(F); }
    s = s.shiftLeft(1).add(LN2.multiply(BigInteger.valueOf(k)));
    BigInteger err = BigInteger.valueOf((Math.abs((long) k) + 2) * 1024);
    s = dir < 0 ? s.subtract(err) : s.add(err);
    return Dy.of(s, -F).roundTo(PREC, dir);
  }
  Num log() {
    if (kind == PINF) return PInf;
    if (kind != FIN || lo.sgn() <= 0) return (kind == FIN && lo.sgn() == 0 && hi.sgn() == 0) ? NInf : NaN;
    return new Num(logDy(lo, -1), logDy(hi, 1));
  }
  Num pow(Num p) {
    if (p.exact() && p.lo.e >= 0 && p.lo.m.bitLength() + p.lo.e < 30) return powi(p.lo.m.shiftLeft(p.lo.e).intValue());
    if (kind == FIN && lo.sgn() == 0 && hi.sgn() == 0 && p.sgn() == 1) return ZERO;
    return p.mul(log()).exp();
  }

  // ---- comparisons: TRUE only when certain ---------------------------------
  static boolean certainlyLess(Num a, Num b) {
    if (a.kind == NAN || b.kind == NAN) return false;
    if (a.kind == NINF) return b.kind != NINF; if (b.kind == PINF) return a.kind != PINF;
    if (a.kind == PINF || b.kind == NINF) return false;
    return a.hi.compareTo(b.lo) < 0;
  }
  static boolean certainlyLeq(Num a, Num b) {
    if (a.kind == NAN || b.kind == NAN) return false;
    if (a.kind == NINF || b.kind == PINF) return true;
    if (a.kind == PINF || b.kind == NINF) return false;
    return a.hi.compareTo(b.lo) <= 0;
  }
  public double mid() { return kind == NAN ? Double.NaN : kind == PINF ? Double.POSITIVE_INFINITY : kind == NINF ? Double.NEGATIVE_INFINITY : (lo.dbl() + hi.dbl()) / 2; }
}
