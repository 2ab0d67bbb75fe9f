package autobound;

import tlc2.tool.impl.Tool;
import tlc2.util.FP64;
import tlc2.value.*;
import tlc2.value.impl.*;

/** A TLC value holding a Num. */
public final class RealValue extends Value {
  public final Num n;
  public RealValue(Num n) { this.n = n; }
  public byte getKind() { return USERVALUE; }
  public int compareTo(Object o) {
    if (!(o instanceof RealValue)) return 1;
    Num a = n, b = ((RealValue) o).n;
    if (a.kind != b.kind || a.kind != Num.FIN) return Integer.compare(a.kind, b.kind);
    int c = a.lo.compareTo(b.lo);
    return c != 0 ? c : a.hi.compareTo(b.hi);
  }
  public boolean equals(Object o) { return o instanceof RealValue && n.equals(((RealValue) o).n); }
  public boolean member(Value v) { throw new RuntimeException("member of a real"); }
  public boolean isFinite() { return true; }
  public Value takeExcept(ValueExcept ex) { if (ex.idx < ex.path.length) throw new RuntimeException("EXCEPT on a real"); return ex.value; }
  public Value takeExcept(ValueExcept[] exs) { throw new RuntimeException("EXCEPT on a real"); }
  public int size() { throw new RuntimeException("size of a real"); }
  public boolean isNormalized() { return true; }
  public Value normalize() { return this; }
  public void deepNormalize() {}
  public boolean isDefined() { return true; }
  public IValue deepCopy() { return this; }
  public long fingerPrint(long fp) { return FP64.Extend(FP64.Extend(fp, USERVALUE), n.toString()); }
  public IValue permute(IMVPerm p) { return this; }
  public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) {
    double m = n.mid();
    return sb.append("R(").append(n.fin() && !n.exact() ? "~" : "").append(m).append(")");
  }
}
