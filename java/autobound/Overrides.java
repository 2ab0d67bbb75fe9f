package autobound;

import java.io.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.*;
import tlc2.value.impl.*;
import util.UniqueString;

/** Java evaluation of the operators of RealField.tla and TraceIO.tla. */
public final class Overrides implements ITLCOverrides {
  public Class[] get() { return new Class[] {Overrides.class}; }

  private static Num n(Value v) {
    if (v instanceof RealValue) return ((RealValue) v).n;
    if (v instanceof IntValue) return Num.of((long) ((IntValue) v).val);
    throw new RuntimeException("not a real: " + v);
  }
  private static Value r(Num x) { return new RealValue(x); }
  private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  private static Value[] seq(Value v) {
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("not a sequence: " + v);
    return ((TupleValue) t).elems;
  }
  private static int i(Value v) { return ((IntValue) v).val; }

  @TLAPlusOperator(identifier = "RInt", module = "RealField", warn = false)
  public static Value rint(IntValue a) { return r(Num.of((long) a.val)); }
  @TLAPlusOperator(identifier = "RRat", module = "RealField", warn = false)
  public static Value rrat(IntValue a, IntValue c) { return r(Num.of((long) a.val).div(Num.of((long) c.val))); }
  @TLAPlusOperator(identifier = "RDyadic", module = "RealField", warn = false)
  public static Value rdy(IntValue a, IntValue e) { return r(Num.parse(a.val + "e" + e.val)); }
  @TLAPlusOperator(identifier = "RAdd", module = "RealField", warn = false)
  public static Value radd(Value a, Value c) { return r(n(a).add(n(c))); }
  @TLAPlusOperator(identifier = "RSub", module = "RealField", warn = false)
  public static Value rsub(Value a, Value c) { return r(n(a).sub(n(c))); }
  @TLAPlusOperator(identifier = "RMul", module = "RealField", warn = false)
  public static Value rmul(Value a, Value c) { return r(n(a).mul(n(c))); }
  @TLAPlusOperator(identifier = "RDiv", module = "RealField", warn = false)
  public static Value rdiv(Value a, Value c) { return r(n(a).div(n(c))); }
  @TLAPlusOperator(identifier = "RNeg", module = "RealField", warn = false)
  public static Value rneg(Value a) { return r(n(a).neg()); }
  @TLAPlusOperator(identifier = "RAbs", module = "RealField", warn = false)
  public static Value rabs(Value a) { return r(n(a).abs()); }
  @TLAPlusOperator(identifier = "RMin", module = "RealField", warn = false)
  public static Value rmin(Value a, Value c) { return r(n(a).minN(n(c))); }
  @TLAPlusOperator(identifier = "RMax", module = "RealField", warn = false)
  public static Value rmax(Value a, Value c) { return r(n(a).maxN(n(c))); }
  @TLAPlusOperator(identifier = "RPowI", module = "RealField", warn = false)
  public static Value rpowi(Value a, IntValue k) { return r(n(a).powi(k.val)); }
  @TLAPlusOperator(identifier = "RPow", module = "RealField", warn = false)
  public static Value rpow(Value a, Value p) { return r(n(a).pow(n(p))); }
  @TLAPlusOperator(identifier = "RExp", module = "RealField", warn = false)
  public static Value rexp(Value a) { return r(n(a).exp()); }
  @TLAPlusOperator(identifier = "RLog", module = "RealField", warn = false)
  public static Value rlog(Value a) { return r(n(a).log()); }
  @TLAPlusOperator(identifier = "RBetween", module = "RealField", warn = false)
  public static Value rbetween(Value a, Value c) { return r(Num.between(n(a), n(c))); }
  @TLAPlusOperator(identifier = "RLt", module = "RealField", warn = false)
  public static Value rlt(Value a, Value c) { return b(Num.certainlyLess(n(a), n(c))); }
  @TLAPlusOperator(identifier = "RLeq", module = "RealField", warn = false)
  public static Value rleq(Value a, Value c) { return b(Num.certainlyLeq(n(a), n(c))); }
  @TLAPlusOperator(identifier = "RFinite", module = "RealField", warn = false)
  public static Value rfin(Value a) { return b(n(a).fin()); }
  @TLAPlusOperator(identifier = "RUndefined", module = "RealField", warn = false)
  public static Value rundef(Value a) { return b(n(a).kind == Num.NAN); }
  @TLAPlusOperator(identifier = "RExact", module = "RealField", warn = false)
  public static Value rexact(Value a) { return b(n(a).exact()); }
  @TLAPlusOperator(identifier = "RSum", module = "RealField", warn = false)
  public static Value rsum(Value s) { Num t = Num.ZERO; for (Value v : seq(s)) t = t.add(n(v)); return r(t); }
  @TLAPlusOperator(identifier = "RDotProduct", module = "RealField", warn = false)
  public static Value rdot(Value s, Value u) {
    Value[] x = seq(s), y = seq(u); Num t = Num.ZERO;
    if (x.length != y.length) throw new RuntimeException("RDotProduct: lengths");
    for (int k = 0; k < x.length; k++) t = t.add(n(x[k]).mul(n(y[k])));
    return r(t);
  }
  @TLAPlusOperator(identifier = "RConv", module = "RealField", warn = false)
  public static Value rconv(Value s, Value u) {
    Value[] x = seq(s), y = seq(u); Value[] out = new Value[x.length];
    if (x.length != y.length) throw new RuntimeException("RConv: lengths");
    Num[] p = new Num[x.length], q = new Num[x.length];
    for (int k = 0; k < x.length; k++) { p[k] = n(x[k]); q[k] = n(y[k]); }
    for (int i = 0; i < x.length; i++) {
      Num t = Num.ZERO;
      for (int j = 0; j <= i; j++) t = t.add(p[j].mul(q[i - j]));
      out[i] = r(t);
    }
    return new TupleValue(out);
  }
  /** Evaluates a value completely (TLCEval leaves nested functions unevaluated). */
  private static Value force(Value v) {
    if (v instanceof RealValue || v instanceof IntValue || v instanceof BoolValue || v instanceof StringValue) return v;
    if (v instanceof TupleValue) { Value[] e = ((TupleValue) v).elems; for (int k = 0; k < e.length; k++) e[k] = force(e[k]); return v; }
    if (v instanceof RecordValue) { Value[] e = ((RecordValue) v).values; for (int k = 0; k < e.length; k++) e[k] = force(e[k]); return v; }
    if (v instanceof FcnRcdValue && v.toTuple() == null) { Value[] e = ((FcnRcdValue) v).values; for (int k = 0; k < e.length; k++) e[k] = force(e[k]); return v; }
    if (v instanceof FcnLambdaValue || v instanceof FcnRcdValue) {
      Value t = v.toTuple(); if (t != null) return force(t);
      t = v.toFcnRcd(); if (t != null) return force(t);
      return v;
    }
    Value t = v.toSetEnum();
    return t != null ? t : v;
  }
  @TLAPlusOperator(identifier = "Force", module = "RealField", warn = false)
  public static Value forceAll(Value v) { return force(v); }

  // ---- trace input / verdict output ---------------------------------------
  private static final class P {
    final String s; int i = 0; P(String s) { this.s = s; }
    void ws() { while (i < s.length() && s.charAt(i) <= ' ') i++; }
    Value val() {
      ws(); char c = s.charAt(i);
      if (c == '{') {
        i++; List<UniqueString> ks = new ArrayList<>(); List<Value> vs = new ArrayList<>(); ws();
        if (s.charAt(i) == '}') { i++; return RecordValue.EmptyRcd; }
        while (true) {
          ws(); ks.add(UniqueString.of(str())); ws(); i++; vs.add(val()); ws();
          if (s.charAt(i++) == '}') break;
        }
        return new RecordValue(ks.toArray(new UniqueString[0]), vs.toArray(new Value[0]), false).normalize();
      } else if (c == '[') {
        i++; List<Value> vs = new ArrayList<>(); ws();
        if (s.charAt(i) == ']') { i++; return TupleValue.EmptyTuple; }
        while (true) { vs.add(val()); ws(); if (s.charAt(i++) == ']') break; }
        return new TupleValue(vs.toArray(new Value[0]));
      } else if (c == '"') {
        String t = str();
        return t.startsWith("#") ? new RealValue(Num.parse(t.substring(1))) : new StringValue(t);
      } else if (s.startsWith("true", i)) { i += 4; return BoolValue.ValTrue;
      } else if (s.startsWith("false", i)) { i += 5; return BoolValue.ValFalse;
      } else {
        int j = i; while (j < s.length() && "-0123456789".indexOf(s.charAt(j)) >= 0) j++;
        Value v = IntValue.gen(Integer.parseInt(s.substring(i, j))); i = j; return v;
      }
    }
    String str() {
      StringBuilder sb = new StringBuilder(); i++;
      while (s.charAt(i) != '"') {
        char c = s.charAt(i++);
        if (c == '\\') { c = s.charAt(i++); if (c == 'n') c = '\n'; else if (c == 't') c = '\t';
          else if (c == 'u') { c = (char) Integer.parseInt(s.substring(i, i + 4), 16); i += 4; } }
        sb.append(c);
      }
      i++; return sb.toString();
    }
  }
  private static final Map<String, Value> CACHE = new HashMap<>();
  @TLAPlusOperator(identifier = "LoadJson", module = "TraceIO", warn = false)
  public static synchronized Value load(StringValue f) throws IOException {
    String name = f.val.toString();
    Value v = CACHE.get(name);
    if (v == null) { v = new P(new String(Files.readAllBytes(Paths.get(name)), StandardCharsets.UTF_8)).val(); v.deepNormalize(); CACHE.put(name, v); }
    return v;
  }
  static void json(Value v, StringBuilder sb) {
    if (v instanceof RealValue) sb.append("\"#").append(((RealValue) v).n).append('"');
    else if (v instanceof IntValue || v instanceof BoolValue) sb.append(v.toString().toLowerCase());
    else if (v instanceof StringValue) quote(((StringValue) v).val.toString(), sb);
    else if (v instanceof RecordValue) {
      RecordValue q = (RecordValue) v; sb.append('{');
      for (int k = 0; k < q.names.length; k++) { if (k > 0) sb.append(','); quote(q.names[k].toString(), sb); sb.append(':'); json(q.values[k], sb); }
      sb.append('}');
    } else {
      Value t = v.toTuple();
      if (t == null) {
        t = v.toSetEnum();
        if (t != null) { t.normalize(); SetEnumValue se = (SetEnumValue) t; Value[] es = new Value[se.elems.size()]; for (int k = 0; k < es.length; k++) es[k] = se.elems.elementAt(k); t = new TupleValue(es); }
        else if (v.toRcd() != null) { json(v.toRcd(), sb); return; }
        else { quote(v.toString(), sb); return; }
      }
      sb.append('[');
      Value[] es = ((TupleValue) t).elems;
      for (int k = 0; k < es.length; k++) { if (k > 0) sb.append(','); json(es[k], sb); }
      sb.append(']');
    }
  }
  static void quote(String s, StringBuilder sb) {
    sb.append('"');
    for (char c : s.toCharArray()) { if (c == '"' || c == '\\') sb.append('\\').append(c); else if (c < ' ') sb.append(String.format("\\u%04x", (int) c)); else sb.append(c); }
    sb.append('"');
  }
  private static final Map<String, Writer> OUT = new HashMap<>();
  static { Runtime.getRuntime().addShutdownHook(new Thread(() -> { synchronized (Overrides.class) { for (Writer w : OUT.values()) try { w.close(); } catch (IOException e) { } } })); }
  @TLAPlusOperator(identifier = "EmitJson", module = "TraceIO", warn = false)
  public static Value emit(StringValue f, Value v) throws IOException {
    StringBuilder sb = new StringBuilder(); json(v, sb); sb.append('\n');
    synchronized (Overrides.class) {
      Writer w = OUT.get(f.val.toString());
      if (w == null) { w = new BufferedWriter(new OutputStreamWriter(new FileOutputStream(f.val.toString(), true), StandardCharsets.UTF_8)); OUT.put(f.val.toString(), w); }
      w.write(sb.toString());
    }
    return BoolValue.ValTrue;
  }
}
