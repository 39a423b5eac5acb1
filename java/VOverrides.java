// TLC module override for spec/Rl.tla: real arithmetic on IEEE doubles, tolerant deep comparison,
// JSON trace input and JSON emission of behaviours. A real is an IntValue when it is integral and
// small, and otherwise a StringValue holding Double.toString.
import java.io.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import tlc2.overrides.*;
import tlc2.value.impl.*;
import util.UniqueString;

public class VOverrides implements ITLCOverrides {
  @SuppressWarnings("rawtypes")
  @Override public Class[] get() { return new Class[] { VOverrides.class }; }

  static Value of(double d) {
    if (d == Math.rint(d) && Math.abs(d) <= 1e9) return IntValue.gen((int) d);
    return new StringValue(Double.toString(d));
  }
  static double num(Value v) {
    if (v instanceof IntValue) return ((IntValue) v).val;
    if (v instanceof StringValue) return Double.parseDouble(((StringValue) v).val.toString());
    throw new RuntimeException("not a real: " + v);
  }
  static Double tryNum(Value v) {
    if (v instanceof IntValue) return (double) ((IntValue) v).val;
    if (v instanceof StringValue) {
      String s = ((StringValue) v).val.toString();
      if (s.isEmpty()) return null;
      char c = s.charAt(0);
      if (!(c == '-' || (c >= '0' && c <= '9') || s.equals("NaN") || s.equals("Infinity"))) return null;
      try { return Double.parseDouble(s); } catch (NumberFormatException e) { return null; }
    }
    return null;
  }
  static BoolValue b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static Value[] elems(Value v) {
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("not a sequence: " + v);
    return ((TupleValue) t).elems;
  }

  // TLC keeps [x in S |-> e] unevaluated; Strict evaluates it once, through sequences and records.
  @TLAPlusOperator(identifier = "Strict", module = "Rl", warn = false)
  public static Value Strict(final Value v) { return force(v); }
  static Value force(Value v) {
    if (v instanceof RecordValue) {
      RecordValue r = (RecordValue) v; Value[] e = new Value[r.values.length];
      for (int i = 0; i < e.length; i++) e[i] = force(r.values[i]);
      return new RecordValue(r.names, e, r.isNormalized());
    }
    if (v instanceof TupleValue || v instanceof FcnLambdaValue || v instanceof FcnRcdValue) {
      Value t = v.toTuple();
      if (t == null) { Value r = v.toRcd(); if (r != null && r != v) return force(r); return v; }
      Value[] s = ((TupleValue) t).elems, e = new Value[s.length];
      for (int i = 0; i < e.length; i++) e[i] = force(s[i]);
      return new TupleValue(e);
    }
    return v;
  }

  @TLAPlusOperator(identifier = "RAdd", module = "Rl", warn = false)
  public static Value RAdd(final Value a, final Value c) { return of(num(a) + num(c)); }
  @TLAPlusOperator(identifier = "RSub", module = "Rl", warn = false)
  public static Value RSub(final Value a, final Value c) { return of(num(a) - num(c)); }
  @TLAPlusOperator(identifier = "RMul", module = "Rl", warn = false)
  public static Value RMul(final Value a, final Value c) { return of(num(a) * num(c)); }
  @TLAPlusOperator(identifier = "RDiv", module = "Rl", warn = false)
  public static Value RDiv(final Value a, final Value c) { return of(num(a) / num(c)); }
  @TLAPlusOperator(identifier = "RPow", module = "Rl", warn = false)
  public static Value RPow(final Value a, final Value c) { return of(Math.pow(num(a), num(c))); }
  @TLAPlusOperator(identifier = "RAtan2", module = "Rl", warn = false)
  public static Value RAtan2(final Value a, final Value c) { return of(Math.atan2(num(a), num(c))); }
  @TLAPlusOperator(identifier = "RLt", module = "Rl", warn = false)
  public static Value RLt(final Value a, final Value c) { return b(num(a) < num(c)); }
  @TLAPlusOperator(identifier = "RLe", module = "Rl", warn = false)
  public static Value RLe(final Value a, final Value c) { return b(num(a) <= num(c)); }
  @TLAPlusOperator(identifier = "REq", module = "Rl", warn = false)
  public static Value REq(final Value a, final Value c) { return b(num(a) == num(c)); }
  @TLAPlusOperator(identifier = "RFinite", module = "Rl", warn = false)
  public static Value RFinite(final Value a) { Double d = tryNum(a); return b(d != null && !d.isNaN() && !d.isInfinite()); }
  @TLAPlusOperator(identifier = "RTrunc", module = "Rl", warn = false)
  public static Value RTrunc(final Value a) { return IntValue.gen((int) num(a)); }
  @TLAPlusOperator(identifier = "R", module = "Rl", warn = false)
  public static Value R(final Value a) { return of(num(a)); }

  static double erf(double x) {
    // series / continued fraction, full double accuracy
    double ax = Math.abs(x), r;
    if (ax < 2.5) {
      double sum = ax, term = ax; 
      for (int n = 1; n < 200; n++) { term *= -ax * ax / n; double t = term / (2 * n + 1); sum += t; if (Math.abs(t) < 1e-18 * Math.abs(sum)) break; }
      r = 2 / Math.sqrt(Math.PI) * sum;
    } else {
      double f = 0; for (int k = 120; k >= 1; k--) f = (k / 2.0) / (ax + f);
      r = 1 - Math.exp(-ax * ax) / Math.sqrt(Math.PI) / (ax + f);
    }
    return x < 0 ? -r : r;
  }
  @TLAPlusOperator(identifier = "RFun", module = "Rl", warn = false)
  public static Value RFun(final Value f, final Value a) {
    double x = num(a);
    switch (((StringValue) f).val.toString()) {
      case "neg": return of(-x);
      case "abs": return of(Math.abs(x));
      case "sqrt": return of(Math.sqrt(x));
      case "cbrt": return of(Math.cbrt(x));
      case "exp": return of(Math.exp(x));
      case "ln": return of(Math.log(x));
      case "log10": return of(Math.log10(x));
      case "sin": return of(Math.sin(x));
      case "cos": return of(Math.cos(x));
      case "tan": return of(Math.tan(x));
      case "asin": return of(Math.asin(x));
      case "acos": return of(Math.acos(x));
      case "atan": return of(Math.atan(x));
      case "sinh": return of(Math.sinh(x));
      case "cosh": return of(Math.cosh(x));
      case "tanh": return of(Math.tanh(x));
      case "asinh": return of(x < 0 ? -Math.log(-x + Math.sqrt(x * x + 1)) : Math.log(x + Math.sqrt(x * x + 1)));
      case "acosh": return of(Math.log(x + Math.sqrt(x * x - 1)));
      case "atanh": return of(0.5 * Math.log((1 + x) / (1 - x)));
      case "erf": return of(erf(x));
      case "floor": return of(Math.floor(x));
      case "ceil": return of(Math.ceil(x));
      case "trunc": return of(x < 0 ? Math.ceil(x) : Math.floor(x));
      case "round": return of(x < 0 ? Math.ceil(x - 0.5) : Math.floor(x + 0.5));
      case "float": return of((double) (float) x);
      default: throw new RuntimeException("RFun " + f);
    }
  }
  @TLAPlusOperator(identifier = "RSum", module = "Rl", warn = false)
  public static Value RSum(final Value s) { double t = 0; for (Value v : elems(s)) t += num(v); return of(t); }
  @TLAPlusOperator(identifier = "RDot", module = "Rl", warn = false)
  public static Value RDot(final Value x, final Value y) {
    Value[] p = elems(x), q = elems(y); double t = 0;
    for (int i = 0; i < p.length; i++) t += num(p[i]) * num(q[i]);
    return of(t);
  }
  @TLAPlusOperator(identifier = "RPi", module = "Rl", warn = false)
  public static Value RPi() { return of(Math.PI); }

  // ---- deep comparison, total on all values ----
  static boolean same(Value a, Value c, double rel, double abs, boolean exact) {
    if (!exact) {
      Double x = tryNum(a), y = tryNum(c);
      if (x != null && y != null) {
        if (x.isNaN() || y.isNaN()) return x.isNaN() && y.isNaN();
        if (x.isInfinite() || y.isInfinite()) return x.equals(y);
        double d = Math.abs(x - y);
        return d <= abs || d <= rel * Math.max(Math.abs(x), Math.abs(y));
      }
    }
    if (a instanceof BoolValue || c instanceof BoolValue)
      return a instanceof BoolValue && c instanceof BoolValue && ((BoolValue) a).val == ((BoolValue) c).val;
    if (a instanceof IntValue || c instanceof IntValue)
      return a instanceof IntValue && c instanceof IntValue && ((IntValue) a).val == ((IntValue) c).val;
    if (a instanceof StringValue || c instanceof StringValue)
      return a instanceof StringValue && c instanceof StringValue && ((StringValue) a).val.toString().equals(((StringValue) c).val.toString());
    Value ta = seqLike(a), tc = seqLike(c);
    if (ta != null && tc != null) {
      Value[] p = ((TupleValue) ta).elems, q = ((TupleValue) tc).elems;
      if (p.length != q.length) return false;
      for (int i = 0; i < p.length; i++) if (!same(p[i], q[i], rel, abs, exact)) return false;
      return true;
    }
    if (ta != null || tc != null) return false;
    Value ra = a.toRcd(), rc = c.toRcd();
    if (ra == null || rc == null) return false;
    RecordValue r = (RecordValue) ra, q = (RecordValue) rc;
    if (r.names.length != q.names.length) return false;
    for (int i = 0; i < r.names.length; i++) {
      Value v = q.select(new StringValue(r.names[i]));
      if (v == null || !same(r.values[i], v, rel, abs, exact)) return false;
    }
    return true;
  }
  static Value seqLike(Value v) {
    if (v instanceof TupleValue) return v;
    if (v instanceof RecordValue) return ((RecordValue) v).names.length == 0 ? new TupleValue(new Value[0]) : null;
    if (v instanceof FcnRcdValue || v instanceof FcnLambdaValue) return v.toTuple();
    return null;
  }
  @TLAPlusOperator(identifier = "SameTol", module = "Rl", warn = false)
  public static Value SameTol(final Value a, final Value c, final Value rel, final Value abs) { return b(same(a, c, num(rel), num(abs), false)); }
  @TLAPlusOperator(identifier = "SameX", module = "Rl", warn = false)
  public static Value SameX(final Value a, final Value c) { return b(same(a, c, 0, 0, true)); }

  // ---- JSON ----
  static final class P {
    final String s; int i = 0;
    P(String s) { this.s = s; }
    void ws() { while (i < s.length() && s.charAt(i) <= ' ') i++; }
    Value val() {
      ws(); char c = s.charAt(i);
      if (c == '{') {
        i++; ArrayList<UniqueString> n = new ArrayList<>(); ArrayList<Value> v = new ArrayList<>(); ws();
        if (s.charAt(i) == '}') { i++; return new RecordValue(new UniqueString[0], new Value[0], false); }
        while (true) { ws(); String k = str(); ws(); i++; v.add(val()); n.add(UniqueString.uniqueStringOf(k)); ws(); if (s.charAt(i++) == '}') break; }
        return new RecordValue(n.toArray(new UniqueString[0]), v.toArray(new Value[0]), false);
      }
      if (c == '[') {
        i++; ArrayList<Value> v = new ArrayList<>(); ws();
        if (s.charAt(i) == ']') { i++; return new TupleValue(new Value[0]); }
        while (true) { v.add(val()); ws(); if (s.charAt(i++) == ']') break; }
        return new TupleValue(v.toArray(new Value[0]));
      }
      if (c == '"') return new StringValue(UniqueString.uniqueStringOf(str()));
      if (s.startsWith("true", i)) { i += 4; return BoolValue.ValTrue; }
      if (s.startsWith("false", i)) { i += 5; return BoolValue.ValFalse; }
      if (s.startsWith("null", i)) { i += 4; return new StringValue("null"); }
      int st = i; while (i < s.length() && "+-0123456789.eE".indexOf(s.charAt(i)) >= 0) i++;
      if (st == i) throw new RuntimeException("json at " + i + ": " + s.substring(Math.max(0, i - 40), Math.min(s.length(), i + 40)));
      return of(Double.parseDouble(s.substring(st, i)));
    }
    String str() {
      StringBuilder sb = new StringBuilder(); i++;
      while (s.charAt(i) != '"') {
        char c = s.charAt(i++);
        if (c == '\\') {
          c = s.charAt(i++);
          switch (c) {
            case 'n': sb.append('\n'); break; case 't': sb.append('\t'); break; case 'r': sb.append('\r'); break;
            case 'b': sb.append('\b'); break; case 'f': sb.append('\f'); break;
            case 'u': sb.append((char) Integer.parseInt(s.substring(i, i + 4), 16)); i += 4; break;
            default: sb.append(c);
          }
        } else sb.append(c);
      }
      i++; return sb.toString();
    }
  }
  @TLAPlusOperator(identifier = "LoadLines", module = "Rl", warn = false)
  public static Value LoadLines(final Value file) throws IOException {
    ArrayList<Value> out = new ArrayList<>();
    try (BufferedReader r = Files.newBufferedReader(Paths.get(((StringValue) file).val.toString()), StandardCharsets.UTF_8)) {
      String l; while ((l = r.readLine()) != null) if (!l.isEmpty()) { Value v = new P(l).val(); v.normalize(); out.add(v); }
    }
    return new TupleValue(out.toArray(new Value[0]));
  }
  static void json(Value v, StringBuilder sb) {
    if (v instanceof IntValue) { sb.append(((IntValue) v).val); return; }
    if (v instanceof BoolValue) { sb.append(((BoolValue) v).val); return; }
    if (v instanceof StringValue) { q(((StringValue) v).val.toString(), sb); return; }
    if (v instanceof ModelValue) { q(v.toString(), sb); return; }
    Value t = seqLike(v);
    if (t != null) {
      sb.append('['); boolean f = true;
      for (Value x : ((TupleValue) t).elems) { if (!f) sb.append(','); f = false; json(x, sb); }
      sb.append(']'); return;
    }
    if (v instanceof SetEnumValue || v.toSetEnum() != null) {
      SetEnumValue se = (SetEnumValue) v.toSetEnum(); se.normalize();
      sb.append('['); boolean f = true;
      for (int i = 0; i < se.elems.size(); i++) { if (!f) sb.append(','); f = false; json(se.elems.elementAt(i), sb); }
      sb.append(']'); return;
    }
    Value r = v.toRcd();
    if (r != null) {
      RecordValue rv = (RecordValue) r; sb.append('{');
      for (int i = 0; i < rv.names.length; i++) { if (i > 0) sb.append(','); q(rv.names[i].toString(), sb); sb.append(':'); json(rv.values[i], sb); }
      sb.append('}'); return;
    }
    q(v.toString(), sb);
  }
  static void q(String s, StringBuilder sb) {
    sb.append('"');
    for (char c : s.toCharArray()) {
      if (c == '"' || c == '\\') sb.append('\\').append(c);
      else if (c < 32 || c > 126) sb.append(String.format("\\u%04x", (int) c));
      else sb.append(c);
    }
    sb.append('"');
  }
  static final HashMap<String, BufferedWriter> files = new HashMap<>();
  @TLAPlusOperator(identifier = "EmitLine", module = "Rl", warn = false)
  public static Value EmitLine(final Value file, final Value v) throws IOException {
    StringBuilder sb = new StringBuilder(); json(v, sb); sb.append('\n');
    synchronized (files) {
      String f = ((StringValue) file).val.toString();
      BufferedWriter w = files.get(f);
      if (w == null) {
        if (files.isEmpty()) Runtime.getRuntime().addShutdownHook(new Thread(() -> { synchronized (files) { for (BufferedWriter x : files.values()) try { x.close(); } catch (IOException e) { } } }));
        w = new BufferedWriter(new FileWriter(f), 1 << 16); files.put(f, w);
      }
      w.write(sb.toString());
    }
    return BoolValue.ValTrue;
  }
  @TLAPlusOperator(identifier = "EnvStr", module = "Rl", warn = false)
  public static Value EnvStr(final Value k) { String s = System.getProperty(((StringValue) k).val.toString()); return new StringValue(s == null ? "" : s); }
  @TLAPlusOperator(identifier = "EnvInt", module = "Rl", warn = false)
  public static Value EnvInt(final Value k, final Value d) { String s = System.getProperty(((StringValue) k).val.toString()); return s == null ? d : IntValue.gen(Integer.parseInt(s)); }
}
