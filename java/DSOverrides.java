import java.io.BufferedReader;
import java.io.FileReader;
import java.util.ArrayList;
import java.util.HashMap;
import java.util.List;

import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.IValue;
import tlc2.value.impl.*;
import util.UniqueString;

/** Native scalar float primitives and strict vectors/folds for module Flt. */
public class DSOverrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    public Class[] get() { return new Class[] { DSOverrides.class }; }

    static Value mk(double d) {
        long b = Double.doubleToLongBits(d);
        return new TupleValue(new Value[] { IntValue.gen((int) (b >>> 32)), IntValue.gen((int) b) });
    }
    static double d(Value v) {
        if (v instanceof TupleValue) {
            Value[] e = ((TupleValue) v).elems;
            if (e.length == 2 && e[0] instanceof IntValue && e[1] instanceof IntValue) {
                long hi = ((IntValue) e[0]).val, lo = ((IntValue) e[1]).val & 0xffffffffL;
                return Double.longBitsToDouble((hi << 32) | lo);
            }
        }
        Value t = (Value) v.toTuple();
        if (t instanceof TupleValue && t != v) return d(t);
        throw new RuntimeException("not a float: " + v);
    }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    static final java.util.concurrent.ConcurrentHashMap<String, Value> LIT = new java.util.concurrent.ConcurrentHashMap<>();
    static double parse(String s) {
        switch (s) {
            case "nan": case "NaN": return Double.NaN;
            case "inf": case "Infinity": return Double.POSITIVE_INFINITY;
            case "-inf": case "-Infinity": return Double.NEGATIVE_INFINITY;
            default: return Double.parseDouble(s);
        }
    }

    @TLAPlusOperator(identifier = "R", module = "Flt", warn = false)
    public static Value lit(final Value s) {
        String k = ((StringValue) s).getVal().toString();
        Value v = LIT.get(k);
        if (v == null) { v = mk(parse(k)); LIT.put(k, v); }
        return v;
    }
    @TLAPlusOperator(identifier = "FInt", module = "Flt", warn = false)
    public static Value fint(final Value n) { return mk(((IntValue) n).val); }
    @TLAPlusOperator(identifier = "FStr", module = "Flt", warn = false)
    public static Value fstr(final Value x) { return new StringValue(Double.toString(d(x))); }
    @TLAPlusOperator(identifier = "FFloor", module = "Flt", warn = false)
    public static Value ffloor(final Value x) { return IntValue.gen((int) Math.floor(d(x))); }
    @TLAPlusOperator(identifier = "FAdd", module = "Flt", warn = false)
    public static Value fadd(final Value x, final Value y) { return mk(d(x) + d(y)); }
    @TLAPlusOperator(identifier = "FSub", module = "Flt", warn = false)
    public static Value fsub(final Value x, final Value y) { return mk(d(x) - d(y)); }
    @TLAPlusOperator(identifier = "FMul", module = "Flt", warn = false)
    public static Value fmul(final Value x, final Value y) { return mk(d(x) * d(y)); }
    @TLAPlusOperator(identifier = "FDiv", module = "Flt", warn = false)
    public static Value fdiv(final Value x, final Value y) { return mk(d(x) / d(y)); }
    @TLAPlusOperator(identifier = "FNeg", module = "Flt", warn = false)
    public static Value fneg(final Value x) { return mk(-d(x)); }
    @TLAPlusOperator(identifier = "FAbs", module = "Flt", warn = false)
    public static Value fabs(final Value x) { return mk(Math.abs(d(x))); }
    @TLAPlusOperator(identifier = "FExp", module = "Flt", warn = false)
    public static Value fexp(final Value x) { return mk(Math.exp(d(x))); }
    @TLAPlusOperator(identifier = "FLn", module = "Flt", warn = false)
    public static Value fln(final Value x) { return mk(Math.log(d(x))); }
    @TLAPlusOperator(identifier = "FLog10", module = "Flt", warn = false)
    public static Value flog(final Value x) { return mk(Math.log10(d(x))); }
    @TLAPlusOperator(identifier = "FPow10", module = "Flt", warn = false)
    public static Value fpow10(final Value x) { return mk(Math.pow(10.0, d(x))); }
    @TLAPlusOperator(identifier = "FPow", module = "Flt", warn = false)
    public static Value fpow(final Value x, final Value y) { return mk(Math.pow(d(x), d(y))); }
    @TLAPlusOperator(identifier = "FSqrt", module = "Flt", warn = false)
    public static Value fsqrt(final Value x) { return mk(Math.sqrt(d(x))); }
    @TLAPlusOperator(identifier = "FMin", module = "Flt", warn = false)
    public static Value fmin(final Value x, final Value y) { return mk(Math.min(d(x), d(y))); }
    @TLAPlusOperator(identifier = "FMax", module = "Flt", warn = false)
    public static Value fmax(final Value x, final Value y) { return mk(Math.max(d(x), d(y))); }
    @TLAPlusOperator(identifier = "F32", module = "Flt", warn = false)
    public static Value f32(final Value x) { return mk((double) (float) d(x)); }
    @TLAPlusOperator(identifier = "FLt", module = "Flt", warn = false)
    public static Value flt(final Value x, final Value y) { return b(d(x) < d(y)); }
    @TLAPlusOperator(identifier = "FLe", module = "Flt", warn = false)
    public static Value fle(final Value x, final Value y) { return b(d(x) <= d(y)); }
    @TLAPlusOperator(identifier = "FEq", module = "Flt", warn = false)
    public static Value feq(final Value x, final Value y) { return b(d(x) == d(y)); }
    @TLAPlusOperator(identifier = "FNaN", module = "Flt", warn = false)
    public static Value fnan(final Value x) { return b(Double.isNaN(d(x))); }
    @TLAPlusOperator(identifier = "FFin", module = "Flt", warn = false)
    public static Value ffin(final Value x) { double v = d(x); return b(!Double.isNaN(v) && !Double.isInfinite(v)); }
    @TLAPlusOperator(identifier = "IsFlt", module = "Flt", warn = false)
    public static Value isflt(final Value v) {
        if (!(v instanceof TupleValue)) return BoolValue.ValFalse;
        Value[] e = ((TupleValue) v).elems;
        return b(e.length == 2 && e[0] instanceof IntValue && e[1] instanceof IntValue);
    }

    @TLAPlusOperator(identifier = "FoldRange", module = "Flt", warn = false)
    public static Value foldRange(final OpValue op, final Value base, final IntValue lo, final IntValue hi) {
        Value acc = base;
        for (int i = lo.val; i <= hi.val; i++) {
            acc = (Value) op.eval(new Value[] { acc, IntValue.gen(i) }, tlc2.tool.EvalControl.Clear);
        }
        return acc;
    }
    @TLAPlusOperator(identifier = "Vec", module = "Flt", warn = false)
    public static Value vec(final IntValue n, final OpValue op) {
        Value[] r = new Value[Math.max(n.val, 0)];
        for (int i = 1; i <= n.val; i++) {
            r[i - 1] = (Value) op.eval(new Value[] { IntValue.gen(i) }, tlc2.tool.EvalControl.Clear);
        }
        return new TupleValue(r);
    }

    // ---- JSON ---------------------------------------------------------
    static final class P {
        final String s; int i = 0;
        P(String s) { this.s = s; }
        void ws() { while (i < s.length() && Character.isWhitespace(s.charAt(i))) i++; }
        Value val() {
            ws();
            char c = s.charAt(i);
            if (c == '{') {
                i++; List<UniqueString> n = new ArrayList<>(); List<Value> v = new ArrayList<>();
                ws();
                if (s.charAt(i) == '}') { i++; }
                else while (true) {
                    ws(); String k = str(); ws(); i++; // ':'
                    n.add(UniqueString.uniqueStringOf(k)); v.add(val()); ws();
                    if (s.charAt(i++) == '}') break;
                }
                return new RecordValue(n.toArray(new UniqueString[0]), v.toArray(new Value[0]), false);
            }
            if (c == '[') {
                i++; List<Value> v = new ArrayList<>(); ws();
                if (s.charAt(i) == ']') { i++; }
                else while (true) { v.add(val()); ws(); if (s.charAt(i++) == ']') break; }
                return new TupleValue(v.toArray(new Value[0]));
            }
            if (c == '"') return new StringValue(str());
            int j = i;
            while (j < s.length() && ",]} \t".indexOf(s.charAt(j)) < 0) j++;
            String t = s.substring(i, j); i = j;
            switch (t) {
                case "true": return BoolValue.ValTrue;
                case "false": return BoolValue.ValFalse;
                case "null": return new StringValue("null");
                case "NaN": case "Infinity": case "-Infinity": return mk(parse(t));
            }
            if (t.indexOf('.') >= 0 || t.indexOf('e') >= 0 || t.indexOf('E') >= 0) return mk(Double.parseDouble(t));
            return IntValue.gen(Integer.parseInt(t));
        }
        String str() {
            StringBuilder sb = new StringBuilder(); i++;
            while (true) {
                char c = s.charAt(i++);
                if (c == '"') return sb.toString();
                if (c == '\\') {
                    char e = s.charAt(i++);
                    switch (e) {
                        case 'n': sb.append('\n'); break;
                        case 't': sb.append('\t'); break;
                        case 'r': sb.append('\r'); break;
                        case 'u': sb.append((char) Integer.parseInt(s.substring(i, i + 4), 16)); i += 4; break;
                        default: sb.append(e);
                    }
                } else sb.append(c);
            }
        }
    }
    static final HashMap<String, Value> FILES = new HashMap<>();
    @TLAPlusOperator(identifier = "LoadTrace", module = "Flt", warn = false)
    public static Value load(final Value f) throws Exception {
        String fn = ((StringValue) f).getVal().toString();
        synchronized (FILES) {
            Value r = FILES.get(fn);
            if (r != null) return r;
            List<Value> v = new ArrayList<>();
            try (BufferedReader br = new BufferedReader(new FileReader(fn))) {
                String line;
                while ((line = br.readLine()) != null) if (!line.isBlank()) v.add(new P(line).val());
            }
            r = new TupleValue(v.toArray(new Value[0]));
            r.initialize();   // normalise once, single-threaded
            FILES.put(fn, r);
            return r;
        }
    }
}
