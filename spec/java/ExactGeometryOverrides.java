import java.math.BigDecimal;
import java.math.BigInteger;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.HashMap;
import java.util.HashSet;
import java.util.concurrent.ConcurrentHashMap;

import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.SetEnumValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * Exact evaluators for the operators of ExactGeometry.tla marked (*@*), and faster ones for those of
 * Triangulation.tla marked so. GeometryCheck.tla compares all of them with their definitions.
 */
public class ExactGeometryOverrides implements ITLCOverrides {
    @Override
    public Class[] get() {
        return new Class[] {ExactGeometryOverrides.class};
    }

    private static final ConcurrentHashMap<String, BigDecimal> CACHE = new ConcurrentHashMap<>();
    private static final long SMALL = 1L << 14;

    private static BigDecimal parse(String s) {
        BigDecimal r = CACHE.get(s);
        if (r == null) {
            if (CACHE.size() > 2_000_000) CACHE.clear();
            r = new BigDecimal(Double.parseDouble(s)); // exact value of the double
            CACHE.put(s, r);
        }
        return r;
    }

    private static Value coord(Value p, int i) {
        TupleValue t = p instanceof TupleValue ? (TupleValue) p : (TupleValue) p.toTuple();
        return t.elems[i];
    }

    private static boolean isInt(Value... ps) {
        for (Value p : ps) {
            if (!(coord(p, 0) instanceof IntValue) || !(coord(p, 1) instanceof IntValue)) return false;
        }
        return true;
    }

    private static long l(Value p, int i) {
        return ((IntValue) coord(p, i)).val;
    }

    private static BigDecimal big(Value p, int i) {
        Value v = coord(p, i);
        if (v instanceof IntValue) return BigDecimal.valueOf(((IntValue) v).val);
        return parse(((StringValue) v).val.toString());
    }

    @TLAPlusOperator(identifier = "Orient", module = "ExactGeometry", warn = false)
    public static Value orient(final Value a, final Value b, final Value c) {
        if (isInt(a, b, c)) {
            // |differences| < 2^32: the products may exceed 63 bits only beyond 2^31 differences
            long bx = l(b, 0) - l(a, 0), by = l(b, 1) - l(a, 1);
            long cx = l(c, 0) - l(a, 0), cy = l(c, 1) - l(a, 1);
            if (Math.abs(bx) < (1L << 30) && Math.abs(by) < (1L << 30)
                && Math.abs(cx) < (1L << 30) && Math.abs(cy) < (1L << 30)) {
                return IntValue.gen(Long.signum(bx * cy - by * cx));
            }
        }
        BigDecimal ax = big(a, 0), ay = big(a, 1);
        BigDecimal bx = big(b, 0).subtract(ax), by = big(b, 1).subtract(ay);
        BigDecimal cx = big(c, 0).subtract(ax), cy = big(c, 1).subtract(ay);
        return IntValue.gen(bx.multiply(cy).compareTo(by.multiply(cx)));
    }

    @TLAPlusOperator(identifier = "InCircle", module = "ExactGeometry", warn = false)
    public static Value inCircle(final Value a, final Value b, final Value c, final Value d) {
        if (isInt(a, b, c, d)) {
            long ax = l(a, 0) - l(d, 0), ay = l(a, 1) - l(d, 1);
            long bx = l(b, 0) - l(d, 0), by = l(b, 1) - l(d, 1);
            long cx = l(c, 0) - l(d, 0), cy = l(c, 1) - l(d, 1);
            long m = Math.max(Math.max(Math.max(Math.abs(ax), Math.abs(ay)), Math.max(Math.abs(bx), Math.abs(by))),
                              Math.max(Math.abs(cx), Math.abs(cy)));
            if (m < SMALL) { // 12 * 2^56 < 2^63
                return IntValue.gen(Long.signum(
                    (ax * ax + ay * ay) * (bx * cy - by * cx)
                    + (bx * bx + by * by) * (cx * ay - cy * ax)
                    + (cx * cx + cy * cy) * (ax * by - ay * bx)));
            }
        }
        BigDecimal dx = big(d, 0), dy = big(d, 1);
        BigDecimal ax = big(a, 0).subtract(dx), ay = big(a, 1).subtract(dy);
        BigDecimal bx = big(b, 0).subtract(dx), by = big(b, 1).subtract(dy);
        BigDecimal cx = big(c, 0).subtract(dx), cy = big(c, 1).subtract(dy);
        BigDecimal r = norm(ax, ay).multiply(cross(bx, by, cx, cy))
            .add(norm(bx, by).multiply(cross(cx, cy, ax, ay)))
            .add(norm(cx, cy).multiply(cross(ax, ay, bx, by)));
        return IntValue.gen(r.signum());
    }

    private static BigDecimal norm(BigDecimal x, BigDecimal y) {
        return x.multiply(x).add(y.multiply(y));
    }

    private static BigDecimal cross(BigDecimal ax, BigDecimal ay, BigDecimal bx, BigDecimal by) {
        return ax.multiply(by).subtract(ay.multiply(bx));
    }

    @TLAPlusOperator(identifier = "CmpX", module = "ExactGeometry", warn = false)
    public static Value cmpX(final Value a, final Value b) {
        return cmp(a, b, 0);
    }

    @TLAPlusOperator(identifier = "CmpY", module = "ExactGeometry", warn = false)
    public static Value cmpY(final Value a, final Value b) {
        return cmp(a, b, 1);
    }

    private static Value cmp(Value a, Value b, int i) {
        if (isInt(a, b)) return IntValue.gen(Long.compare(l(a, i), l(b, i)));
        return IntValue.gen(big(a, i).compareTo(big(b, i)));
    }

    @TLAPlusOperator(identifier = "SameScaled", module = "ExactGeometry", warn = false)
    public static Value sameScaled(final Value q, final Value p, final Value e) {
        int n = ((IntValue) e).val;
        BigDecimal f = BigDecimal.valueOf(2).pow(Math.abs(n));
        for (int i = 0; i < 2; i++) {
            BigDecimal a = big(q, i), b = big(p, i);
            if (n >= 0) b = b.multiply(f);
            else a = a.multiply(f);
            if (a.compareTo(b) != 0) return BoolValue.ValFalse;
        }
        return BoolValue.ValTrue;
    }

    private static BigDecimal num(Value v) {
        return v instanceof IntValue ? BigDecimal.valueOf(((IntValue) v).val) : parse(((StringValue) v).val.toString());
    }

    @TLAPlusOperator(identifier = "IsSum", module = "ExactGeometry", warn = false)
    public static Value isSum(final Value a, final Value b, final Value c) {
        return num(a).compareTo(num(b).add(num(c))) == 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    /** the elements, possibly with repetitions */
    private static SetEnumValue set(Value s) {
        return s instanceof SetEnumValue ? (SetEnumValue) s : (SetEnumValue) s.toSetEnum();
    }

    /** normalize sorts by insertion: fast only if the elements are sorted already */
    private static SetEnumValue sorted(ArrayList<Value> elements) {
        Value[] v = elements.toArray(new Value[0]);
        Arrays.sort(v, (a, b) -> a.compareTo(b));
        SetEnumValue r = new SetEnumValue(v, false);
        r.normalize();
        return r;
    }

    private static int corner(Value t, int i) {
        return ((IntValue) coord(t, i)).val;
    }

    private static TupleValue edge(int a, int b) {
        return new TupleValue(new Value[] {IntValue.gen(a), IntValue.gen(b)});
    }

    @TLAPlusOperator(identifier = "DirectedEdges", module = "Triangulation", warn = false)
    public static Value directedEdges(final Value s) {
        SetEnumValue ts = set(s);
        HashSet<Long> seen = new HashSet<>();
        ArrayList<Value> out = new ArrayList<>();
        for (int i = 0; i < ts.elems.size(); i++) {
            Value t = ts.elems.elementAt(i);
            for (int k = 0; k < 3; k++) {
                int a = corner(t, k), b = corner(t, (k + 1) % 3);
                if (seen.add(((long) a << 32) | b)) out.add(edge(a, b));
            }
        }
        return sorted(out);
    }

    @TLAPlusOperator(identifier = "Quads", module = "Triangulation", warn = false)
    public static Value quads(final Value s) {
        SetEnumValue ts = set(s);
        HashMap<Long, ArrayList<Integer>> apex = new HashMap<>();
        for (int i = 0; i < ts.elems.size(); i++) {
            Value t = ts.elems.elementAt(i);
            for (int k = 0; k < 3; k++) {
                int a = corner(t, k), b = corner(t, (k + 1) % 3), c = corner(t, (k + 2) % 3);
                apex.computeIfAbsent(((long) a << 32) | b, x -> new ArrayList<>(1)).add(c);
            }
        }
        ArrayList<Value> out = new ArrayList<>();
        for (Long key : apex.keySet()) {
            int a = (int) (key >> 32), b = (int) (long) key;
            ArrayList<Integer> other = apex.get(((long) b << 32) | a);
            if (a >= b || other == null) continue;
            for (int c : apex.get(key)) {
                for (int d : other) {
                    out.add(new TupleValue(new Value[] {IntValue.gen(a), IntValue.gen(b), IntValue.gen(c), IntValue.gen(d)}));
                }
            }
        }
        return sorted(out);
    }
}
