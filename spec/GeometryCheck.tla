---------------------------- MODULE GeometryCheck ----------------------------
(* Compares the Java evaluators of ExactGeometry with the TLA+ definitions:  *)
(* exhaustively on a grid, and the string (IEEE double) reading with the     *)
(* integer one.  D is ExactGeometry under names that are not overridden.     *)
EXTENDS Triangulation, TLC
CONSTANTS W

Pt == (0..W) \X (0..W)

DOrient(a, b, c) ==
  Sgn((b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1]))
DInCircle(a, b, c, d) ==
  LET ax == a[1] - d[1]  ay == a[2] - d[2]
      bx == b[1] - d[1]  by == b[2] - d[2]
      cx == c[1] - d[1]  cy == c[2] - d[2]
  IN Sgn(  (ax * ax + ay * ay) * (bx * cy - by * cx)
         + (bx * bx + by * by) * (cx * ay - cy * ax)
         + (cx * cx + cy * cy) * (ax * by - ay * bx))

Str(p) == <<ToString(p[1]), ToString(p[2])>>

VARIABLES a, b, c
Init == a \in Pt /\ b \in Pt /\ c \in Pt
Next == UNCHANGED <<a, b, c>>
Spec == Init /\ [][Next]_<<a, b, c>>

Same ==
  /\ Orient(a, b, c) = DOrient(a, b, c)
  /\ Orient(Str(a), Str(b), Str(c)) = DOrient(a, b, c)
  /\ CmpX(Str(a), Str(b)) = Sgn(a[1] - b[1]) /\ CmpX(a, b) = Sgn(a[1] - b[1])
  /\ CmpY(Str(a), Str(b)) = Sgn(a[2] - b[2]) /\ CmpY(a, b) = Sgn(a[2] - b[2])
  /\ \A d \in Pt : /\ InCircle(a, b, c, d) = DInCircle(a, b, c, d)
                   /\ InCircle(Str(a), Str(b), Str(c), Str(d)) = DInCircle(a, b, c, d)

DSameScaled(q, p, e) ==
  IF e >= 0 THEN q = <<p[1] * Pow2(e), p[2] * Pow2(e)>>
            ELSE p = <<q[1] * Pow2(-e), q[2] * Pow2(-e)>>
SameScale ==
  \A e \in -2..2 : /\ SameScaled(a, b, e) = DSameScaled(a, b, e)
                   /\ SameScaled(Str(a), Str(b), e) = DSameScaled(a, b, e)
Sums ==
  \A e \in {<<a[1], b[1], c[1]>>, <<0, a[1] - 3, b[1]>>, <<a[1] + b[1], a[1], b[1]>>} :
    /\ IsSum(e[1], e[2], e[3]) = (e[1] = e[2] + e[3])
    /\ IsSum(ToString(e[1]), e[2], ToString(e[3])) = (e[1] = e[2] + e[3])
(* doubles that are no integers: halves against the integers they are half of *)
Half(p) == [k \in 1..2 |-> ToString(p[k] \div 2) \o (IF p[k] % 2 = 1 THEN ".5" ELSE ".0")]
Halves ==
  /\ SameScaled(Half(a), a, -1) /\ SameScaled(Str(a), Half(a), 1)
  /\ Orient(Half(a), Half(b), Half(c)) = DOrient(a, b, c)
  /\ CmpX(Half(a), Half(b)) = Sgn(a[1] - b[1])
  /\ \A d \in Pt : InCircle(Half(a), Half(b), Half(c), Half(d)) = DInCircle(a, b, c, d)

(* the triangle set operators, on sets of up to three oriented triples *)
DDirectedEdges(S) == UNION {TriEdges(t) : t \in S}
DQuads(S) ==
  UNION {{<<e[1], e[2], ApexOf(t, e), ApexOf(u, Rev(e))>> :
            u \in {v \in S : Rev(e) \in TriEdges(v)}} : <<t, e>> \in {x \in S \X DDirectedEdges(S) :
              x[2] \in TriEdges(x[1]) /\ x[2][1] < x[2][2]}}
Triples == {t \in (1..5) \X (1..5) \X (1..5) : t[1] < t[2] /\ t[1] < t[3] /\ t[2] # t[3]}
Code(q) == q[1] + (W + 1) * q[2]
Pick(n) == CHOOSE t \in Triples : Cardinality({u \in Triples : u[1] * 100 + u[2] * 10 + u[3] < t[1] * 100 + t[2] * 10 + t[3]}) = n % Cardinality(Triples)
Picks == [n \in 0..(Cardinality(Triples) - 1) |-> Pick(n)]
SameSets ==
  LET m == Cardinality(Triples)
      S3 == {Picks[(3 * Code(a)) % m], Picks[(7 * Code(b)) % m], Picks[(11 * Code(c) + Code(b)) % m]} IN
  /\ DirectedEdges(S3) = DDirectedEdges(S3)
  /\ Quads(S3) = DQuads(S3)
  /\ Quads({}) = DQuads({})
=============================================================================
