---------------------------- MODULE ExactGeometry ----------------------------
(***************************************************************************)
(* Exact planar geometry: the vocabulary every other module is written in. *)
(*                                                                         *)
(* A point is a pair <<x, y>>.  A coordinate is an integer; the definitions*)
(* below are the meaning of the predicates.                                *)
(*                                                                         *)
(* TLC evaluates integers in 32 bits and knows no floating point numbers.  *)
(* java/ExactGeometryOverrides.java therefore gives TLC a second evaluator *)
(* for the operators marked (*@*): same result on small integers (checked  *)
(* by GeometryCheck.tla, which compares both exhaustively on a grid), and  *)
(* in addition exact for any integer and for a coordinate written as the   *)
(* string of an IEEE double, which is read as the dyadic rational it is.   *)
(***************************************************************************)
EXTENDS Integers, Sequences

Sgn(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0

X(p) == p[1]
Y(p) == p[2]

(* 1: a, b, c make a left turn (counter clockwise); -1: right turn; 0: collinear *)
Orient(a, b, c) ==  (*@*)
  Sgn((b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1]))

(* a, b, c counter clockwise: 1 iff d is strictly inside their circle, 0 on it *)
InCircle(a, b, c, d) ==  (*@*)
  LET ax == a[1] - d[1]  ay == a[2] - d[2]
      bx == b[1] - d[1]  by == b[2] - d[2]
      cx == c[1] - d[1]  cy == c[2] - d[2]
  IN Sgn(  (ax * ax + ay * ay) * (bx * cy - by * cx)
         + (bx * bx + by * by) * (cx * ay - cy * ax)
         + (cx * cx + cy * cy) * (ax * by - ay * bx))

(* comparison of coordinates *)
CmpX(a, b) == Sgn(a[1] - b[1])  (*@*)
CmpY(a, b) == Sgn(a[2] - b[2])  (*@*)

SamePoint(a, b) == CmpX(a, b) = 0 /\ CmpY(a, b) = 0

(* the sweep order: by y, then by x *)
Below(a, b) == CmpY(a, b) < 0 \/ (CmpY(a, b) = 0 /\ CmpX(a, b) < 0)

(* the advancing front order: by x, then by y *)
LeftOf(a, b) == CmpX(a, b) < 0 \/ (CmpX(a, b) = 0 /\ CmpY(a, b) < 0)

Between(a, b, c) == \* c in the bounding box of a, b
  /\ CmpX(a, c) * CmpX(c, b) >= 0
  /\ CmpY(a, c) * CmpY(c, b) >= 0

(* c is on the closed segment a b *)
OnSegment(a, b, c) == Orient(a, b, c) = 0 /\ Between(a, b, c)

(* c is on the segment a b, but none of its end points *)
InsideSegment(a, b, c) == OnSegment(a, b, c) /\ ~SamePoint(a, c) /\ ~SamePoint(b, c)

(* the open segments cross in one point, interior to both *)
ProperCross(a, b, c, d) ==
  /\ Orient(a, b, c) * Orient(a, b, d) < 0
  /\ Orient(c, d, a) * Orient(c, d, b) < 0

(* the closed segments have a common point *)
Touch(a, b, c, d) ==
  \/ ProperCross(a, b, c, d)
  \/ OnSegment(a, b, c) \/ OnSegment(a, b, d)
  \/ OnSegment(c, d, a) \/ OnSegment(c, d, b)

(* for coordinates *)
IsSum(a, b, c) == a = b + c  (*@*)

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

(* q is p with both coordinates multiplied by 2^e *)
SameScaled(q, p, e) ==  (*@*)
  IF e >= 0 THEN q = <<p[1] * Pow2(e), p[2] * Pow2(e)>>
            ELSE p = <<q[1] * Pow2(-e), q[2] * Pow2(-e)>>

(* A ray from p to the right crosses the segment a b (half open rule).       *)
RayCrosses(a, b, p) ==
  \/ CmpY(a, p) <= 0 /\ CmpY(b, p) > 0 /\ Orient(a, b, p) > 0
  \/ CmpY(b, p) <= 0 /\ CmpY(a, p) > 0 /\ Orient(b, a, p) > 0
=============================================================================
