---------------------------- MODULE Triangulation ----------------------------
(***************************************************************************)
(* What a correct result is.  T is a sequence (or set) of triangles, each a *)
(* triple of point indices of the input I.                                  *)
(***************************************************************************)
EXTENDS Domain

(* directed edges of a triangle *)
TriEdges(t) == {<<t[1], t[2]>>, <<t[2], t[3]>>, <<t[3], t[1]>>}
TriPoints(t) == {t[1], t[2], t[3]}

(* the corner of t that is not on its directed edge e *)
ApexOf(t, e) == IF t[1] # e[1] /\ t[1] # e[2] THEN t[1]
                ELSE IF t[2] # e[1] /\ t[2] # e[2] THEN t[2] ELSE t[3]

TriSet(T) == {T[i] : i \in 1..Len(T)}

DirectedEdges(S) == UNION {TriEdges(t) : t \in S}  (*@*)

(* rotate the smallest index to the front: a name for the oriented triangle *)
Canon(t) == IF t[1] < t[2]
            THEN IF t[1] < t[3] THEN t ELSE <<t[3], t[1], t[2]>>
            ELSE IF t[2] < t[3] THEN <<t[2], t[3], t[1]>> ELSE <<t[3], t[1], t[2]>>

(* all corners are input points: neither invented nor artificial ones *)
OnlyInputPoints(I, T) == \A i \in 1..Len(T) : TriPoints(T[i]) \subseteq Ids(I)

AllCCW(I, T) == \A i \in 1..Len(T) : Orient(I.p[T[i][1]], I.p[T[i][2]], I.p[T[i][3]]) > 0

(* Exact tiling of the region.  All triangles are counter clockwise, no    *)
(* directed edge occurs twice, and the directed edges without a partner    *)
(* are exactly the boundary.  The winding number of the sum of the         *)
(* triangles' boundaries around any point not on an edge is the number of  *)
(* triangles that cover it; it equals the winding number of the boundary   *)
(* of the region, 1 inside and 0 outside.  So: no overlap, no gap, nothing *)
(* outside.                                                                *)
ExactTiling(I, T) ==
  LET S == TriSet(T)
      E == DirectedEdges(S)
  IN /\ Len(T) > 0
     /\ AllCCW(I, T)
     /\ Cardinality(E) = 3 * Len(T)
     /\ {e \in E : Rev(e) \notin E} = Boundary(I)

(* every constraint edge is an edge of the triangulation, with exactly one  *)
(* triangle: the one on the region's side                                   *)
ConstraintsRespected(I, T) ==
  LET E == DirectedEdges(TriSet(T)) IN
  \A e \in Boundary(I) : e \in E /\ Rev(e) \notin E

(* no triangle contains an input point but its corners, and no constraint   *)
(* edge passes through the interior of a triangle: follows from the above,  *)
(* stated on its own as the independent reading of "constraints respected"  *)
NoPointInside(I, T) ==
  \A i \in 1..Len(T) : \A v \in Ids(I) \ TriPoints(T[i]) :
    ~ /\ Orient(I.p[T[i][1]], I.p[T[i][2]], I.p[v]) >= 0
      /\ Orient(I.p[T[i][2]], I.p[T[i][3]], I.p[v]) >= 0
      /\ Orient(I.p[T[i][3]], I.p[T[i][1]], I.p[v]) >= 0

NoConstraintCrossed(I, T) ==
  \A c \in GivenEdges(I) : \A i \in 1..Len(T) : \A e \in TriEdges(T[i]) :
    ~ProperCross(I.p[c[1]], I.p[c[2]], I.p[e[1]], I.p[e[2]])

(* All <<a, b, c, d>> with a < b such that <<a, b, c>> is one triangle (or   *)
(* a rotation) and <<b, a, d>> another: the edges with a triangle on both   *)
(* sides, and the corners across.                                           *)
Quads(S) ==  (*@*)
  UNION {{<<e[1], e[2], ApexOf(t, e), ApexOf(u, Rev(e))>> :
            u \in {v \in S : Rev(e) \in TriEdges(v)}} : <<t, e>> \in {x \in S \X DirectedEdges(S) :
              x[2] \in TriEdges(x[1]) /\ x[2][1] < x[2][2]}}

(* No edge of S that is not in C has the corner of the other side strictly  *)
(* inside (or, if strict, on) the circle of the triangle of this side.      *)
LocallyDelaunay(Pts(_), S, C, strict) ==
  LET limit == IF strict THEN -1 ELSE 0
  IN \A q \in Quads(S) :
       {q[1], q[2]} \in C \/ InCircle(Pts(q[1]), Pts(q[2]), Pts(q[3]), Pts(q[4])) <= limit

ConstrainedDelaunay(I, T) ==
  LET P(k) == I.p[k] IN LocallyDelaunay(P, TriSet(T), ConstraintEdges(I), FALSE)

(* The constrained Delaunay triangulation is unique if no such edge has a   *)
(* fourth point on the circle.                                              *)
StrictlyDelaunay(I, T) ==
  LET P(k) == I.p[k] IN LocallyDelaunay(P, TriSet(T), ConstraintEdges(I), TRUE)

(* exactly the points of the region are used *)
VerticesExact(I, T) ==
  UNION {TriPoints(T[i]) : i \in 1..Len(T)} = InRegion(I)

(* Euler: 2 v + 2 h - b - 2 triangles for a region with h holes *)
CountExact(I, T) ==
  Len(T) = 2 * Cardinality(InRegion(I)) + 2 * (Len(I.l) - 1) - Cardinality(Boundary(I)) - 2

CanonSet(T) == {Canon(T[i]) : i \in 1..Len(T)}
=============================================================================
