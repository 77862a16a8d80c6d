------------------------------- MODULE Domain --------------------------------
(***************************************************************************)
(* What a valid input is, and the region it describes.                     *)
(*                                                                         *)
(* An input I is a record                                                  *)
(*   p : sequence of points, in the order they were handed to the builder  *)
(*   l : sequence of loops, each a sequence of indices into p.  The first  *)
(*       is the polyline, the others are holes.  Indices that are in no    *)
(*       loop are Steiner points.                                          *)
(* The region is the closed polygon bounded by l[1] minus the interior of  *)
(* the holes.                                                              *)
(***************************************************************************)
EXTENDS ExactGeometry, FiniteSets

Ids(I) == 1..Len(I.p)

SuccIdx(loop, i) == IF i = Len(loop) THEN 1 ELSE i + 1
PredIdx(loop, i) == IF i = 1 THEN Len(loop) ELSE i - 1

LoopEdges(loop) == {<<loop[i], loop[SuccIdx(loop, i)]>> : i \in 1..Len(loop)}

(* all constraint edges, in the direction the loops were given *)
GivenEdges(I) == UNION {LoopEdges(I.l[k]) : k \in 1..Len(I.l)}

Undirected(e) == {e[1], e[2]}
Rev(e) == <<e[2], e[1]>>

ConstraintEdges(I) == {Undirected(e) : e \in GivenEdges(I)}

LoopPoints(I) == UNION {{I.l[k][i] : i \in 1..Len(I.l[k])} : k \in 1..Len(I.l)}
SteinerPoints(I) == Ids(I) \ LoopPoints(I)

(* The leftmost (then lowest) corner of a simple loop is strictly convex,  *)
(* so its turn tells the orientation of the loop.                          *)
LoopIsCCW(I, loop) ==
  LET m == CHOOSE i \in 1..Len(loop) :
             \A j \in 1..Len(loop) : j = i \/ LeftOf(I.p[loop[i]], I.p[loop[j]])
  IN Orient(I.p[loop[PredIdx(loop, m)]], I.p[loop[m]], I.p[loop[SuccIdx(loop, m)]]) > 0

(* The boundary of the region, directed such that the region is on the left *)
Boundary(I) ==
  UNION { LET ccw == LoopIsCCW(I, I.l[k])
          IN IF ccw = (k = 1) THEN LoopEdges(I.l[k])
                              ELSE {Rev(e) : e \in LoopEdges(I.l[k])}
          : k \in 1..Len(I.l) }

(* parity of the ray crossings of a loop: strictly inside, for points that *)
(* are not on the loop                                                     *)
InsideLoop(I, loop, q) ==
  Cardinality({i \in 1..Len(loop) :
     RayCrosses(I.p[loop[i]], I.p[loop[SuccIdx(loop, i)]], q)}) % 2 = 1

StrictlyInRegion(I, q) ==
  /\ InsideLoop(I, I.l[1], q)
  /\ \A k \in 2..Len(I.l) : ~InsideLoop(I, I.l[k], q)

(* ids of the points that the triangulation must use *)
InRegion(I) == LoopPoints(I) \cup {i \in SteinerPoints(I) : StrictlyInRegion(I, I.p[i])}

----------------------------------------------------------------------------
(* Validity: what the documentation asks of the caller (one polyline, no   *)
(* duplicate points), plus what "polyline" and "hole" mean, plus: no point *)
(* in the interior of a constraint edge (see DESIGN.md).                   *)

Distinct(I) == \A i, j \in Ids(I) : i < j => ~SamePoint(I.p[i], I.p[j])

LoopsDisjoint(I) ==
  /\ \A k \in 1..Len(I.l) : Len(I.l[k]) >= 3
  /\ \A k, m \in 1..Len(I.l) : \A i \in 1..Len(I.l[k]), j \in 1..Len(I.l[m]) :
       (k = m /\ i = j) \/ I.l[k][i] # I.l[m][j]

(* two constraint edges have no point in common but a shared end point *)
EdgesSimple(I) ==
  LET E == GivenEdges(I) IN
  \A e, f \in E :
    \/ e = f
    \/ IF Undirected(e) \cap Undirected(f) = {}
         THEN ~Touch(I.p[e[1]], I.p[e[2]], I.p[f[1]], I.p[f[2]])
         ELSE LET s == CHOOSE v \in Undirected(e) \cap Undirected(f) : TRUE
                  a == CHOOSE v \in Undirected(e) : v # s
                  b == CHOOSE v \in Undirected(f) : v # s
              IN a # b /\ ~OnSegment(I.p[e[1]], I.p[e[2]], I.p[b])
                       /\ ~OnSegment(I.p[f[1]], I.p[f[2]], I.p[a])

SteinerOffEdges(I) ==
  \A e \in GivenEdges(I), i \in SteinerPoints(I) : ~OnSegment(I.p[e[1]], I.p[e[2]], I.p[i])

HolesInside(I) ==
  \A k \in 2..Len(I.l) :
    /\ InsideLoop(I, I.l[1], I.p[I.l[k][1]])
    /\ \A m \in 2..Len(I.l) : m = k \/ ~InsideLoop(I, I.l[m], I.p[I.l[k][1]])

ValidInput(I) ==
  /\ Len(I.l) >= 1
  /\ LoopsDisjoint(I)
  /\ Distinct(I)
  /\ EdgesSimple(I)
  /\ SteinerOffEdges(I)
  /\ HolesInside(I)
=============================================================================
