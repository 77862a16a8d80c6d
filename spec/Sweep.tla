------------------------------- MODULE Sweep ---------------------------------
(***************************************************************************)
(* The sweep-line algorithm as a state machine.                            *)
(*                                                                         *)
(* The state is a record s:                                                *)
(*   mesh  : set of triangles, each a canonical counter clockwise triple   *)
(*   cons  : set of constraint edges inserted so far                       *)
(*   front : sequence of points, the advancing front from left to right    *)
(*   left  : set of points not reached yet                                 *)
(*   pc    : "idle" | "insert" | "point" | "edges" | "edge" | "forced"     *)
(*           | "swept" | "final"                                           *)
(*   cur   : the point of the current event                                *)
(*   todo  : lower end points of the edges still to be inserted at cur     *)
(*   low   : lower end point of the edge being inserted                    *)
(* For each action A there is a guard CanA(I, s, ..) and the successor     *)
(* state DoA(I, s, ..).  SweepMC explores all of them, in every order the  *)
(* guards allow; SweepTrace checks that the real code only ever takes      *)
(* these steps.                                                            *)
(*                                                                         *)
(* I is the input record of Domain.tla with a further field                *)
(*   h : the two artificial points, left and right, below everything       *)
(***************************************************************************)
EXTENDS Triangulation, SequencesExt

HeadId(I) == Len(I.p) + 1
TailId(I) == Len(I.p) + 2
Pt(I, i) == IF i <= Len(I.p) THEN I.p[i] ELSE I.h[i - Len(I.p)]

ArtificialPointsOk(I) ==
  /\ CmpY(I.h[1], I.h[2]) = 0
  /\ \A i \in Ids(I) : /\ CmpY(I.h[1], I.p[i]) < 0
                       /\ CmpX(I.h[1], I.p[i]) < 0
                       /\ CmpX(I.p[i], I.h[2]) < 0

Lowest(I, S) == CHOOSE i \in S : \A j \in S : j = i \/ Below(I.p[i], I.p[j])

TriOrient(I, t) == Orient(Pt(I, t[1]), Pt(I, t[2]), Pt(I, t[3]))

(* lower ends of the constraint edges whose upper end is q *)
LowerEnds(I, q) ==
  LET N == UNION {c \ {q} : c \in {c \in ConstraintEdges(I) : q \in c}}
  IN {v \in N : Below(I.p[v], I.p[q])}

----------------------------------------------------------------------------
(* Edges of the mesh *)
HasEdge(S, e) == \E t \in S : e \in TriEdges(t)
HasUEdge(S, a, b) == HasEdge(S, <<a, b>>) \/ HasEdge(S, <<b, a>>)

(* directed edges of S without a partner: its boundary, S on the left *)
Rim(S) == LET E == DirectedEdges(S) IN {e \in E : Rev(e) \notin E}

(* the two triangles at the edge a b, and the flip of that edge *)
LeftTri(S, a, b) == CHOOSE t \in S : <<a, b>> \in TriEdges(t)
Inner(S, a, b) == HasEdge(S, <<a, b>>) /\ HasEdge(S, <<b, a>>)

FlipMesh(S, a, b) ==
  LET t == LeftTri(S, a, b)  c == ApexOf(t, <<a, b>>)
      u == LeftTri(S, b, a)  d == ApexOf(u, <<b, a>>)
  IN (S \ {t, u}) \cup {Canon(<<c, a, d>>), Canon(<<d, b, c>>)}

Illegal(I, S, a, b) ==
  LET t == LeftTri(S, a, b)
      d == ApexOf(LeftTri(S, b, a), <<b, a>>)
  IN InCircle(Pt(I, t[1]), Pt(I, t[2]), Pt(I, t[3]), Pt(I, d)) > 0

(* locally Delaunay everywhere except across constraint edges *)
Legal(I, S, C) == LET P(k) == Pt(I, k) IN LocallyDelaunay(P, S, C, FALSE)

----------------------------------------------------------------------------
(* The actions *)
InitState(I) ==
  LET f == Lowest(I, Ids(I)) IN
  [ mesh |-> {Canon(<<f, HeadId(I), TailId(I)>>)},
    cons |-> {},
    front |-> <<HeadId(I), f, TailId(I)>>,
    left |-> Ids(I) \ {f},
    pc |-> "idle", cur |-> f, todo |-> {}, low |-> 0 ]

(* a point event begins: the lowest point that was not reached yet *)
CanEnter(I, s, p) ==
  /\ s.pc = "idle" \/ (s.pc = "edges" /\ s.todo = {})
  /\ p \in s.left
  /\ \A j \in s.left : j = p \/ Below(I.p[p], I.p[j])
DoEnter(I, s, p) == [s EXCEPT !.pc = "insert", !.cur = p]

(* the front node at or to the left of the point *)
Locate(I, F, q) ==
  CHOOSE k \in 1..Len(F) :
    /\ ~LeftOf(q, Pt(I, F[k]))
    /\ k = Len(F) \/ LeftOf(q, Pt(I, F[k + 1]))

(* one triangle above the front edge that the point projects on *)
CanInsert(I, s) == s.pc = "insert"
DoInsert(I, s) ==
  LET k == Locate(I, s.front, I.p[s.cur]) IN
  [s EXCEPT !.pc = "point",
            !.left = s.left \ {s.cur},
            !.mesh = s.mesh \cup {Canon(<<s.cur, s.front[k], s.front[k + 1]>>)},
            !.front = SubSeq(s.front, 1, k) \o <<s.cur>> \o SubSeq(s.front, k + 1, Len(s.front))]

(* a valley of the front is covered by one triangle; a straight one may be *)
CanFill(I, s, k) ==
  /\ s.pc \in {"point", "edge"}
  /\ k \in 2..(Len(s.front) - 1)
  /\ Orient(Pt(I, s.front[k - 1]), Pt(I, s.front[k]), Pt(I, s.front[k + 1])) >= 0
DoFill(I, s, k) ==
  [s EXCEPT !.mesh = s.mesh \cup {Canon(<<s.front[k - 1], s.front[k], s.front[k + 1]>>)},
            !.front = SubSeq(s.front, 1, k - 1) \o SubSeq(s.front, k + 1, Len(s.front))]

(* a legalization: an edge that is no constraint and not locally Delaunay *)
CanFlip(I, s, a, b) ==
  /\ s.pc \in {"point", "edge", "forced"}
  /\ {a, b} \notin s.cons
  /\ Inner(s.mesh, a, b)
  /\ Illegal(I, s.mesh, a, b)
DoFlip(I, s, a, b) == [s EXCEPT !.mesh = FlipMesh(s.mesh, a, b)]

(* the front is a function of x: no node left of a vertical edge is left *)
FrontMonotone(I, F) == \A k \in 1..(Len(F) - 1) : CmpX(Pt(I, F[k]), Pt(I, F[k + 1])) < 0

CanExit(I, s) ==
  /\ s.pc = "point"
  /\ FrontMonotone(I, s.front)
  /\ Legal(I, s.mesh, s.cons)
DoExit(I, s) == [s EXCEPT !.pc = "edges", !.todo = LowerEnds(I, s.cur)]

CanBeginEdge(I, s, v) == s.pc = "edges" /\ v \in s.todo
DoBeginEdge(I, s, v) == [s EXCEPT !.pc = "edge", !.low = v]

(* triangles that the edge v w cuts through *)
Cut(I, S, v, w) ==
  {t \in S : \E e \in TriEdges(t) :
     ProperCross(Pt(I, v), Pt(I, w), Pt(I, e[1]), Pt(I, e[2]))}

(* The edge is forced into the mesh: S2 differs from S only in how the     *)
(* cut triangles' area is divided, and has the edge.                       *)
Forced(I, S, S2, v, w) ==
  LET C == Cut(I, S, v, w) IN
  /\ HasUEdge(S2, v, w)
  /\ S \ C \subseteq S2
  /\ Cardinality(S2) = Cardinality(S)
  /\ Cardinality(DirectedEdges(S2 \ (S \ C))) = 3 * Cardinality(C)
  /\ Rim(S2 \ (S \ C)) = Rim(C)
  /\ \A t \in S2 \ S : TriOrient(I, t) >= 0

CanForce(I, s, S2) == s.pc = "edge" /\ Forced(I, s.mesh, S2, s.low, s.cur)
DoForce(I, s, S2) ==
  [s EXCEPT !.pc = "forced", !.mesh = S2, !.cons = s.cons \cup {{s.low, s.cur}}]

CanEndEdge(I, s) == s.pc = "forced" /\ Legal(I, s.mesh, s.cons)
DoEndEdge(I, s) == [s EXCEPT !.pc = "edges", !.todo = s.todo \ {s.low}, !.low = 0]

CanSweepDone(I, s) == s.left = {} /\ (s.pc = "idle" \/ (s.pc = "edges" /\ s.todo = {}))
DoSweepDone(I, s) == [s EXCEPT !.pc = "swept"]

(* the triangles that the constraint edges separate from the outside *)
Interior(I, s) ==
  LET RECURSIVE Flood(_, _)
      Flood(Done, New) ==
        IF New = {} THEN Done
        ELSE LET D == Done \cup New
                 Open == {Rev(e) : e \in {d \in DirectedEdges(New) : Undirected(d) \notin s.cons}}
                 N == {t \in s.mesh \ D : TriEdges(t) \cap Open # {}}
             IN Flood(D, N)
      B == Boundary(I)
      seeds == {t \in s.mesh : TriEdges(t) \cap B # {}}
  IN Flood({}, seeds)

CanFinalize(I, s) == s.pc = "swept"
DoFinalize(I, s) == [s EXCEPT !.pc = "final", !.mesh = Interior(I, s)]

----------------------------------------------------------------------------
(* What holds in every reachable state *)

(* the mesh tiles exactly the area between the base line and the front *)
MeshTiles(I, S, F) ==
  /\ \A t \in S : TriOrient(I, t) >= 0
  /\ Cardinality(DirectedEdges(S)) = 3 * Cardinality(S)
  /\ Rim(S) = {<<HeadId(I), TailId(I)>>} \cup {<<F[k + 1], F[k]>> : k \in 1..(Len(F) - 1)}

FrontSorted(I, F) == \A k \in 1..(Len(F) - 1) : LeftOf(Pt(I, F[k]), Pt(I, F[k + 1]))
FrontEnds(I, F) == F[1] = HeadId(I) /\ F[Len(F)] = TailId(I)

(* every node of the front was reached, and nothing reached is above it *)
FrontReached(I, s) ==
  \A k \in 2..(Len(s.front) - 1) : s.front[k] \in Ids(I) \ s.left
BelowFront(I, s) ==
  LET P == [k \in 1..Len(s.front) |-> Pt(I, s.front[k])]
      RECURSIVE Under(_, _, _)
      (* the last k in a..b with P[k] at or left of q: the front is sorted *)
      Under(q, a, b) == IF a = b THEN a
                        ELSE LET m == (a + b + 1) \div 2 IN
                             IF CmpX(P[m], q) <= 0 THEN Under(q, m, b) ELSE Under(q, a, m - 1)
  IN \A v \in Ids(I) \ s.left :
       \E k \in {Under(I.p[v], 1, Len(P))} :
         k = Len(P) \/ CmpX(I.p[v], P[1]) < 0 \/ Orient(P[k], P[k + 1], I.p[v]) <= 0

(* every reached point is a corner of the mesh *)
AllReachedUsed(I, s) ==
  {t[k] : t \in s.mesh, k \in 1..3} = (Ids(I) \ s.left) \cup {HeadId(I), TailId(I)}

(* inserted constraints stay *)
ConstraintsStay(I, s) == s.cons \subseteq {Undirected(e) : e \in DirectedEdges(s.mesh)}

(* exactly the edges whose upper end was passed are in *)
ConstraintsSoFar(I, s) ==
  LET reached == Ids(I) \ s.left
      E == {c \in ConstraintEdges(I) : c \subseteq reached}
      open == IF s.pc \in {"insert", "point"} THEN (IF s.pc = "point" THEN {{v, s.cur} : v \in LowerEnds(I, s.cur)} ELSE {})
              ELSE IF s.pc = "forced" THEN {{v, s.cur} : v \in s.todo \ {s.low}}
              ELSE {{v, s.cur} : v \in s.todo}
  IN s.cons = E \ open
=============================================================================
