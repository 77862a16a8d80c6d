------------------------------ MODULE SweepMC --------------------------------
(***************************************************************************)
(* Exhaustive exploration of the design: for every input of a small grid,  *)
(* every order of fills, flips and forced flips that the guards of Sweep   *)
(* allow.  Shows that the guards alone (not the heuristics which of the    *)
(* allowed steps to take) imply the properties, and that the machine never *)
(* gets stuck before it is done.                                           *)
(***************************************************************************)
EXTENDS Sweep, TLC

CONSTANTS W, H,      \* grid of (W+1) x (H+1) places
          NMin, NMax, \* corners of the polyline
          SMax       \* Steiner points

Places == {<<10 * x, 10 * y>> : x \in 0..W, y \in 0..H}

VARIABLES inp, s, before
vars == <<inp, s, before>>

(* all sequences of n distinct places, starting with the (x, y)-least one:   *)
(* one start corner per loop, both orientations                              *)
RECURSIVE Walks(_)
Walks(n) == IF n = 1 THEN {<<q>> : q \in Places}
            ELSE UNION {{Append(w, q) : q \in {z \in Places \ {w[i] : i \in 1..(n - 1)} :
                                                 LeftOf(w[1], z)}} : w \in Walks(n - 1)}

Art == << <<-3 * W - 1, -3 * H - 1>>, <<13 * W + 1, -3 * H - 1>> >>

IsInput(J) == ValidInput(J)

Inputs ==
  UNION { UNION { {J \in {[p |-> w \o SetToSeq(S), l |-> <<[k \in 1..n |-> k]>>, h |-> Art]
                          : S \in {T \in SUBSET (Places \ {w[k] : k \in 1..n}) : Cardinality(T) <= SMax}}
                     : IsInput(J)}
                : w \in {v \in Walks(n) : v[2][1] * 100 + v[2][2] < v[n][1] * 100 + v[n][2]} }
        : n \in NMin..NMax }

Init == /\ inp \in Inputs
        /\ s = InitState(inp)
        /\ before = {}

Enter == \E p \in s.left : CanEnter(inp, s, p) /\ s' = DoEnter(inp, s, p) /\ UNCHANGED before
Insert == CanInsert(inp, s) /\ s' = DoInsert(inp, s) /\ UNCHANGED before
(* in an edge event only nodes below the edge have to be filled; nothing is  *)
(* lost by allowing all                                                      *)
Fill == \E k \in 2..(Len(s.front) - 1) :
          /\ CanFill(inp, s, k)
          /\ s.front[k] # s.cur
          /\ s.pc = "edge" => before = {}
          /\ s' = DoFill(inp, s, k) /\ UNCHANGED before
Flip == \E t \in s.mesh : \E e \in TriEdges(t) :
          /\ e[1] < e[2]
          /\ CanFlip(inp, s, e[1], e[2])
          /\ s.pc = "edge" => before = {}
          /\ s' = DoFlip(inp, s, e[1], e[2]) /\ UNCHANGED before
Exit == CanExit(inp, s) /\ s' = DoExit(inp, s) /\ UNCHANGED before
BeginEdge == \E v \in s.todo : CanBeginEdge(inp, s, v) /\ s' = DoBeginEdge(inp, s, v) /\ UNCHANGED before
(* all of the front between the ends of the constraint is above it: what was *)
(* below has been filled                                                     *)
FilledBelow ==
  LET a == Pt(inp, s.low)  b == Pt(inp, s.cur)
      l == IF LeftOf(a, b) THEN a ELSE b
      r == IF LeftOf(a, b) THEN b ELSE a
  IN \A k \in 1..Len(s.front) :
       LET q == Pt(inp, s.front[k]) IN (LeftOf(l, q) /\ LeftOf(q, r)) => Orient(l, r, q) > 0
(* one forced flip: an edge that the constraint cuts, in a convex quadrangle *)
ForceFlip ==
  /\ s.pc = "edge"
  /\ FilledBelow
  /\ \E t \in s.mesh : \E e \in TriEdges(t) :
       /\ e[1] < e[2]
       /\ Inner(s.mesh, e[1], e[2])
       /\ {e[1], e[2]} \notin s.cons
       /\ ProperCross(Pt(inp, s.low), Pt(inp, s.cur), Pt(inp, e[1]), Pt(inp, e[2]))
       /\ LET c == ApexOf(LeftTri(s.mesh, e[1], e[2]), e)
              d == ApexOf(LeftTri(s.mesh, e[2], e[1]), Rev(e))
          IN ProperCross(Pt(inp, c), Pt(inp, d), Pt(inp, e[1]), Pt(inp, e[2]))
       /\ s' = DoFlip(inp, s, e[1], e[2])
       /\ before' = IF before = {} THEN s.mesh ELSE before
Mark == /\ s.pc = "edge"
        /\ HasUEdge(s.mesh, s.low, s.cur)
        /\ s' = DoForce(inp, s, s.mesh)
        /\ UNCHANGED before
EndEdge == CanEndEdge(inp, s) /\ s' = DoEndEdge(inp, s) /\ before' = {}
SweepDone == CanSweepDone(inp, s) /\ s' = DoSweepDone(inp, s) /\ UNCHANGED before
Finalize == CanFinalize(inp, s) /\ s' = DoFinalize(inp, s) /\ UNCHANGED before

Next == /\ \/ Enter \/ Insert \/ Fill \/ Flip \/ Exit \/ BeginEdge \/ ForceFlip \/ Mark
           \/ EndEdge \/ SweepDone \/ Finalize
        /\ UNCHANGED inp
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Next)

----------------------------------------------------------------------------
Sweeping == s.pc \notin {"final"}
TypeOk == ArtificialPointsOk(inp) /\ s.left \subseteq Ids(inp)
InvTiles == Sweeping => MeshTiles(inp, s.mesh, s.front)
InvFront == /\ FrontSorted(inp, s.front) /\ FrontEnds(inp, s.front)
            /\ FrontReached(inp, s) /\ BelowFront(inp, s)
InvUsed == Sweeping => AllReachedUsed(inp, s)
InvConstraints == Sweeping => (ConstraintsStay(inp, s) /\ ConstraintsSoFar(inp, s))
(* the forced flips together are the composite step that traces are held to *)
ActForced == [][(s.pc = "edge" /\ s'.pc = "forced" /\ before # {})
                 => Forced(inp, before, s'.mesh, s.low, s.cur)]_vars
(* the result *)
T == SetToSeq(s.mesh)
InvResult == s.pc = "final" =>
  /\ ExactTiling(inp, T) /\ ConstraintsRespected(inp, T) /\ ConstrainedDelaunay(inp, T)
  /\ VerticesExact(inp, T) /\ NoPointInside(inp, T) /\ NoConstraintCrossed(inp, T)
  /\ CountExact(inp, T)
(* no dead end before the end *)
NotStuck == s.pc # "final" => ENABLED Next
Terminates == <>(s.pc = "final")
=============================================================================
