----------------------------- MODULE SmallInputs ------------------------------
(***************************************************************************)
(* All valid inputs on a small grid, built up corner by corner: TLC        *)
(* explores this module and prints each complete input once, to be         *)
(* replayed in the real library.  Loops start at their least corner and    *)
(* run in one of the two directions, holes and Steiner points come in a    *)
(* fixed order; the driver varies that.                                    *)
(***************************************************************************)
EXTENDS Domain, TLC

CONSTANTS W, H,     \* grid of (W+1) x (H+1) places
          PMax,     \* corners of the polyline
          LMax,     \* holes
          HMax,     \* corners of a hole
          SMax,     \* Steiner points
          NMax      \* points in all

VARIABLES walk,  \* the loop being built
          loops, \* those closed
          st     \* Steiner points
vars == <<walk, loops, st>>

Places == {<<x, y>> : x \in 0..W, y \in 0..H}
Range(q) == {q[k] : k \in 1..Len(q)}
Used == Range(walk) \cup Range(st) \cup UNION {Range(loops[k]) : k \in 1..Len(loops)}
Points == Cardinality(Used)

Segments(q) == {<<q[k], q[k + 1]>> : k \in 1..(Len(q) - 1)}
Closed(q) == Segments(q) \cup {<<q[Len(q)], q[1]>>}
Fixed == UNION {Closed(loops[k]) : k \in 1..Len(loops)}

(* the segment a b may follow the walk, which ends in a *)
Free(a, b) ==
  /\ \A e \in Fixed : ~Touch(e[1], e[2], a, b)
  /\ \A e \in Segments(walk) :
       IF e[2] = a THEN ~OnSegment(e[1], e[2], b) /\ ~OnSegment(a, b, e[1])
       ELSE IF e[1] = b THEN ~OnSegment(e[1], e[2], a) /\ ~OnSegment(a, b, e[2])
       ELSE ~Touch(e[1], e[2], a, b)

Init == walk = <<>> /\ loops = <<>> /\ st = <<>>

Limit == IF loops = <<>> THEN PMax ELSE HMax

Start == /\ walk = <<>> /\ st = <<>>
         /\ Len(loops) <= LMax
         /\ \E q \in Places \ Used :
              /\ Len(loops) >= 2 => LeftOf(loops[Len(loops)][1], q)  \* holes in order
              /\ walk' = <<q>>
         /\ UNCHANGED <<loops, st>>
Turn == /\ walk # <<>> /\ Len(walk) < Limit /\ Points < NMax
        /\ \E q \in Places \ Used :
             /\ LeftOf(walk[1], q)
             /\ Free(walk[Len(walk)], q)
             /\ walk' = Append(walk, q)
        /\ UNCHANGED <<loops, st>>
Close == /\ Len(walk) >= 3
         /\ LeftOf(walk[2], walk[Len(walk)])  \* one of the two directions
         /\ Free(walk[Len(walk)], walk[1])
         /\ loops' = Append(loops, walk)
         /\ walk' = <<>>
         /\ UNCHANGED st
Steiner == /\ walk = <<>> /\ loops # <<>> /\ Len(st) < SMax /\ Points < NMax
           /\ \E q \in Places \ Used :
                /\ st # <<>> => LeftOf(st[Len(st)], q)
                /\ \A e \in Fixed : ~OnSegment(e[1], e[2], q)
                /\ st' = Append(st, q)
           /\ UNCHANGED <<walk, loops>>

Next == Start \/ Turn \/ Close \/ Steiner
Spec == Init /\ [][Next]_vars

RECURSIVE Flat(_)
Flat(qs) == IF qs = <<>> THEN <<>> ELSE Head(qs) \o Flat(Tail(qs))
RECURSIVE Offsets(_, _)
Offsets(qs, n) == IF qs = <<>> THEN <<>>
                  ELSE << [k \in 1..Len(Head(qs)) |-> n + k] >> \o Offsets(Tail(qs), n + Len(Head(qs)))
AsInput == [p |-> Flat(loops) \o st, l |-> Offsets(loops, 0)]

Complete == walk = <<>> /\ loops # <<>> /\ ValidInput(AsInput)
Emit == Complete => PrintT(ToString(<<0, loops[1], Tail(loops), st>>))
=============================================================================
