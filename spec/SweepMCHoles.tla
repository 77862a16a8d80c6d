---------------------------- MODULE SweepMCHoles ------------------------------
(***************************************************************************)
(* As SweepMC, for some inputs it does not have: with holes (one beside    *)
(* the polyline's rim, two of them, one with a Steiner point in it),       *)
(* concave polylines, rows and columns of points, and Steiner points       *)
(* outside and lower than the polyline.                                    *)
(***************************************************************************)
EXTENDS SweepMC

CONSTANT More   \* also those with many steps

L(a, b) == [k \in 1..(b - a + 1) |-> a + k - 1]
(* polyline, holes, Steiner points *)
Make(q, hs, st) ==
  LET RECURSIVE Loops(_, _)
      Loops(at, w) == IF w = <<>> THEN <<>> ELSE <<L(at, at + Len(Head(w)) - 1)>> \o Loops(at + Len(Head(w)), Tail(w))
      all == FlattenSeq(<<q>> \o hs) \o st
      xs == {all[k][1] : k \in 1..Len(all)}  ys == {all[k][2] : k \in 1..Len(all)}
      w == Max(xs) - Min(xs)  v == Max(ys) - Min(ys)
  IN [p |-> all, l |-> Loops(1, <<q>> \o hs),
      h |-> << <<Min(xs) - (3 * w) \div 10 - 1, Min(ys) - (3 * v) \div 10 - 1>>,
               <<Max(xs) + (3 * w) \div 10 + 1, Min(ys) - (3 * v) \div 10 - 1>> >>]

Square == << <<0, 0>>, <<60, 0>>, <<60, 60>>, <<0, 60>> >>
Kite == << <<0, 30>>, <<30, -1>>, <<61, 29>>, <<30, 70>> >>
Comb == << <<0, 0>>, <<60, 0>>, <<60, 50>>, <<40, 10>>, <<20, 45>> >>
Hole1 == << <<20, 20>>, <<40, 20>>, <<30, 40>> >>
Hole2 == << <<10, 10>>, <<10, 50>>, <<21, 30>> >>

Hole3 == << <<40, 20>>, <<50, 31>>, <<40, 40>> >>
Zigzag == << <<0, 0>>, <<30, 20>>, <<0, 40>>, <<50, 60>>, <<22, 41>>, <<60, 21>> >>
Sail == << <<0, 0>>, <<60, 60>>, <<0, 61>>, <<1, 30>> >>
Teeth == << <<0, 0>>, <<20, 60>>, <<30, 10>>, <<50, 70>>, <<60, 11>>, <<100, 80>>, <<99, -1>> >>
Star == << <<50, 100>>, <<40, 63>>, <<1, 64>>, <<31, 40>>, <<19, 1>>, <<50, 24>>, <<81, 2>>, <<69, 41>>, <<99, 65>>, <<60, 62>> >>
Spiral == << <<0, 0>>, <<70, -1>>, <<71, 60>>, <<10, 61>>, <<11, 20>>, <<50, 21>>, <<49, 40>>, <<30, 39>>, <<31, 31>>, <<40, 30>>,
             <<41, 28>>, <<20, 27>>, <<19, 50>>, <<60, 51>>, <<61, 10>>, <<1, 9>> >>
Turned(q) == [k \in 1..Len(q) |-> <<-q[k][1], -q[k][2]>>]

Some == {
  Make(Kite, <<Hole1>>, <<>>),
  Make(Square, <<Hole1>>, <<>>),
  Make(Kite, <<Hole1>>, <<<<30, 30>>>>),
  Make(Comb, <<>>, <<<<30, 60>>>>),
  Make(Comb, <<>>, <<<<30, -20>>, <<30, 5>>>>),
  Make(Square, <<>>, <<<<30, 30>>, <<-20, 30>>>>)
}
Others == {
  Make(Square, <<Hole2, Hole3>>, <<>>),
  Make(Square, <<Hole2>>, <<<<12, 30>>, <<50, 55>>>>),
  Make(Kite, <<Hole1>>, <<<<30, 30>>, <<31, 60>>>>),
  Make(Zigzag, <<>>, <<>>),
  Make(Zigzag, <<>>, <<<<35, 21>>>>),
  Make(Reverse(Zigzag), <<>>, <<<<5, -30>>, <<45, 80>>>>),
  Make(Sail, <<>>, <<<<20, 25>>, <<40, 46>>>>),
  Make(Teeth, <<>>, <<>>),
  Make(Teeth, <<>>, <<<<50, 3>>>>),
  Make(Turned(Teeth), <<>>, <<<<-50, -3>>>>),
  Make(Turned(Zigzag), <<>>, <<<<-35, -21>>, <<5, 30>>>>),
  Make(Turned(Comb), <<>>, <<<<-30, 5>>, <<-29, -2>>, <<-31, -60>>>>),
  Make(Star, <<>>, <<>>),
  Make(Star, << << <<45, 45>>, <<55, 46>>, <<50, 54>> >> >>, <<<<51, 48>>>>),
  Make(Spiral, <<>>, <<>>),
  Make(Spiral, <<>>, <<<<15, 5>>, <<45, 44>>>>),
  Make(Turned(Spiral), <<>>, <<<<-35, -30>>>>),
  Make(Square, <<Hole2, Hole3>>, <<<<30, 5>>, <<31, 52>>, <<46, 30>>>>)
}
Fixed == IF More THEN Others ELSE Some

InitHoles == /\ inp \in Fixed /\ s = InitState(inp) /\ before = {}
SpecHoles == InitHoles /\ [][Next]_vars
AllValid == \A J \in Fixed : ValidInput(J)
=============================================================================
