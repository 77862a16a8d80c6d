------------------------------ MODULE BigDomain -------------------------------
(***************************************************************************)
(* Records of calls, R being one of them; and the validity of inputs with   *)
(* tens of thousands of points.  Domain's ValidInput                        *)
(* compares all pairs of edges; here the inputs have a shape whose validity *)
(* follows from conditions that take linear time:                           *)
(*   lo, up : two chains from the same first to the same last point, both   *)
(*     strictly increasing in x; the first and last point on the axis y = 0,*)
(*     the others of lo at or below -Band, those of up at or above Band.    *)
(*     So they meet in their ends only, and together are a simple polygon.  *)
(*   the holes are rectangles, one after the other in x, within the band    *)
(*     and between the second and the last but one point of both chains,    *)
(*     where the chains stay out of the band: inside, and disjoint.         *)
(*   wit : for every Steiner point the edges of lo and up that are above or *)
(*     below it (0 if there are none) and how many holes begin left of it.  *)
(* With s = 1 the roles of x and y are exchanged.                           *)
(***************************************************************************)
EXTENDS Triangulation, TLC, Json, IOUtils

Batch == ndJsonDeserialize(IOEnv.BATCH)

VARIABLES i
Init == i \in 1..Len(Batch)
Next == FALSE /\ UNCHANGED i
Spec == Init /\ [][Next]_i

R == Batch[i]
Band == 8

At(k) == IF R.s = 1 THEN <<R.p[k][2], R.p[k][1]>> ELSE R.p[k]
Axis == <<0, 0>>
High == <<0, Band>>
Low == <<0, -Band>>

ChainOk(c, lower) ==
  /\ Len(c) >= 3
  /\ \A k \in 1..(Len(c) - 1) : CmpX(At(c[k]), At(c[k + 1])) < 0
  /\ \A k \in {1, Len(c)} : CmpY(At(c[k]), Axis) = 0
  /\ \A k \in 2..(Len(c) - 1) : IF lower THEN CmpY(At(c[k]), Low) <= 0 ELSE CmpY(At(c[k]), High) >= 0

PolylineOk ==
  LET n == Len(R.lo)  m == Len(R.up)  L == R.l[1] IN
  /\ ChainOk(R.lo, TRUE) /\ ChainOk(R.up, FALSE)
  /\ R.lo[1] = R.up[1] /\ R.lo[n] = R.up[m]
  /\ Len(L) = n + m - 2
  /\ \A k \in 1..n : L[k] = R.lo[k]
  /\ \A k \in 1..(m - 2) : L[n + k] = R.up[m - k]

Holes == Len(R.l) - 1
HL(g) == At(R.l[g + 1][1])   \* lower left corner of hole g
HR(g) == At(R.l[g + 1][3])   \* upper right corner
HoleOk(g) ==
  LET h == R.l[g + 1] IN
  /\ Len(h) = 4
  /\ CmpX(HL(g), HR(g)) < 0 /\ CmpY(HL(g), HR(g)) < 0
  /\ CmpX(At(h[2]), HR(g)) = 0 /\ CmpY(At(h[2]), HL(g)) = 0
  /\ CmpX(At(h[4]), HL(g)) = 0 /\ CmpY(At(h[4]), HR(g)) = 0
  /\ CmpY(HL(g), Low) > 0 /\ CmpY(HR(g), High) < 0
  /\ IF g = 1 THEN CmpX(At(R.lo[2]), HL(g)) < 0 /\ CmpX(At(R.up[2]), HL(g)) < 0 ELSE CmpX(HR(g - 1), HL(g)) < 0
  /\ g = Holes => (CmpX(HR(g), At(R.lo[Len(R.lo) - 1])) < 0 /\ CmpX(HR(g), At(R.up[Len(R.up) - 1])) < 0)

(* Steiner points come last *)
Loops == Len(R.p) - Len(R.wit)
Sides(j) ==
  LET q == At(Loops + j)  w == R.wit[j] IN
  <<Orient(At(R.lo[w[1]]), At(R.lo[w[1] + 1]), q), Orient(At(R.up[w[2]]), At(R.up[w[2] + 1]), q)>>
Above(c, k, q) == CmpX(At(c[k]), q) <= 0 /\ CmpX(q, At(c[k + 1])) < 0

SteinerOk(j) ==
  LET q == At(Loops + j)  w == R.wit[j] IN
  /\ IF w[1] = 0 THEN CmpX(q, At(R.lo[1])) < 0 \/ CmpX(At(R.lo[Len(R.lo)]), q) <= 0
     ELSE Above(R.lo, w[1], q) /\ Above(R.up, w[2], q) /\ Sides(j)[1] # 0 /\ Sides(j)[2] # 0
  /\ w[3] > 0 => CmpX(HL(w[3]), q) <= 0
  /\ w[3] < Holes => CmpX(q, HL(w[3] + 1)) < 0
  /\ w[3] > 0 =>  \* not on the rectangle
       LET a == HL(w[3])  b == HR(w[3]) IN
       \/ CmpX(b, q) < 0 \/ CmpY(q, a) < 0 \/ CmpY(b, q) < 0
       \/ (CmpX(a, q) < 0 /\ CmpX(q, b) < 0 /\ CmpY(a, q) < 0 /\ CmpY(q, b) < 0)

SteinerInside(j) ==
  LET q == At(Loops + j)  w == R.wit[j] IN
  /\ w[1] # 0
  /\ Sides(j)[1] > 0 /\ Sides(j)[2] < 0
  /\ w[3] > 0 => ~(CmpX(q, HR(w[3])) < 0 /\ CmpY(HL(w[3]), q) < 0 /\ CmpY(q, HR(w[3])) < 0)

LoopIds == {R.l[1][n] : n \in 1..Len(R.l[1])} \cup {R.l[k][n] : k \in 2..Len(R.l), n \in 1..4}
BigValid ==
  /\ PolylineOk
  /\ \A g \in 1..Holes : HoleOk(g)
  /\ LoopIds = 1..Loops
  /\ \A j \in 1..Len(R.wit) : SteinerOk(j)
  /\ Cardinality({R.p[k] : k \in 1..Len(R.p)}) = Len(R.p)

BigBoundary ==
  LET Polyline == LoopEdges(R.l[1])
      OfHoles == {<<R.l[k][n], R.l[k][1 + (n % 4)]>> : k \in 2..Len(R.l), n \in 1..4}
  IN IF R.s = 0 THEN Polyline \cup {Rev(e) : e \in OfHoles} ELSE {Rev(e) : e \in Polyline} \cup OfHoles
BigInRegion == (1..Loops) \cup {Loops + j : j \in {x \in 1..Len(R.wit) : SteinerInside(x)}}
=============================================================================
