----------------------------- MODULE BuilderGen -------------------------------
(***************************************************************************)
(* Behaviours of BuilderApi to be replayed in the real library: TLC        *)
(* simulates this module, and prints the calls of each behaviour.          *)
(* Calls are written as sequences of integers:                             *)
(*   1 new  2 add_steiner_point  3 add_steiner_points  4 add_hole          *)
(*   5 add_holes  6 Builder::clone  7 build  8 CDT::clone  9 triangulate   *)
(*   10 next  11 triangle_list_indices  12 points  13 data                 *)
(*   15 nth  16 by_ref, take, collect  17 size_hint                        *)
(*   18 used up: 1 count  2 last  3 fold  4 collect  5 step_by(2)  6 skip(1)*)
(***************************************************************************)
EXTENDS BuilderApi, TLC

CONSTANTS Depth, Handles

VARIABLES calls, tag
vars == <<bs, cs, rs, calls, tag>>

(* polylines around the square (0,0) - (40,40), some with room outside *)
Polylines == {
  << <<0, 0>>, <<40, 0>>, <<40, 40>>, <<0, 40>> >>,
  << <<-3, 45>>, <<-9, -8>>, <<20, -3>>, <<47, -5>>, <<44, 21>>, <<52, 43>> >>,
  << <<20, 61>>, <<20, 43>>, <<-2, 41>>, <<-1, -1>>, <<41, 0>>, <<42, 42>>, <<21, 44>> >>,
  << <<90, 20>>, <<0, 70>>, <<-60, 20>>, <<0, -60>> >> }

(* the square is divided into 16 cells of 10 x 10; a hole lies in one *)
Corner(c) == <<10 * (c % 4), 10 * (c \div 4)>>
At(c, q) == [k \in 1..Len(q) |-> <<Corner(c)[1] + q[k][1], Corner(c)[2] + q[k][2]>>]
HoleShapes == {
  << <<2, 2>>, <<8, 3>>, <<4, 8>> >>,
  << <<2, 2>>, <<2, 8>>, <<8, 8>>, <<8, 2>> >>,
  << <<1, 5>>, <<5, 1>>, <<6, 4>>, <<9, 5>>, <<5, 9>> >> }
(* Steiner points: some in every cell, some in holes, some outside of polylines *)
Spots == { At(c, << <<x, y>> >>)[1] : c \in 0..15, x \in {1, 5}, y \in {3, 9} }
         \cup {<<60, 60>>, <<-20, 10>>, <<30, -30>>, <<100, 100>>, <<20, 47>>, <<-5, 20>>}

Tagged(q) == [k \in 1..Len(q) |-> <<q[k][1], q[k][2], tag + k>>]
Fits(I) == ValidInput(I)

Log(c, n) == calls' = Append(calls, c) /\ tag' = tag + n
Fresh(f) == {h \in Handles : h \notin DOMAIN f}

Init == /\ bs = [h \in {} |-> 0] /\ cs = [h \in {} |-> 0] /\ rs = [h \in {} |-> 0]
        /\ calls = <<>> /\ tag = 100

(* one element of a set that is not empty, at random *)
One(S) == IF S = {} THEN {} ELSE {RandomElement(S)}

GNew == \E n \in One(Fresh(bs)) : \E q \in One({Tagged(q) : q \in Polylines}) :
          NewB(n, q) /\ Log(<<1, n, q>>, Len(q))
GSteiner == \E h \in One(DOMAIN bs) : \E a \in One({<<z[1], z[2], tag + 1>> : z \in Spots}) :
          AddSteiner(h, a) /\ Fits(bs'[h]) /\ Log(<<2, h, a>>, 1)
GSteiners == \E h \in One(DOMAIN bs) : \E n \in One(0..4) : \E q \in {[k \in 1..n |-> RandomElement(Spots)]} :
          AddSteiners(h, Tagged(q)) /\ Fits(bs'[h]) /\ Log(<<3, h, Tagged(q)>>, n)
GHole == \E h \in One(DOMAIN bs) : \E c \in One(0..15) : \E q \in One(HoleShapes) :
          AddHole(h, Tagged(At(c, q))) /\ Fits(bs'[h]) /\ Log(<<4, h, Tagged(At(c, q))>>, Len(q))
GHoles == \E h \in One(DOMAIN bs) : \E c \in One(0..15) : \E d \in One(0..15) :
          \E q \in One(HoleShapes) : \E u \in One(HoleShapes) :
          LET x == Tagged(At(c, q))
              y == [k \in 1..Len(u) |-> <<At(d, u)[k][1], At(d, u)[k][2], tag + 50 + k>>]
              z == IF c = d THEN <<x>> ELSE IF c = 0 THEN <<>> ELSE <<x, y>> IN
          AddHoles(h, z) /\ Fits(bs'[h]) /\ Log(<<5, h, z>>, 100)
GCloneB == \E h \in One(DOMAIN bs) : \E n \in One(Fresh(bs)) : CloneB(h, n) /\ Log(<<6, h, n>>, 0)
GBuild == \E h \in One(DOMAIN bs) : \E n \in One(Fresh(cs)) : Build(h, n) /\ Log(<<7, h, n>>, 0)
GCloneC == \E h \in One(DOMAIN cs) : \E n \in One(Fresh(cs)) : CloneC(h, n) /\ Log(<<8, h, n>>, 0)
(* what triangulating gives is not known here *)
GRun == \E h \in One(DOMAIN cs) : \E n \in One(Fresh(rs)) : \E o \in One(0..1) : Run(h, n, <<>>) /\ Log(<<9, h, n, o>>, 0)
GNext == \E h \in One(DOMAIN rs) : \E k \in One(1..3) : NextT(h) /\ Log(<<10, h, k>>, 0)
GRead == \E h \in One(DOMAIN rs) : \E k \in One(11..13) : Read(h) /\ Log(<<k, h>>, 0)
GNth == \E h \in One(DOMAIN rs) : \E k \in One(0..5) : NthT(h, k) /\ Log(<<15, h, k>>, 0)
GTake == \E h \in One(DOMAIN rs) : \E k \in One(0..6) : TakeT(h, k) /\ Log(<<16, h, k>>, 0)
GHint == \E h \in One(DOMAIN rs) : Read(h) /\ Log(<<17, h>>, 0)
GConsume == \E h \in One(DOMAIN rs) : \E k \in One(1..6) : Consume(h) /\ Log(<<18, h, k>>, 0)

More == Len(calls) < Depth
Next == \/ More /\ GNew
        \/ More /\ GSteiner
        \/ More /\ GSteiners
        \/ More /\ GHole
        \/ More /\ GHoles
        \/ More /\ GCloneB
        \/ More /\ GBuild
        \/ More /\ GCloneC
        \/ More /\ GRun
        \/ More /\ GNext
        \/ More /\ GRead
        \/ More /\ GNth
        \/ More /\ GTake
        \/ More /\ GHint
        \/ More /\ GConsume
        \/ ~More /\ PrintT(ToString(calls)) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

(* every builder holds a valid input, loops and points in step *)
TypeOk == /\ \A h \in DOMAIN bs : ValidInput(bs[h]) /\ Len(bs[h].d) = Len(bs[h].p)
          /\ \A h \in DOMAIN cs : ValidInput(cs[h]) /\ Len(cs[h].d) = Len(cs[h].p)
=============================================================================
