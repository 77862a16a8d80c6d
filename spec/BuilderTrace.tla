---------------------------- MODULE BuilderTrace ------------------------------
(***************************************************************************)
(* Recorded calls of the real public interface against BuilderApi.  Every  *)
(* event is a call c (numbers as in BuilderGen; 14 is "next" until long    *)
(* past the end) with what it returned, r.  For triangulate, r is what the *)
(* first triangle_list_indices of that result returns later on, and f what *)
(* a fresh builder gave that was handed the same points by the same calls, *)
(* without data, clones or an observer.                                    *)
(***************************************************************************)
EXTENDS BuilderApi, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.BATCH)

VARIABLES tid, l, got, bad
vars == <<bs, cs, rs, tid, l, got, bad>>
\* got: result handle -> what its iterator has yielded, for the comparison with f

Ev == Traces[tid].ev
E == Ev[l]
Fail(name, ok) == IF ok THEN {} ELSE {name}

Init ==
  /\ bs = [h \in {} |-> 0] /\ cs = [h \in {} |-> 0] /\ rs = [h \in {} |-> 0]
  /\ tid \in 1..Len(Traces)
  /\ l = 1 /\ got = [h \in {} |-> <<>>] /\ bad = {}

(* a value in, judged once when it is triangulated; the large inputs are of *)
(* the kind that BigResults shows to be valid                              *)
ValueOk(I, t) ==
  IF Len(I.p) > 400 THEN OnlyInputPoints(I, t) /\ ConstraintsRespected(I, t)
  ELSE ValidInput(I) => (OnlyInputPoints(I, t) /\ ConstraintsRespected(I, t) /\ VerticesExact(I, t))

SameSeq(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : SamePoint(a[k], b[k])

(* the iterator's answers to Len(q) calls: Yield, so many times *)
Yields(r, q) ==
  \A k \in 1..Len(q) :
    LET y == Yield(After(r, k - 1)) IN Len(y) = Len(q[k]) /\ SameSeq(y, q[k])

SameTriangles(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Len(a[k]) = Len(b[k]) /\ SameSeq(a[k], b[k])
(* what is promised about the number of triangles left *)
HintOk(r, lo, hi) == lo <= Rest(r) /\ (hi = -1 \/ Rest(r) <= hi)
ConsumedOk(r, how, q) ==
  CASE how = 1 -> q = <<Rest(r)>>
    [] how = 2 -> SameTriangles(IF YieldLast(r) = <<>> THEN <<>> ELSE <<YieldLast(r)>>, q)
    [] how \in {3, 4} -> SameTriangles(YieldAll(r), q)
    [] how = 5 -> SameTriangles(YieldSecond(r), q)
    [] OTHER -> SameTriangles(YieldTail(r), q)

(* zero has two signs.  A zero is handed over as the negative one if the    *)
(* other coordinate is 1 more than a multiple of 3; 1: x, 2: y, 3: both    *)
ZeroSigns(a) == (IF a[1] = 0 /\ a[2] % 3 = 1 THEN 1 ELSE 0) + (IF a[2] = 0 /\ a[1] % 3 = 1 THEN 2 ELSE 0)
SignsKept(z, p) == Len(z) = Len(p) /\ \A k \in 1..Len(p) : z[k] = ZeroSigns(p[k])

NonEmpty(q) == SelectSeq(q, LAMBDA x : x # <<>>)

Triples(t) == \A j \in 1..Len(t) : Len(t[j]) = 3

(* what the fresh builder gave for the input of result handle h *)
F(h) == LET k == CHOOSE k \in 1..l : /\ Ev[k].c[1] = 9 /\ Ev[k].c[3] = h
                                     /\ \A m \in (k + 1)..l : ~(Ev[m].c[1] = 9 /\ Ev[m].c[3] = h)
        IN Ev[k].f
Coordinates(I, t) == [j \in 1..Len(t) |-> [k \in 1..3 |-> I.p[t[j][k]]]]
(* what nth passes over is not seen, and taken to be what it should be *)
Passed(h, n) == LET q == Coordinates(rs[h].in, F(h))  g == Len(got[h]) IN
                SubSeq(q, g + 1, IF g + n < Len(q) THEN g + n ELSE Len(q))

Step ==
  /\ l <= Len(Ev) /\ bad \cap {"died", "shape"} = {}
  /\ LET e == E  c == e.c IN
     \/ /\ e.o # "ok"
        /\ bad' = bad \cup {"died"} /\ UNCHANGED <<bs, cs, rs, got>>
     \/ /\ e.o = "ok"
        /\ CASE c[1] = 1 -> NewB(c[2], c[3])
             [] c[1] = 2 -> AddSteiner(c[2], c[3])
             [] c[1] = 3 -> AddSteiners(c[2], c[3])
             [] c[1] = 4 -> AddHole(c[2], c[3])
             [] c[1] = 5 -> AddHoles(c[2], c[3])
             [] c[1] = 6 -> CloneB(c[2], c[3])
             [] c[1] = 7 -> Build(c[2], c[3])
             [] c[1] = 8 -> CloneC(c[2], c[3])
             [] c[1] = 9 -> Run(c[2], c[3], e.r)
             [] c[1] \in {10, 14} ->
                  rs' = With(rs, c[2], After(rs[c[2]], Len(e.r)))
                  /\ UNCHANGED <<bs, cs>>
             [] c[1] \in {11, 12, 13, 17} -> Read(c[2])
             [] c[1] = 15 -> NthT(c[2], c[3])
             [] c[1] = 16 -> TakeT(c[2], c[3])
             [] c[1] = 18 -> Consume(c[2])
        /\ got' = CASE c[1] = 9 -> With(got, c[3], <<>>)
                    [] c[1] \in {10, 14, 16} -> With(got, c[2], got[c[2]] \o NonEmpty(e.r))
                    [] c[1] = 15 -> With(got, c[2], got[c[2]] \o Passed(c[2], c[3]) \o NonEmpty(e.r))
                    [] OTHER -> got
        /\ bad' = bad \cup
             CASE c[1] = 9 -> LET I == cs[c[2]] IN
                    IF Triples(e.f) /\ Triples(e.r) /\ OnlyInputPoints(I, e.f) /\ OnlyInputPoints(I, e.r)
                    THEN Fail("value", ValueOk(I, e.f)) ELSE {"shape"}
               [] c[1] \in {10, 14} -> Fail("next", Yields(rs[c[2]], e.r))
                     \cup Fail("same", c[1] # 14 \/ rs[c[2]].t = F(c[2]) \/ got'[c[2]] = Coordinates(rs[c[2]].in, F(c[2])))
               [] c[1] = 11 -> Fail("next", e.r = IndicesOf(rs[c[2]]))
               [] c[1] = 15 -> Fail("next", SameTriangles(<<YieldNth(rs[c[2]], c[3])>>, e.r))
               [] c[1] = 16 -> Fail("next", SameTriangles(YieldTake(rs[c[2]], c[3]), e.r))
               [] c[1] = 17 -> Fail("next", HintOk(rs[c[2]], e.r[1], e.r[2]))
               [] c[1] = 18 -> Fail("next", ConsumedOk(rs[c[2]], c[3], e.r))
               [] c[1] = 12 -> Fail("points", SameSeq(e.r, PointsOf(rs[c[2]])) /\ SignsKept(e.z, PointsOf(rs[c[2]])))
               [] c[1] = 13 -> Fail("data", e.r = DataOfR(rs[c[2]]))
               [] OTHER -> {}
  /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Step]_vars

C05 == bad \cap {"next", "shape"} = {}
C15 == bad \cap {"same", "died"} = {}
C16 == bad \cap {"points", "data", "value", "shape"} = {}
All == bad = {}
(* what TLC prints of a state *)
Short == [tid |-> tid, l |-> l, bad |-> bad,
          event |-> IF l > 1 THEN [c |-> Ev[l - 1].c[1], o |-> Ev[l - 1].o] ELSE [c |-> 0, o |-> ""]]
=============================================================================
