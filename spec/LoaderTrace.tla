---------------------------- MODULE LoaderTrace -------------------------------
(***************************************************************************)
(* Recorded loads of real files against FileFormat.  One loader reads      *)
(* several files in a row; for each file:                                  *)
(*   k  : "file", or why it cannot be read: "missing", "folder", "text"    *)
(*        (not UTF-8)                                                      *)
(*   n  : its lines                                                        *)
(*   o  : "ok", "io", "inner" (the two kinds of error), or a panic         *)
(*   p, e : the points the builder held, and for each point the lower ends *)
(*        of the edges noted at it                                         *)
(*   to, t: outcome of triangulating it, and the triangles                 *)
(***************************************************************************)
EXTENDS FileFormat, Triangulation, TLC, Json, IOUtils

Batch == ndJsonDeserialize(IOEnv.BATCH)

VARIABLES tid, f, l, s, bad
vars == <<tid, f, l, s, bad>>

Files == Batch[tid].ld
Cur == Files[f]

Init == tid \in 1..Len(Batch) /\ f = 1 /\ l = 1 /\ s = Start /\ bad = {}

Read == /\ f <= Len(Files) /\ Cur.k = "file" /\ l <= Len(Cur.n)
        /\ s' = ReadLine(s, Cur.n[l]) /\ l' = l + 1 /\ UNCHANGED <<tid, f, bad>>

Fail(name, ok) == IF ok THEN {} ELSE {name}
SameSeq(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : SamePoint(a[k], b[k])

Held(J) ==
  /\ Cur.o = "ok"
  /\ SameSeq(Cur.p, J.p)
  /\ \A v \in 1..Len(J.p) :
       LET E == EdgesUp(J, v) IN
       /\ Len(Cur.e[v]) = Cardinality(E)
       /\ {Cur.e[v][k] : k \in 1..Len(Cur.e[v])} = {LowerEnd(J, x) : x \in E}

Solid(J) == \A k \in 1..Len(J.l) : Len(J.l[k]) > 2
TriangulatedOk(J) ==
  \* the large ones are valid as they are made
  IF Len(J.p) > 400
    THEN Cur.to = "ok" /\ OnlyInputPoints(J, Cur.t) /\ ConstraintsRespected(J, Cur.t)
    ELSE (Solid(J) /\ ValidInput(J)) =>
           /\ Cur.to = "ok"
           /\ OnlyInputPoints(J, Cur.t) /\ ConstraintsRespected(J, Cur.t) /\ VerticesExact(J, Cur.t)

End ==
  /\ f <= Len(Files) /\ (Cur.k # "file" \/ l > Len(Cur.n))
  /\ bad' = bad \cup
       (IF Cur.k # "file" THEN Fail("io", Cur.o = "io")
        ELSE IF s.error THEN Fail("error", Cur.o = "inner")
        ELSE LET J == Loaded(s) IN
               IF Takable(J) THEN (Fail("held", Held(J)) \cup Fail("tri", Held(J) => TriangulatedOk(J))) ELSE {})
  /\ f' = f + 1 /\ l' = 1 /\ s' = Start /\ UNCHANGED tid

Next == Read \/ End
Spec == Init /\ [][Next]_vars
C13 == bad = {}
(* what TLC prints of a state *)
Short == [tid |-> tid, f |-> f, l |-> l, bad |-> bad]
=============================================================================
