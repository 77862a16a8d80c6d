----------------------------- MODULE SweepTrace ------------------------------
(***************************************************************************)
(* Trace validation: recorded executions of the real sweep against Sweep.  *)
(*                                                                         *)
(* A trace is what an observer can see: for every callback, the change of  *)
(* the triangle store and of the advancing front since the previous one.   *)
(* The machine below replays a trace.  At each event it                    *)
(*  - updates tri and fr, the concrete state, from the log;                *)
(*  - takes the step of Sweep that the event stands for, checks its guard, *)
(*    and compares the abstract state it leads to with the concrete one;   *)
(*  - evaluates the invariants of the concrete state.                      *)
(* Whatever fails is put in bad, as the name of the obligation; the        *)
(* invariants at the end say which obligations each property consists of.  *)
(* A step that is none of Sweep's is not the end of the trace: from there  *)
(* on the abstract state is taken from the concrete one (Adopt), and only  *)
(* obligations that do not depend on the steps are judged, so that a       *)
(* defect shows in the properties it breaks and in no others.              *)
(* Many traces are validated in one run: tid selects one.                  *)
(***************************************************************************)
EXTENDS Sweep, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.BATCH)

VARIABLES
  tid,  \* which trace
  l,    \* next event
  s,    \* state of Sweep
  tri,  \* concrete triangle store: sequence of <<p1, p2, p3, n1, n2, n3, c, d>>;
        \* c: which sides are constraints, +8 for an interior triangle; d: which sides are known to be Delaunay
  fr,   \* concrete front: sequence of <<point, triangle>>
  rot,  \* triangle pair announced by the last rotation callback, or <<>>
  leg,  \* inside a legalization: <<its triangle, the triangles it has reached>>, otherwise <<>>
  sync, \* s still follows the trace: no step failed so far
  bad   \* failed obligations
vars == <<tid, l, s, tri, fr, rot, leg, sync, bad>>

I == Traces[tid]
Ev == Traces[tid].ev
Event == Ev[l]

----------------------------------------------------------------------------
(* The concrete state *)

Bit(m, k) == (m \div (IF k = 1 THEN 1 ELSE IF k = 2 THEN 2 ELSE 4)) % 2 = 1

(* apply a list of changes <<id, p1, p2, p3, n1, n2, n3, c, d>> *)
ApplyChanges(t, ch) ==
  LET n == IF ch = <<>> THEN Len(t)
           ELSE IF ch[Len(ch)][1] > Len(t) THEN ch[Len(ch)][1] ELSE Len(t)
      ix == {ch[j][1] : j \in 1..Len(ch)}
      row(k) == LET j == CHOOSE j \in 1..Len(ch) : ch[j][1] = k IN SubSeq(ch[j], 2, 9)
  IN [k \in 1..n |-> IF k \in ix THEN row(k) ELSE t[k]]

PtsOf(row) == <<row[1], row[2], row[3]>>
MeshOf(t) == {Canon(PtsOf(t[k])) : k \in 1..Len(t)}
FrontOf(f) == [k \in 1..Len(f) |-> f[k][1]]

(* side k is opposite to corner k *)
SideOf(row, k) == IF k = 1 THEN <<row[2], row[3]>> ELSE IF k = 2 THEN <<row[3], row[1]>> ELSE <<row[1], row[2]>>

ConsOf(t) == {Undirected(SideOf(t[x[1]], x[2])) :
                x \in {y \in (1..Len(t)) \X (1..3) : Bit(t[y[1]][7], y[2])}}

(* Neighbours: mutual, across the same edge, none exactly at the rim;      *)
(* constraint marks agree on both sides.                                   *)
WellLinked(t) ==
  \A a \in 1..Len(t) : \A k \in 1..3 :
    LET b == t[a][3 + k] IN
    b # 0 => /\ b \in 1..Len(t)
             /\ b # a
             /\ \E m \in 1..3 : /\ t[b][3 + m] = a
                                /\ SideOf(t[b], m) = Rev(SideOf(t[a], k))
RimUnlinked(t, M) ==
  LET E == DirectedEdges(M) IN
  \A a \in 1..Len(t) : \A k \in 1..3 :
    (t[a][3 + k] = 0) = (Rev(SideOf(t[a], k)) \notin E)
MarksAgree(t) ==
  \A a \in 1..Len(t) : \A k \in 1..3 :
    LET b == t[a][3 + k] IN
    (b # 0 /\ b \in 1..Len(t)) =>
       \A m \in 1..3 : SideOf(t[b], m) = Rev(SideOf(t[a], k)) => (Bit(t[a][7], k) = Bit(t[b][7], m))
(* an edge marked as known to be Delaunay is *)
DelaunayMarksTrue(t) ==
  \A a \in 1..Len(t) : \A k \in 1..3 :
    LET b == t[a][3 + k] IN
    (Bit(t[a][8], k) /\ b # 0 /\ b \in 1..Len(t)) =>
       LET d == ApexOf(PtsOf(t[b]), SideOf(t[a], k)) IN
       InCircle(Pt(I, t[a][1]), Pt(I, t[a][2]), Pt(I, t[a][3]), Pt(I, d)) <= 0

(* the triangle noted at a front node is the one below its front edge *)
FrontTriangles(t, f) ==
  \A k \in 1..(Len(f) - 1) :
       /\ f[k][2] \in 1..Len(t)
       /\ <<f[k + 1][1], f[k][1]>> \in TriEdges(PtsOf(t[f[k][2]]))

(* nothing but points and triangles that exist *)
WellFormed(t, f) ==
  LET N == Len(I.p) + 2 IN
  /\ \A a \in 1..Len(t) : /\ \A k \in 1..3 : t[a][k] \in 1..N /\ t[a][3 + k] \in 0..Len(t)
                           /\ Cardinality(TriPoints(PtsOf(t[a]))) = 3
  /\ Len(f) >= 3
  /\ \A k \in 1..Len(f) : f[k][1] \in 1..N /\ f[k][2] \in (-1)..Len(t)

(* look-ups: q = <<position, node at or left of it, next, previous, node at it>> *)
NodeAt(F, k) == IF k \in 1..Len(F) THEN F[k] ELSE 0
LookupOk(F, q) ==
  LET k == Cardinality({j \in 1..Len(F) : ~LeftOf(q[1], Pt(I, F[j]))}) IN
  /\ q[2] = NodeAt(F, k)
  /\ q[3] = (IF k = 0 THEN 0 ELSE NodeAt(F, k + 1))
  /\ q[4] = NodeAt(F, k - 1)
  /\ q[5] = (IF k > 0 /\ SamePoint(q[1], Pt(I, F[k])) THEN F[k] ELSE 0)

Fail(name, ok) == IF ok THEN {} ELSE {name}

(* A trace may also show, at each event, what the library answers to other *)
(* questions of an observer; I.ob says to which ones.                      *)

(* 19: its own list of the triangles that are not Delaunay *)
IllegalPairs(t) ==
  {<<a, t[a][3 + k]>> :
     <<a, k>> \in {x \in (1..Len(t)) \X (1..3) :
       LET row == t[x[1]]  b == row[3 + x[2]]  e == SideOf(row, x[2]) IN
       /\ b # 0
       /\ \E m \in 1..3 : SideOf(t[b], m) = Rev(e) /\ ~Bit(t[b][7], m)
       /\ InCircle(Pt(I, row[1]), Pt(I, row[2]), Pt(I, row[3]), Pt(I, ApexOf(PtsOf(t[b]), Rev(e)))) > 0}}
BuiltinOk(t, x) ==
  /\ {x.i[j] : j \in 1..Len(x.i)} = IllegalPairs(t)
  /\ Len(x.i) = Cardinality(IllegalPairs(t))
  /\ x.v = (x.i = <<>>)

(* 20: a handle <<point, the handle's point, node, next, previous>> of a   *)
(* node seen earlier, and the nodes by number <<k, node, next, previous,   *)
(* position>>.  A node that is gone still has a next and a previous one.   *)
HandleOk(F, h) ==
  LET left == Cardinality({j \in 1..Len(F) : LeftOf(Pt(I, F[j]), Pt(I, h[1]))})
      here == \E j \in 1..Len(F) : F[j] = h[1] IN
  /\ h[2] = h[1]
  /\ h[3] = (IF here THEN h[1] ELSE 0)
  /\ h[4] = NodeAt(F, left + (IF here THEN 2 ELSE 1))
  /\ h[5] = NodeAt(F, left)
NumberOk(F, n) ==
  /\ n[2] = NodeAt(F, n[1])
  /\ n[2] # 0 => /\ n[3] = NodeAt(F, n[1] + 1)
                 /\ n[4] = NodeAt(F, n[1] - 1)
                 /\ SamePoint(n[5], Pt(I, n[2]))
NodesOk(F, x) == /\ \A j \in 1..Len(x.h) : HandleOk(F, x.h[j])
                 /\ \A j \in 1..Len(x.n) : NumberOk(F, x.n[j])

(* 22: <<triangle, corner, its index, next corner, previous corner,        *)
(* neighbours opposite, counter clockwise and clockwise of it, whether the *)
(* side clockwise of it is a constraint>> (of a pair: see PairOk)          *)
Index(row, p) == CHOOSE k \in 1..3 : row[k] = p
After(k) == (k % 3) + 1
Before(k) == ((k + 1) % 3) + 1
CornerOk(t, c) ==
  LET row == t[c[1]]  k == Index(row, c[2]) IN
  /\ c[3] = k
  /\ c[4] = row[After(k)] /\ c[5] = row[Before(k)]
  /\ c[6] = row[3 + k]
  /\ c[7] = row[3 + Before(k)] /\ c[8] = row[3 + After(k)]
  /\ (c[9] = 1) = Bit(row[7], After(k))
(* <<triangle, other, index of their common edge in the one and the other,*)
(* corner of the other opposite to it, the index by the edge's end points, *)
(* and by the other triangle (0: not asked)>>                              *)
PairOk(t, c) ==
  LET a == t[c[1]]  b == t[c[2]]
      m == {x \in (1..3) \X (1..3) : SideOf(a, x[1]) = Rev(SideOf(b, x[2]))} IN
  IF m = {} THEN c[3] = 0
  ELSE \E x \in m : /\ <<c[3], c[4]>> = x
                    /\ c[5] = b[x[2]]
                    /\ c[6] = x[1]
                    /\ c[7] = IF a[3 + x[1]] = c[2] THEN CHOOSE k \in 1..3 : a[3 + k] = c[2] /\ \A j \in 1..(k - 1) : a[3 + j] # c[2] ELSE 0
(* <<triangle, two points, the side they are the ends of, the corner the   *)
(* second one is>>, 0 for none                                             *)
SideOk(t, c) ==
  LET row == t[c[1]]
      m == {k \in 1..3 : {row[After(k)], row[Before(k)]} = {c[2], c[3]}}
      n == {k \in 1..3 : row[k] = c[3]} IN
  /\ c[4] = (IF m = {} THEN 0 ELSE CHOOSE k \in m : TRUE)
  /\ c[5] = (IF n = {} THEN 0 ELSE CHOOSE k \in n : TRUE)
QueriesOk(t, x) == /\ ~x.o
                   /\ \A j \in 1..Len(x.c) : SideOk(t, x.c[j])
                   /\ \A j \in 1..Len(x.t) : CornerOk(t, x.t[j])
                   /\ \A j \in 1..Len(x.e) : PairOk(t, x.e[j])

ExtraChecks(x, t, F) ==
  CASE I.ob = 19 -> Fail("builtin", BuiltinOk(t, x))
    [] I.ob = 20 -> Fail("handle", NodesOk(F, x))
    [] I.ob = 22 -> Fail("query", QueriesOk(t, x))
    [] OTHER -> {}

----------------------------------------------------------------------------
(* Which step of Sweep an event stands for.  Result: <<next s, obligations  *)
(* that failed>>.  M, F: the concrete mesh and front after the event.       *)

(* a pending rotation is carried out: the flip of the common edge *)
Settle(st, M) ==
  IF rot = <<>> THEN <<st, {}>>
  ELSE LET common == TriEdges(rot[1]) \cap {Rev(e) : e \in TriEdges(rot[2])}
       IN IF common = {} THEN <<st, {"step"}>>
          ELSE LET e == CHOOSE e \in common : TRUE IN
               IF CanFlip(I, st, e[1], e[2])
               THEN <<DoFlip(I, st, e[1], e[2]), {}>>
               ELSE <<st, {"step"}>>

(* the edge whose event is in progress at l; a part of a trace (SweepPart) *)
(* says what comes next                                                    *)
EdgeInProgress ==
  LET m == {j \in l..Len(Ev) : Ev[j].e \in {"edge", "enter", "done"}} IN
  IF m = {} THEN IF "nx" \in DOMAIN I /\ I.nx[2] = s.cur THEN I.nx[1] ELSE 0
  ELSE LET j == CHOOSE j \in m : \A k \in m : j <= k IN
       IF Ev[j].e = "edge" /\ Ev[j].b = s.cur THEN Ev[j].a ELSE 0

(* a node is missing from the front: a fill *)
FillAt(st, F) ==
  LET m == {k \in 2..(Len(st.front) - 1) :
              F = SubSeq(st.front, 1, k - 1) \o SubSeq(st.front, k + 1, Len(st.front))}
  IN IF m = {} THEN 0 ELSE CHOOSE k \in m : TRUE

WillStep(st, M, F) ==
  IF st.pc = "insert"
  THEN <<DoInsert(I, st), {}>>
  ELSE LET begin == st.pc = "edges"
           low == IF begin THEN EdgeInProgress ELSE st.low
           st1 == IF begin /\ CanBeginEdge(I, st, low) THEN DoBeginEdge(I, st, low) ELSE st
           k == FillAt(st1, F)
       IN IF begin /\ ~CanBeginEdge(I, st, low) THEN <<st, {"order"}>>
          ELSE IF k # 0
               THEN IF CanFill(I, st1, k) THEN <<DoFill(I, st1, k), {}>> ELSE <<st1, {"step"}>>
               ELSE IF st1.pc = "edge"
                    THEN IF CanForce(I, st1, M) THEN <<DoForce(I, st1, M), {}>> ELSE <<st1, {"step"}>>
                    ELSE <<st1, Fail("step", st1.pc = "forced")>>

(* the triangle to be legalized: the new one, if there is one *)
WillNamed(a, t, st, new) ==
  /\ a \in 1..Len(t)
  /\ Cardinality(new.mesh) > Cardinality(st.mesh) => Canon(PtsOf(t[a])) \in new.mesh \ st.mesh

EdgeStep(st, M, v, w) ==
  LET begin == st.pc = "edges"
      st1 == IF begin /\ w = st.cur /\ CanBeginEdge(I, st, v) THEN DoBeginEdge(I, st, v) ELSE st
      st2 == IF st1.pc = "edge" /\ CanForce(I, st1, M) THEN DoForce(I, st1, M) ELSE st1
  IN IF begin /\ ~(w = st.cur /\ CanBeginEdge(I, st, v)) THEN <<st, {"order"}>>
     ELSE IF st1.low # v \/ st1.cur # w THEN <<st, {"order"}>>
     ELSE IF st2.pc # "forced" THEN <<st1, {"step"}>>
     ELSE IF ~CanEndEdge(I, st2) THEN <<DoEndEdge(I, st2), {"legal"}>>
     ELSE <<DoEndEdge(I, st2), {}>>

StepFor(e, t, M, F) ==
  LET u == Settle(s, M)  st == u[1] IN
  CASE e.e = "enter" ->
         IF CanEnter(I, st, e.a) THEN <<DoEnter(I, st, e.a), u[2] \cup Fail("proto", leg = <<>> /\ rot = <<>>)>>
         ELSE <<st, u[2] \cup {"order"}>>
    [] e.e = "will" ->
         LET v == WillStep(st, M, F) IN
         <<v[1], u[2] \cup v[2] \cup Fail("proto", leg = <<>> /\ rot = <<>> /\ WillNamed(e.a, t, st, v[1]))>>
    [] e.e \in {"rotate", "step"} -> <<st, u[2] \cup Fail("proto", leg # <<>> /\ e.a \in leg[2])>>
    [] e.e = "legal" -> <<st, u[2] \cup Fail("proto", leg # <<>> /\ e.a = leg[1])>>
    [] e.e = "exit" ->
         IF st.pc # "point" \/ e.a # st.cur THEN <<st, u[2] \cup {"order"}>>
         ELSE <<DoExit(I, st), u[2] \cup Fail("legal", Legal(I, st.mesh, st.cons))
                                    \cup Fail("monotone", FrontMonotone(I, st.front))
                                    \cup Fail("proto", leg = <<>>)>>
    [] e.e = "edge" ->
         LET v == EdgeStep(st, M, e.a, e.b) IN <<v[1], u[2] \cup v[2] \cup Fail("proto", leg = <<>>)>>
    [] e.e = "done" ->
         IF CanSweepDone(I, st) THEN <<DoSweepDone(I, st), u[2] \cup Fail("proto", leg = <<>>)>>
         ELSE <<st, u[2] \cup {"order"}>>
    [] e.e = "final" -> <<st, u[2] \cup Fail("proto", st.pc = "swept")>>
    [] OTHER -> <<st, {"proto"}>>

(* events after which the concrete state is looked at closely *)
Quiet(e) == e.e \in {"exit", "edge", "done", "final", "legal"}

(* marked as interior: none before the end, then the result *)
InteriorMarked(t) == {k \in 1..Len(t) : t[k][7] >= 8}

(* obligations of the concrete state alone *)
StateChecks(e, t, f, M, F) ==
  UNION {
    IF e.e # "rotate" THEN Fail("link", WellLinked(t)) ELSE {},
    IF Quiet(e) THEN Fail("rim", RimUnlinked(t, M)) ELSE {},
    IF Quiet(e) THEN Fail("marks", MarksAgree(t)) ELSE {},
    IF Quiet(e) THEN Fail("dmarks", DelaunayMarksTrue(t)) ELSE {},
    IF Quiet(e) THEN Fail("tiles", Cardinality(M) = Len(t) /\ MeshTiles(I, M, F)) ELSE {},
    IF Quiet(e) THEN Fail("fronttri", FrontTriangles(t, f)) ELSE {},
    Fail("final", e.e = "final" \/ InteriorMarked(t) = {}),
    Fail("front", FrontEnds(I, F) /\ FrontSorted(I, F)),
    Fail("lookup", (FrontEnds(I, F) /\ FrontSorted(I, F)) => \A j \in 1..Len(e.q) : LookupOk(F, e.q[j])),
    ExtraChecks(e.x, t, F)
  }

(* ... and of how it relates to the abstract one *)
Checks(e, t, f, M, F, st) ==
  UNION {
    \* the abstract step leads to the observed state
    Fail("step", st.mesh = M /\ Cardinality(M) = Len(t)),
    Fail("front", st.front = F),
    IF e.e \in {"exit", "edge", "done", "final", "will"} THEN Fail("cons", st.cons = ConsOf(t)) ELSE {},
    IF e.e \in {"exit", "edge"} THEN Fail("front", FrontReached(I, st) /\ BelowFront(I, st)) ELSE {},
    IF e.e \in {"exit", "edge"} THEN Fail("used", AllReachedUsed(I, st)) ELSE {},
    IF e.e \in {"exit", "edge"} THEN Fail("cons", ConstraintsStay(I, st) /\ ConstraintsSoFar(I, st)) ELSE {},
    StateChecks(e, t, f, M, F)
  }

----------------------------------------------------------------------------
(* When a step failed: go on with what the trace shows. *)
Adopt(st, e, M, F) ==
  LET at == [st EXCEPT !.mesh = M, !.front = F] IN
  CASE e.e = "enter" -> [at EXCEPT !.pc = "insert", !.cur = e.a, !.todo = {}, !.low = 0]
    [] e.e = "exit"  -> [at EXCEPT !.pc = "edges", !.cur = e.a, !.left = st.left \ {e.a},
                                   !.todo = IF e.a \in Ids(I) THEN LowerEnds(I, e.a) ELSE {}, !.low = 0]
    [] e.e = "edge"  -> [at EXCEPT !.pc = "edges", !.todo = st.todo \ {e.a}, !.low = 0,
                                   !.cons = st.cons \cup {{e.a, e.b}}]
    [] e.e = "done"  -> [at EXCEPT !.pc = "swept", !.cons = st.cons \cup ConsOf(tri)]
    [] OTHER -> at

(* what can still be said: the order of events, the state, the legality *)
Lost(st, e, t, f, M, F, ad) ==
  UNION {
    StateChecks(e, t, f, M, F),
    IF e.e = "enter" THEN Fail("order", e.a \in st.left /\ st.todo = {} /\ \A j \in st.left : j = e.a \/ Below(I.p[e.a], I.p[j])) ELSE {},
    IF e.e = "exit" THEN Fail("order", e.a = st.cur) ELSE {},
    IF e.e = "edge" THEN Fail("order", e.b = st.cur /\ e.a \in st.todo) ELSE {},
    IF e.e = "done" THEN Fail("order", st.left = {} /\ st.todo = {}) ELSE {},
    IF e.e \in {"exit", "edge"} THEN Fail("used", AllReachedUsed(I, ad)) ELSE {},
    IF e.e = "exit" THEN Fail("monotone", FrontMonotone(I, F)) ELSE {},
    IF e.e \in {"exit", "edge"} THEN Fail("legal", Legal(I, M, ad.cons)) ELSE {},
    IF e.e \in {"exit", "edge", "done"} THEN Fail("cons", \A c \in ad.cons : \E x \in M : c \subseteq TriPoints(x)) ELSE {}
  }

(* the last event: the result *)
FinalChecks(t, st) ==
  LET ids == {I.r[j] : j \in 1..Len(I.r)}
      res == {Canon(PtsOf(t[j])) : j \in ids} IN
  IF ~(ids \subseteq 1..Len(t)) THEN {"final"}
  ELSE Fail("final", ids = InteriorMarked(t))
       \cup Fail("final", res = Interior(I, [st EXCEPT !.mesh = MeshOf(t)]))
       \cup Fail("final", Len(I.t) = Len(I.r) /\ \A j \in 1..Len(I.t) : I.t[j] = PtsOf(t[I.r[j]]))

TraceInit ==
  /\ tid \in 1..Len(Traces)
  /\ l = 1
  /\ s = [pc |-> "init"]
  /\ tri = <<>> /\ fr = <<>> /\ rot = <<>> /\ leg = <<>> /\ sync = TRUE
  /\ bad = {}

(* the first event shows the initial state *)
First ==
  /\ l = 1 /\ bad = {} /\ Len(Ev) > 0
  /\ LET t == ApplyChanges(<<>>, Event.c)
         f == Event.f
         st0 == InitState(I)
         M == MeshOf(t)
         ok == WellFormed(t, f) /\ Len(I.h) = 2 /\ st0.mesh = M /\ st0.front = FrontOf(f) /\ Len(t) = 1 /\ Event.e = "enter"
                 /\ ArtificialPointsOk(I) /\ CanEnter(I, st0, Event.a)
     IN /\ tri' = t /\ fr' = f
        /\ s' = IF ok THEN DoEnter(I, st0, Event.a) ELSE st0
        /\ bad' = IF ok THEN Checks(Event, t, f, M, FrontOf(f), s') ELSE {"init"}
  /\ l' = 2 /\ UNCHANGED <<tid, rot, leg, sync>>

(* failures after which s no longer follows the trace *)
Losing == {"step", "order", "proto", "front"}
(* ... and after which there is nothing to follow *)
Fatal == {"init", "form"}

(* <<abstract state, still in step?, failures>> *)
Outcome(e, t, f, M, F) ==
  IF ~WellFormed(t, f) THEN <<s, FALSE, {"form"}>>
  ELSE IF sync
       THEN LET v == StepFor(e, t, M, F)
                early == v[2] \cap Losing # {}
                new == v[2] \cup (IF early THEN StateChecks(e, t, f, M, F) ELSE Checks(e, t, f, M, F, v[1]))
            IN IF new \cap Losing = {} THEN <<v[1], TRUE, new>>
               ELSE <<IF early THEN Adopt(s, e, M, F) ELSE [v[1] EXCEPT !.mesh = M, !.front = F], FALSE, new>>
       ELSE LET ad == Adopt(s, e, M, F) IN <<ad, FALSE, Lost(s, e, t, f, M, F, ad)>>

(* (the sets of one element make TLC evaluate each expression once) *)
Step ==
  /\ l > 1 /\ l <= Len(Ev) /\ bad \cap Fatal = {}
  /\ \E e \in {Event} : \E t \in {ApplyChanges(tri, e.c)} : \E f \in {IF e.f = <<>> THEN fr ELSE e.f} :
     \E M \in {MeshOf(t)} : \E F \in {FrontOf(f)} : \E r \in {Outcome(e, t, f, M, F)} :
        /\ tri' = t /\ fr' = f
        /\ s' = r[1]
        /\ rot' = IF e.e = "rotate"
                  THEN IF {e.a, e.b} \subseteq 1..Len(t) THEN <<PtsOf(t[e.a]), PtsOf(t[e.b])>> ELSE <<>>
                  ELSE <<>>
        /\ leg' = CASE e.e = "will" -> <<e.a, {e.a}>>
                    [] e.e = "legal" -> <<>>
                    [] e.e = "rotate" /\ leg # <<>> -> <<leg[1], leg[2] \cup {e.a, e.b}>>
                    [] OTHER -> leg
        /\ sync' = r[2]
        /\ bad' = bad \cup r[3] \cup (IF "form" \notin r[3] /\ e.e = "final" THEN FinalChecks(t, r[1]) ELSE {})
                       \cup (IF e.e = "final" /\ l # Len(Ev) THEN {"proto"} ELSE {})
  /\ l' = l + 1 /\ UNCHANGED tid

(* the call has to return, and the trace to be complete *)
Close ==
  /\ l = Len(Ev) + 1 /\ (Len(Ev) > 0 => l > 1) /\ bad \cap Fatal = {}
  /\ bad' = bad \cup Fail("returned", I.o = "ok") \cup Fail("proto", Len(Ev) > 0 /\ Ev[Len(Ev)].e = "final")
  /\ l' = l + 1
  /\ UNCHANGED <<tid, s, tri, fr, rot, leg, sync>>

TraceNext == First \/ Step \/ Close
TraceSpec == TraceInit /\ [][TraceNext]_vars

----------------------------------------------------------------------------
(* the properties *)
C07 == bad \cap {"link", "rim", "marks", "dmarks", "tiles", "returned", "init", "form"} = {} \/ ~ValidInput(I)
C08 == bad \cap {"front", "fronttri", "monotone", "lookup", "returned", "init", "form"} = {} \/ ~ValidInput(I)
C09 == bad \cap {"order", "used", "cons", "returned", "init", "form"} = {} \/ ~ValidInput(I)
C10 == bad \cap {"proto", "final", "returned", "init", "form"} = {} \/ ~ValidInput(I)
C17 == bad \cap {"step", "returned", "init", "form"} = {} \/ ~ValidInput(I)
C18 == bad \cap {"legal", "returned", "init", "form"} = {} \/ ~ValidInput(I)
C19 == bad \cap {"builtin", "returned", "init", "form"} = {} \/ ~ValidInput(I)
C20 == bad \cap {"handle", "returned", "init", "form"} = {} \/ ~ValidInput(I)
C22 == bad \cap {"query", "returned", "init", "form"} = {} \/ ~ValidInput(I)
All == bad = {} \/ ~ValidInput(I)
=============================================================================
