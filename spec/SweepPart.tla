------------------------------ MODULE SweepPart -------------------------------
(***************************************************************************)
(* Trace validation of parts of large runs, and of their final states.     *)
(* A part begins when the sweep leaves a point.  What has happened before is not known, but everything  *)
(* that Sweep says about its state at such a moment is: which points were  *)
(* reached, which constraints are in, and that the mesh and the front are  *)
(* any with the invariants.  So the observed state is taken for Sweep's,   *)
(* all obligations are checked on it, and from there on the trace is       *)
(* followed as in SweepTrace.                                              *)
(***************************************************************************)
EXTENDS SweepTrace, BigDomain

(* i, and with it BigDomain's record R, is always tid *)

(* the first event shows all rows *)
Rows(ch) == IF \A k \in 1..Len(ch) : ch[k][1] = k THEN [k \in 1..Len(ch) |-> SubSeq(ch[k], 2, 9)] ELSE ApplyChanges(<<>>, ch)

Joined(a, M, F) ==
  LET left == {j \in Ids(I) : Below(I.p[a], I.p[j])}
      E == {c \in ConstraintEdges(I) : c \cap left = {}}
      open == {c \in E : a \in c}
  IN [mesh |-> M, front |-> F, left |-> left, pc |-> "edges", cur |-> a,
      todo |-> UNION {c \ {a} : c \in open}, low |-> 0, cons |-> E \ open]

Join ==
  /\ l = 1 /\ bad = {} /\ Len(Ev) > 0 /\ Event.e # "final"
  /\ \E e \in {Event} : \E t \in {Rows(e.c)} :
     IF ~(WellFormed(t, e.f) /\ Len(I.h) = 2 /\ e.e = "exit" /\ e.a \in Ids(I) /\ ArtificialPointsOk(I))
     THEN /\ bad' = {"init"} /\ UNCHANGED <<tri, fr, s, sync>>
     ELSE \E M \in {MeshOf(t)} : \E F \in {FrontOf(e.f)} : \E st \in {Joined(e.a, M, F)} :
          LET new == Checks(e, t, e.f, M, F, st) \cup Fail("legal", Legal(I, M, st.cons))
                                                \cup Fail("monotone", FrontMonotone(I, F))
          IN /\ tri' = t /\ fr' = e.f /\ s' = st
             /\ bad' = new
             /\ sync' = (new \cap Losing = {})
  /\ l' = 2 /\ UNCHANGED <<tid, rot, leg>>

(* the final state of a large run, and what the call returned *)
AtEnd(e, t, f, M, F) ==
  LET ids == {I.r[j] : j \in 1..Len(I.r)}
      cons == ConstraintEdges(I)
      st == [mesh |-> M, left |-> {}] IN
  UNION {
    StateChecks(e, t, f, M, F),
    Fail("cons", ConsOf(t) = cons /\ cons \subseteq {Undirected(d) : d \in DirectedEdges(M)}),
    Fail("used", AllReachedUsed(I, st)),
    Fail("legal", Legal(I, M, cons)),
    Fail("final", /\ ids = InteriorMarked(t)
                  /\ Len(I.t) = Len(I.r)
                  /\ \A j \in 1..Len(I.t) : I.r[j] \in 1..Len(t) /\ I.t[j] = PtsOf(t[I.r[j]]))
  }
JoinEnd ==
  /\ l = 1 /\ bad = {} /\ Len(Ev) > 0 /\ Event.e = "final"
  /\ \E e \in {Event} : \E t \in {Rows(e.c)} :
       /\ tri' = t /\ fr' = e.f
       /\ bad' = IF ~WellFormed(t, e.f) THEN {"form"} ELSE AtEnd(e, t, e.f, MeshOf(t), FrontOf(e.f))
  /\ l' = Len(Ev) + 1 /\ sync' = FALSE /\ UNCHANGED <<tid, s, rot, leg>>

ClosePart ==
  /\ l = Len(Ev) + 1 /\ (Len(Ev) > 0 => l > 1) /\ bad \cap Fatal = {}
  /\ bad' = bad \cup Fail("returned", I.o = "ok")
  /\ l' = l + 1
  /\ UNCHANGED <<tid, s, tri, fr, rot, leg, sync>>

PartSpec == TraceInit /\ i = tid /\ [][(Join \/ JoinEnd \/ Step \/ ClosePart) /\ UNCHANGED i]_<<vars, i>>

GeneratorValid == l = 1 => BigValid

P07 == bad \cap {"link", "rim", "marks", "dmarks", "tiles", "returned", "init", "form"} = {} \/ ~BigValid
P08 == bad \cap {"front", "fronttri", "monotone", "lookup", "returned", "init", "form"} = {} \/ ~BigValid
P09 == bad \cap {"order", "used", "cons", "returned", "init", "form"} = {} \/ ~BigValid
P10 == bad \cap {"proto", "final", "returned", "init", "form"} = {} \/ ~BigValid
P17 == bad \cap {"step", "returned", "init", "form"} = {} \/ ~BigValid
P18 == bad \cap {"legal", "returned", "init", "form"} = {} \/ ~BigValid
P19 == bad \cap {"builtin", "returned", "init", "form"} = {} \/ ~BigValid
P20 == bad \cap {"handle", "returned", "init", "form"} = {} \/ ~BigValid
P22 == bad \cap {"query", "returned", "init", "form"} = {} \/ ~BigValid
PAll == bad = {} \/ ~BigValid
=============================================================================
