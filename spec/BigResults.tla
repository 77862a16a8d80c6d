----------------------------- MODULE BigResults -------------------------------
(***************************************************************************)
(* Recorded calls with tens of thousands of points (see BigDomain).         *)
(***************************************************************************)
EXTENDS BigDomain

Ok == R.o = "ok"
Required(P) == P \/ ~BigValid
Uses == {R.t[j][k] : j \in 1..Len(R.t), k \in 1..3}

C01 == Required(Ok /\ OnlyInputPoints(R, R.t) /\ AllCCW(R, R.t) /\
         LET E == DirectedEdges(TriSet(R.t)) IN
           Cardinality(E) = 3 * Len(R.t) /\ {e \in E : Rev(e) \notin E} = BigBoundary)
C02 == Required(Ok /\ OnlyInputPoints(R, R.t) /\
         LET E == DirectedEdges(TriSet(R.t)) IN \A e \in BigBoundary : e \in E /\ Rev(e) \notin E)
(* LocallyDelaunay, with the constraint edges as directed ones *)
C03 == Required(Ok /\ OnlyInputPoints(R, R.t) /\
         LET B == {e \in BigBoundary : TRUE} IN  \* enumerated once
         Cardinality(B) > 0 /\
         \A q \in Quads(TriSet(R.t)) :
           <<q[1], q[2]>> \in B \/ <<q[2], q[1]>> \in B
           \/ InCircle(R.p[q[1]], R.p[q[2]], R.p[q[3]], R.p[q[4]]) <= 0)
C04 == Required(Ok /\ OnlyInputPoints(R, R.t) /\ Uses = BigInRegion)
C06 == Required(Ok)
C14 == C01 /\ C03 /\ C04

GeneratorValid == Len(R.p) < 4000 => BigValid
=============================================================================
