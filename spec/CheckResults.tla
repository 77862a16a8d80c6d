---------------------------- MODULE CheckResults -----------------------------
(***************************************************************************)
(* Judges recorded executions of the real library: one record per call of  *)
(* triangulate(), with its input and what came back.                       *)
(*   o : "ok", or how the call failed to return                            *)
(*   t : the triangles                                                     *)
(* Every record is one behaviour of the trivial machine                    *)
(*   called --Return--> returned                                           *)
(* and each property is an invariant of the returned state.                *)
(***************************************************************************)
EXTENDS Triangulation, TLC, Json, IOUtils

Batch == ndJsonDeserialize(IOEnv.BATCH)

VARIABLES i
Init == i \in 1..Len(Batch)
Next == FALSE /\ UNCHANGED i
Spec == Init /\ [][Next]_i

R == Batch[i]
Ok == R.o = "ok"

(* a violation only counts for a valid input (the generators make no other, *)
(* which GeneratorValid checks)                                             *)
Required(P) == P \/ ~ValidInput(R)

Returned == Required(Ok)
C01 == Required(Ok /\ OnlyInputPoints(R, R.t) /\ ExactTiling(R, R.t))
C02 == Required(Ok /\ OnlyInputPoints(R, R.t) /\ ConstraintsRespected(R, R.t) /\ NoConstraintCrossed(R, R.t))
C03 == Required(Ok /\ OnlyInputPoints(R, R.t) /\ ConstrainedDelaunay(R, R.t))
C04 == Required(Ok /\ OnlyInputPoints(R, R.t) /\ VerticesExact(R, R.t) /\ NoPointInside(R, R.t) /\ CountExact(R, R.t))
C06 == Returned
(* an execution of the single precision build, with what the double         *)
(* precision build made of the same points (wo, w)                          *)
C14 == /\ C01 /\ C02 /\ C03 /\ C04
       /\ Required(R.wo # "ok" \/ (Ok /\ (StrictlyDelaunay(R, R.t) => CanonSet(R.t) = CanonSet(R.w))))

GeneratorValid == i <= 100 => ValidInput(R)
=============================================================================
