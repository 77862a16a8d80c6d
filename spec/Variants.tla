------------------------------ MODULE Variants -------------------------------
(***************************************************************************)
(* Pairs of executions.  A record holds a valid input and what             *)
(* triangulating it gave, and variants of the input with what they gave:   *)
(*   k : which kind of variant                                             *)
(*   x : its parameters                                                    *)
(*   p, l : the input, in the format of Domain                             *)
(*   m : for each point of the variant the point of the base it stands for,*)
(*       0 for a point that the base does not have                         *)
(*   o, t : outcome and triangles                                          *)
(*                                                                         *)
(* Related says (and checks of the record) how variant and base belong     *)
(* together; Follows what that means for the result.  The constrained      *)
(* Delaunay triangulation is unique if no edge has the fourth point on the *)
(* circle (StrictlyDelaunay); only then the triangles are compared.        *)
(***************************************************************************)
EXTENDS BigDomain

(* place q of the variant against place p of the base *)
PlaceOk(k, x, q, p) ==
  CASE k \in {"order", "ext", "again", "cloneb", "clonec", "seen"} -> SamePoint(q, p)
    [] k = "move" -> IsSum(q[1], p[1], x[1]) /\ IsSum(q[2], p[2], x[2])
    [] k = "mirror" -> IsSum(0, q[1], p[1]) /\ IsSum(q[2], p[2], 0)
    [] k = "turn" -> IsSum(0, q[1], p[2]) /\ IsSum(q[2], p[1], 0)
    [] k = "swap" -> SamePoint(q, <<p[2], p[1]>>)
    [] k = "scale" -> SameScaled(q, p, x[1])
    [] OTHER -> FALSE

Mirrored(k) == k \in {"mirror", "swap"}

(* kinds whose points come in the same order *)
Aligned(k) == k \notin {"order", "ext"}

MapEdges(v, E) == {{v.m[c] : c \in e} : e \in E}
LoopsOf(J) == {{Undirected(e) : e \in LoopEdges(J.l[k])} : k \in 2..Len(J.l)}

Related(B, v) ==
  /\ Len(v.m) = Len(v.p)
  /\ LET known == {a \in 1..Len(v.m) : v.m[a] # 0} IN Cardinality({v.m[a] : a \in known}) = Cardinality(known)
  /\ \A a \in 1..Len(v.m) : v.m[a] # 0 => PlaceOk(v.k, v.x, v.p[a], B.p[v.m[a]])
  \* the same polyline and the same holes
  /\ MapEdges(v, {Undirected(e) : e \in LoopEdges(v.l[1])}) = {Undirected(e) : e \in LoopEdges(B.l[1])}
  /\ {MapEdges(v, E) : E \in LoopsOf(v)} = LoopsOf(B)
  /\ Len(v.l) = Len(B.l)
  \* what is missing or new is outside of the region
  /\ \A a \in 1..Len(v.m) : v.m[a] = 0 => (v.k = "ext" /\ ~StrictlyInRegion(v, v.p[a]))
  /\ \A b \in Ids(B) \ {v.m[a] : a \in 1..Len(v.m)} : v.k = "ext" /\ ~StrictlyInRegion(B, B.p[b])
  /\ Aligned(v.k) => v.m = [a \in Ids(B) |-> a]

Image(v, t) == LET u == [c \in 1..3 |-> v.m[t[c]]] IN
               IF Mirrored(v.k) THEN Canon(<<u[1], u[3], u[2]>>) ELSE Canon(u)

SameTriangles(B, v) ==
  /\ \A j \in 1..Len(v.t) : TriPoints(v.t[j]) \subseteq 1..Len(v.m)
  /\ Len(v.t) = Len(B.t)
  /\ {Image(v, v.t[j]) : j \in 1..Len(v.t)} = CanonSet(B.t)

Of(K) == {j \in 1..Len(R.v) : R.v[j].k \in K}
IsBig == "lo" \in DOMAIN R
BaseValid == IF IsBig THEN BigValid ELSE ValidInput(R)
\* of the kinds used for big ones, the variant of a valid input is valid
Valid(v) == (IF IsBig THEN v.k # "ext" ELSE ValidInput(v)) /\ Related(R, v)

GeneratorValid == i <= 60 => (BaseValid /\ \A j \in 1..Len(R.v) : Valid(R.v[j]))

(* a pair of calls only one of which returns is not "the same" *)
Follows(K) ==
  (R.o # "ok" /\ \A j \in Of(K) : R.v[j].o # "ok")
  \/ /\ R.o = "ok"
     /\ \A j \in Of(K) : R.v[j].o = "ok"
     /\ (Of(K) # {} /\ OnlyInputPoints(R, R.t) /\ StrictlyDelaunay(R, R.t)) => \A j \in Of(K) : SameTriangles(R, R.v[j])

AllValid == BaseValid /\ \A j \in 1..Len(R.v) : Valid(R.v[j])
Required(P) == P \/ ~AllValid

(* any two triangulations of a region have the same corners and equally many triangles *)
SameShape(B, v) ==
  /\ Len(v.t) = Len(B.t)
  /\ \A j \in 1..Len(v.t) : TriPoints(v.t[j]) \subseteq 1..Len(v.m)
  /\ {v.m[v.t[j][c]] : j \in 1..Len(v.t), c \in 1..3} = {B.t[j][c] : j \in 1..Len(B.t), c \in 1..3}

C11 == Required(Follows({"order", "ext"}) /\ (R.o = "ok" => \A j \in Of({"order", "ext"}) : SameShape(R, R.v[j])))
C12 == Required(Follows({"move", "mirror", "turn", "swap", "scale"}))

(* the same input again, a clone, or with an observer: the same list *)
Exact == {"again", "cloneb", "clonec", "seen"}
C15 == Required(\A j \in Of(Exact) : R.v[j].o = R.o /\ R.v[j].t = R.t)
=============================================================================
