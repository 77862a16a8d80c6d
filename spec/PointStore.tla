----------------------------- MODULE PointStore ------------------------------
(***************************************************************************)
(* The store of points that an observer sees.  A record shows all of its   *)
(* views, at the first and at the last callback of a run:                  *)
(*   n, h, t : number of points, ids of the two artificial ones            *)
(*   it, wf  : iteration over all points, over those of the input:         *)
(*             <<id, position, other ends of the segments ending here>>    *)
(*   pp, pf  : the positions of all points, of those of the input          *)
(*   gp      : the position of each point, looked up by its id             *)
(*   y       : the ids by order of the sweep                               *)
(*   by      : <<k, the points from the k-th on, in order of the sweep>>   *)
(*   e       : segments <<a, b, lower end, upper end>>                     *)
(* The contents are a function of the input alone.                         *)
(***************************************************************************)
EXTENDS Sweep, TLC, Json, IOUtils

Records == ndJsonDeserialize(IOEnv.BATCH)

VARIABLE tid
StoreInit == tid \in 1..Len(Records)
StoreNext == UNCHANGED tid
StoreSpec == StoreInit /\ [][StoreNext]_tid

I == Records[tid]
N == Len(I.p)

(* the segments, each as <<upper end, lower end>> *)
Segments == {IF Below(I.p[e[1]], I.p[e[2]]) THEN Rev(e) ELSE e : e \in GivenEdges(I)}

(* rows of the points 1..N: each of its segments is noted at a point once *)
RowsOk(rs) ==
  LET S == Segments IN
  /\ Len(rs) >= N
  /\ \A m \in 1..N : rs[m][1] = m /\ SamePoint(rs[m][2], I.p[m])
  /\ \A m \in 1..N : \A j \in 1..Len(rs[m][3]) :
       <<m, rs[m][3][j]>> \in S /\ \A k \in 1..(j - 1) : rs[m][3][k] # rs[m][3][j]
  /\ FoldLeft(LAMBDA x, r : x + Len(r[3]), 0, SubSeq(rs, 1, N)) = Cardinality(S)

ArtificialRowOk(s, r, i) == r[1] = i /\ SamePoint(r[2], s.pp[i]) /\ r[3] = <<>>
SameRow(r, q) == /\ r[1] = q[1] /\ SamePoint(r[2], q[2])
                 /\ Len(r[3]) = Len(q[3]) /\ {r[3][j] : j \in 1..Len(r[3])} = {q[3][j] : j \in 1..Len(q[3])}

SnapOk(s) ==
  /\ s.n = N + 2 /\ s.h = N + 1 /\ s.t = N + 2
  /\ Len(s.pp) = N + 2 /\ Len(s.pf) = N /\ Len(s.it) = N + 2 /\ Len(s.wf) = N
  /\ Len(s.gp) = N + 2 /\ Len(s.y) = N + 2
  /\ \A k \in 1..N : SamePoint(s.pp[k], I.p[k]) /\ SamePoint(s.pf[k], I.p[k])
  /\ RowsOk(s.it) /\ RowsOk(s.wf)
  /\ \A k \in {N + 1, N + 2} : ArtificialRowOk(s, s.it[k], k)
  /\ \A k \in 1..(N + 2) : Len(s.gp[k]) = 1 /\ SamePoint(s.gp[k][1], s.pp[k])
  /\ ArtificialPointsOk([p |-> I.p, l |-> I.l, h |-> <<s.pp[N + 1], s.pp[N + 2]>>])
  /\ \A k \in 1..N : s.y[k] \in Ids(I)
  /\ \A k \in 1..(N - 1) : Below(I.p[s.y[k]], I.p[s.y[k + 1]])  \* so it has each point once
  /\ s.y[N + 1] = 0 /\ s.y[N + 2] = 0
  /\ \A b \in {s.by[j] : j \in 1..Len(s.by)} :
       /\ Len(b[2]) = (IF b[1] > N THEN 0 ELSE N - b[1])
       /\ \A j \in 1..Len(b[2]) : SameRow(b[2][j], s.it[s.y[b[1] + j]])
  /\ \A e \in {s.e[j] : j \in 1..Len(s.e)} :
       /\ {e[3], e[4]} = {e[1], e[2]}
       /\ Below(s.pp[e[3]], s.pp[e[4]])

C21 == ValidInput(I) => I.o = "ok" /\ Len(I.sn) = 2 /\ SnapOk(I.sn[1]) /\ SnapOk(I.sn[2])
=============================================================================
