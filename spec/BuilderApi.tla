----------------------------- MODULE BuilderApi -------------------------------
(***************************************************************************)
(* The public interface as a state machine: builders, CDTs and results,    *)
(* each a value that calls consume, copy or read.                          *)
(*                                                                         *)
(* What a builder or a CDT holds is an abstract input                      *)
(*   [p |-> points, d |-> their data, l |-> loops of indices into p]       *)
(* (the format of Domain, with data), points in the order of the calls.    *)
(* A result holds the input, and                                           *)
(*   t   : its triangles, what triangulating that input gives              *)
(*   next: how many triangles the iterator has yielded                     *)
(***************************************************************************)
EXTENDS Triangulation

VARIABLES
  bs,   \* builders: handle -> input
  cs,   \* CDTs: handle -> input
  rs    \* results: handle -> [in, t, next]
api == <<bs, cs, rs>>

Without(f, h) == [x \in DOMAIN f \ {h} |-> f[x]]
With(f, h, v) == [x \in DOMAIN f \cup {h} |-> IF x = h THEN v ELSE f[x]]

(* a sequence of <<x, y, data>>, as points and as data *)
PlacesOf(q) == [k \in 1..Len(q) |-> <<q[k][1], q[k][2]>>]
DataOf(q) == [k \in 1..Len(q) |-> q[k][3]]

Empty == [p |-> <<>>, d |-> <<>>, l |-> <<>>]
PlusPoints(I, q) == [I EXCEPT !.p = I.p \o PlacesOf(q), !.d = I.d \o DataOf(q)]
PlusLoop(I, q) ==
  LET J == PlusPoints(I, q) IN [J EXCEPT !.l = Append(I.l, [k \in 1..Len(q) |-> Len(I.p) + k])]
RECURSIVE PlusLoops(_, _)
PlusLoops(I, qs) == IF qs = <<>> THEN I ELSE PlusLoops(PlusLoop(I, Head(qs)), Tail(qs))

(* the calls; h: the handle used, n: the handle of the new value *)
NewB(n, q)          == bs' = With(bs, n, PlusLoop(Empty, q)) /\ UNCHANGED <<cs, rs>>
AddSteiner(h, a)    == h \in DOMAIN bs /\ bs' = With(bs, h, PlusPoints(bs[h], <<a>>)) /\ UNCHANGED <<cs, rs>>
AddSteiners(h, q)   == h \in DOMAIN bs /\ bs' = With(bs, h, PlusPoints(bs[h], q)) /\ UNCHANGED <<cs, rs>>
AddHole(h, q)       == h \in DOMAIN bs /\ bs' = With(bs, h, PlusLoop(bs[h], q)) /\ UNCHANGED <<cs, rs>>
AddHoles(h, qs)     == h \in DOMAIN bs /\ bs' = With(bs, h, PlusLoops(bs[h], qs)) /\ UNCHANGED <<cs, rs>>
CloneB(h, n)        == h \in DOMAIN bs /\ bs' = With(bs, n, bs[h]) /\ UNCHANGED <<cs, rs>>
Build(h, n)         == /\ h \in DOMAIN bs
                       /\ cs' = With(cs, n, bs[h]) /\ bs' = Without(bs, h) /\ UNCHANGED rs
CloneC(h, n)        == h \in DOMAIN cs /\ cs' = With(cs, n, cs[h]) /\ UNCHANGED <<bs, rs>>
(* with or without an observer; t is what triangulating gives *)
Run(h, n, t)        == /\ h \in DOMAIN cs
                       /\ rs' = With(rs, n, [in |-> cs[h], t |-> t, next |-> 0])
                       /\ cs' = Without(cs, h) /\ UNCHANGED bs
(* the iterator: yields the triangles in the order of t, then nothing, ever *)
Yield(r)            == IF r.next < Len(r.t) THEN [k \in 1..3 |-> r.in.p[r.t[r.next + 1][k]]] ELSE <<>>
NextT(h)            == /\ h \in DOMAIN rs
                       /\ rs' = With(rs, h, [rs[h] EXCEPT !.next = IF @ < Len(rs[h].t) THEN @ + 1 ELSE @])
                       /\ UNCHANGED <<bs, cs>>
(* an iterator read in the other ways of the standard library: the n + 1st  *)
(* from here, and up to n of them; what is passed over is gone             *)
After(r, n)         == [r EXCEPT !.next = IF r.next + n < Len(r.t) THEN r.next + n ELSE Len(r.t)]
Rest(r)             == Len(r.t) - r.next
YieldNth(r, n)      == Yield(After(r, n))
NthT(h, n)          == h \in DOMAIN rs /\ rs' = With(rs, h, After(rs[h], n + 1)) /\ UNCHANGED <<bs, cs>>
YieldTake(r, n)     == [k \in 1..(IF n < Rest(r) THEN n ELSE Rest(r)) |-> Yield(After(r, k - 1))]
TakeT(h, n)         == h \in DOMAIN rs /\ rs' = With(rs, h, After(rs[h], n)) /\ UNCHANGED <<bs, cs>>
(* used up: all that is left, every second one, all but the first          *)
YieldAll(r)         == YieldTake(r, Rest(r))
YieldSecond(r)      == [k \in 1..((Rest(r) + 1) \div 2) |-> Yield(After(r, 2 * k - 2))]
YieldTail(r)        == YieldAll(After(r, 1))
YieldLast(r)        == IF Rest(r) = 0 THEN <<>> ELSE Yield(After(r, Rest(r) - 1))
Consume(h)          == h \in DOMAIN rs /\ rs' = Without(rs, h) /\ UNCHANGED <<bs, cs>>
(* reading changes nothing *)
Read(h)             == h \in DOMAIN rs /\ UNCHANGED api
IndicesOf(r) == r.t
PointsOf(r) == r.in.p
DataOfR(r) == r.in.d
=============================================================================
