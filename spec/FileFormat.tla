----------------------------- MODULE FileFormat -------------------------------
(***************************************************************************)
(* The text format of the loader, as a state machine that reads a file     *)
(* line by line.  A line is <<kind, first column, second column>>:         *)
(*   "P"  two columns that are decimal numbers: a point                    *)
(*   "E"  nothing but blanks                                               *)
(*   "H"  the line HOLE: a new hole begins                                 *)
(*   "S"  the line STEINER: Steiner points follow                          *)
(*   "B"  anything else that is malformed: fewer than two columns, or not  *)
(*        numbers                                                          *)
(* The points before any heading are the polyline.                         *)
(***************************************************************************)
EXTENDS Domain

Start == [sec |-> "polyline", poly |-> <<>>, holes |-> <<>>, st |-> <<>>, error |-> FALSE]

ReadLine(s, ln) ==
  IF s.error THEN s
  ELSE CASE ln[1] = "E" -> s
         [] ln[1] = "B" -> [s EXCEPT !.error = TRUE]
         [] ln[1] = "H" -> [s EXCEPT !.sec = "hole", !.holes = Append(s.holes, <<>>)]
         [] ln[1] = "S" -> [s EXCEPT !.sec = "steiner"]
         [] ln[1] = "P" ->
              LET q == <<ln[2], ln[3]>> IN
              CASE s.sec = "polyline" -> [s EXCEPT !.poly = Append(s.poly, q)]
                [] s.sec = "hole" -> [s EXCEPT !.holes[Len(s.holes)] = Append(s.holes[Len(s.holes)], q)]
                [] s.sec = "steiner" -> [s EXCEPT !.st = Append(s.st, q)]

(* what the builder holds then: polyline, holes in order, Steiner points *)
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
RECURSIVE Offsets(_, _)
Offsets(ss, n) == IF ss = <<>> THEN <<>>
                  ELSE <<[k \in 1..Len(Head(ss)) |-> n + k]>> \o Offsets(Tail(ss), n + Len(Head(ss)))
Loaded(s) == LET loops == <<s.poly>> \o s.holes IN
             [p |-> Cat(loops) \o s.st, l |-> Offsets(loops, 0)]

(* A loop of one point, or equal points, is nothing a builder takes.  Large *)
(* inputs have no equal points as they are made.                            *)
Takable(J) == /\ \A k \in 1..Len(J.l) : Len(J.l[k]) # 1
              /\ Len(J.p) <= 400 => Distinct(J)

(* edges <<loop, index>> whose upper end is point v: of the two at v, as    *)
(* the points of a loop come one after the other                            *)
EdgesUp(J, v) ==
  LET K == {k \in 1..Len(J.l) : Len(J.l[k]) > 0 /\ J.l[k][1] <= v /\ v <= J.l[k][Len(J.l[k])]} IN
  {x \in UNION {LET i == v - J.l[k][1] + 1 IN {<<k, i>>, <<k, PredIdx(J.l[k], i)>>} : k \in K} :
     LET a == J.l[x[1]][x[2]]  b == J.l[x[1]][SuccIdx(J.l[x[1]], x[2])] IN
     v = IF Below(J.p[a], J.p[b]) THEN b ELSE a}
LowerEnd(J, x) == LET a == J.l[x[1]][x[2]]  b == J.l[x[1]][SuccIdx(J.l[x[1]], x[2])]
                  IN IF Below(J.p[a], J.p[b]) THEN a ELSE b
=============================================================================
