--------------------------- MODULE PrimitivesTrace ---------------------------
(***************************************************************************)
(* Validation of recorded questions.  An event carries questions of one    *)
(* kind with the arguments and the answers of both implementations:        *)
(*    q = << <<arguments>>, answer of P, answer of B >>.                   *)
(* An answer that raised is ["error", class].                              *)
(***************************************************************************)
EXTENDS Primitives, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, pos
tvars == <<tid, pos>>
Ev == Traces[tid].ev[pos]

Report(bad) == \A b \in bad :
    PrintT("REJECT " \o ToJson(<<Traces[tid].id, pos, b[1], b[2], b[3]>>))

(* Which is lower of the four numbers of an edge in an answer. *)
Ends(e) == {<<e[1], e[2]>>, <<e[3], e[4]>>}

Right(kind, a, x) ==
    CASE kind = "edge" ->       \* points p, q -> bottom and top, is it flat
           x = <<EdgeOf(a[1], a[2])[1], EdgeOf(a[1], a[2])[2], a[1][2] = a[2][2]>>
      [] kind = "flip" ->       \* p, q at one height -> the edge after turning it
           x = <<EdgeOf(a[1], a[2])[2], EdgeOf(a[1], a[2])[1]>>
      [] kind = "crossing" -> CrossAnswerOk(a[1], a[2], a[3], a[4], x)
      [] kind = "parallel" -> x = ParallelEdges(<<a[1], a[2]>>, <<a[3], a[4]>>)
      [] kind = "straight" -> x = (BigCrossSgn(a[1], a[2], a[3]) = 0)
      [] kind = "between" -> BigCrossSgn(a[1], a[2], a[3]) = 0 => x = StrictlyBetween(a[1], a[2], a[3])
      [] kind = "row" ->        \* points p, q, height y -> x, least, most
           With(EdgeOf(a[1], a[2]), LAMBDA e :
               /\ Horizontal(e) \/ XAtOk(e, a[3], x[1])
               /\ RowOk(e, a[3], x[2], x[3]))
      [] kind = "box" -> x = BoxIn(a[1], a[2])
      [] kind = "round" -> x = <<RoundDown(a[1], 4), RoundQ(a[1], 4)>>
      [] kind = "ring" ->       \* points -> twice the area, size, box, hole, points, scan
           /\ x[1] = -Area2(a[1]) /\ x[2] = Len(a[1])
           /\ x[3] = <<Min({p[1] : p \in Range(a[1])}), Min({p[2] : p \in Range(a[1])}),
                       Max({p[1] : p \in Range(a[1])}), Max({p[2] : p \in Range(a[1])})>>
           /\ x[4] = (-Area2(a[1]) <= 0)
           /\ x[5] = a[1]
           /\ IsScan(x[6], a[1])
      [] kind = "inside" ->
           Askable(a[1], a[2]) => x = RingInside(a[1], a[2])
      [] kind = "edges" ->      \* ring -> edges without what is redundant
           With(RingEdges(Normal(a[1])), LAMBDA want :
               /\ Len(x) = Len(want)
               /\ \A e \in Range(x) : e[2] >= e[4]
               /\ \A e \in Range(want) :
                    Cardinality({i \in 1..Len(x) : Ends(x[i]) = {e[1], e[2]}})
                    = Cardinality({i \in 1..Len(want) : {want[i][1], want[i][2]} = {e[1], e[2]}}))
      [] kind = "sort" ->       \* <<number, name>>s, descending -> swaps, result
           SortOk(a[1], x[1], x[2], LAMBDA l, r : IF a[2] THEN l[1] < r[1] ELSE l[1] > r[1])
      [] kind = "meet" ->       \* edges, from left to right at the bottom; height
                                \* -> order there, who meets whom where
           LET swaps == [i \in 1..Len(x[2]) |-> <<x[2][i][1], x[2][i][2]>>]
           IN /\ SortOk([i \in 1..Len(a[1]) |-> i], swaps, x[1],
                        LAMBDA l, r : Before(XAt(a[1][r], a[2]), XAt(a[1][l], a[2])))
              /\ \A i \in 1..Len(x[2]) :
                    CrossAnswerOk(a[1][x[2][i][1]][1], a[1][x[2][i][1]][2],
                                  a[1][x[2][i][2]][1], a[1][x[2][i][2]][2],
                                  <<x[2][i][3], x[2][i][4]>>)
      [] kind = "place" ->      \* edges in their order at a height, left and right of a
                                \* new minimum there -> how many stay on the left of it
           LET y == a[3]
               new == a[2]
               (* comes e before the new bound: at y, and if equal above it *)
               Less(e, f) == \/ Before(XAt(e, y), XAt(f, y))
                             \/ (~Before(XAt(f, y), XAt(e, y)) /\
                                 Sgn((e[2][1] - e[1][1]) * (f[1][2] - f[2][2])
                                     - (f[2][1] - f[1][1]) * (e[1][2] - e[2][2])) < 0)
           IN /\ x \in 0..Len(a[1])
              /\ \A i \in 1..x : ~Less(new, a[1][i])
              /\ \A i \in (x + 1)..Len(a[1]) : ~Less(a[1][i], new)
      [] OTHER -> FALSE

Bad(c) == {i \in 1..Len(Ev.q) :
             IF Ev.q[i][c][1] THEN ~Right(Ev.kind, Ev.q[i][1], Ev.q[i][c][2])
             ELSE TRUE}     \* a decision is always made

Init == tid \in 1..Len(Traces) /\ pos = 1
Next ==
    /\ pos <= Len(Traces[tid].ev)
    /\ Ev.e = "ask"
    /\ pos' = pos + 1 /\ tid' = tid
    /\ \E bad \in {TLCEval([c \in {2, 3} |-> Bad(c)])} :
         Report({<<"C16", (IF c = 2 THEN "P: " ELSE "B: ") \o Ev.kind,
                   Ev.q[Min(bad[c])]>> : c \in {d \in {2, 3} : bad[d] # {}}})
Spec == Init /\ [][Next]_tvars
=============================================================================
