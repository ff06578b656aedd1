------------------------------ MODULE SweepTrace ------------------------------
(***************************************************************************)
(* Validation of recorded sweeps.  A history of the active bounds (bounds  *)
(* inserted in pairs, neighbours crossing, neighbours ending together) was *)
(* driven into set_winding_count, is_contributing, intersect_bounds,       *)
(* add_local_minimum_point and add_local_maximum_point of the port and of  *)
(* the binding; after every step each of them showed for every bound       *)
(* <<own counter, other counter, ring or 0, is on the left side>>.  What   *)
(* they show must mean the true winding numbers (see SweepRules), the      *)
(* bounds with a ring must be the boundary, and every open ring must have  *)
(* two ends, a left and a right one.                                       *)
(***************************************************************************)
EXTENDS SweepRules, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, pos, abl
tvars == <<tid, pos, abl>>
Ev == Traces[tid].ev[pos]
Rows == Traces[tid].ev[1].rows

Report(bad) == \A b \in bad :
    PrintT("REJECT " \o ToJson(<<Traces[tid].id, pos, b[1], b[2], b[3]>>))

IsEvent(name) == pos <= Len(Traces[tid].ev) /\ Ev.e = name
                 /\ pos' = pos + 1 /\ tid' = tid

RightCounters(row, bs, st) ==
    \A i \in 1..Len(bs) :
        /\ (IF FillOf(row, bs[i].k) = EvenOdd THEN Abs(st[i][1]) ELSE st[i][1]) = MeantWc(row, bs, i)
        /\ st[i][2] = MeantWc2(row, bs, i)
RightRings(row, bs, st) ==
    \A i \in 1..Len(bs) :
        (st[i][3] # 0) = (Inside(row, Left(bs, i)) # Inside(row, Left(bs, i + 1)))
TwoEnds(st) ==
    \A i \in 1..Len(st) :
        st[i][3] # 0 => Cardinality({j \in 1..Len(st) : st[j][3] = st[i][3] /\ st[j][4] # st[i][4]}) = 1
                        /\ Cardinality({j \in 1..Len(st) : st[j][3] = st[i][3]}) = 2

Wrong(row, bs, st) ==
    IF Len(st) # Len(bs) \/ \E i \in 1..Len(st) : Len(st[i]) # 4 THEN "a step failed"
    ELSE IF ~RightCounters(row, bs, st) THEN "counters"
    ELSE IF ~RightRings(row, bs, st) THEN "rings at the boundary"
    ELSE IF ~TwoEnds(st) THEN "two ends"
    ELSE ""

Judge(bs) == IF "quiet" \in DOMAIN Ev THEN TRUE ELSE
    \E wrong \in {TLCEval([r \in 1..Len(Rows) |-> [c \in 1..2 |-> Wrong(Rows[r], bs, Ev.st[Ev.of[r]][c])]])} :
    LET bad(c) == {r \in 1..Len(Rows) : wrong[r][c] # ""}
        named(c, impl) == IF bad(c) = {} THEN {}
                          ELSE {<<"C13", impl \o wrong[Min(bad(c))][c], <<Rows[Min(bad(c))], Ev.st[Ev.of[Min(bad(c))]][c]>> >>}
    IN Report(named(1, "P: ") \union named(2, "B: "))

Init == tid \in 1..Len(Traces) /\ pos = 1 /\ abl = <<>>

TSweep == IsEvent("sweep") /\ UNCHANGED abl
TInsert == /\ IsEvent("insert")
           /\ LET p == Ev.a[1]
                  l == [k |-> Ev.a[2], d |-> Ev.a[3]]
              IN abl' = SubSeq(abl, 1, p - 1) \o <<l, [l EXCEPT !.d = -@]>> \o SubSeq(abl, p, Len(abl))
           /\ Judge(abl')
TCross == /\ IsEvent("cross")
          /\ abl' = [abl EXCEPT ![Ev.a[1]] = abl[Ev.a[1] + 1], ![Ev.a[1] + 1] = abl[Ev.a[1]]]
          /\ Judge(abl')
TEnd == /\ IsEvent("end")
        /\ abl[Ev.a[1]].k = abl[Ev.a[1] + 1].k /\ abl[Ev.a[1]].d + abl[Ev.a[1] + 1].d = 0
        /\ abl' = SubSeq(abl, 1, Ev.a[1] - 1) \o SubSeq(abl, Ev.a[1] + 2, Len(abl))
        /\ Judge(abl')
Next == TSweep \/ TInsert \/ TCross \/ TEnd
Spec == Init /\ [][Next]_tvars
=============================================================================
