----------------------------- MODULE StagesTrace -----------------------------
(***************************************************************************)
(* Validation of recorded stages: one event shows, for some operations on  *)
(* the same rings, what was there after the sweep, after turning the rings *)
(* and after correcting the topology, and both listings of the result.     *)
(***************************************************************************)
EXTENDS Stages, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, pos
tvars == <<tid, pos>>
Ev == Traces[tid].ev[pos]
Strict == Traces[tid].strict

Report(bad) == \A b \in bad :
    PrintT("REJECT " \o ToJson(<<Traces[tid].id, pos, b[1], b[2], b[3]>>))

RingsOfKind(k) ==
    LET mine == SelectSeq(Ev.rings, LAMBDA x : x[1] = k)
    IN SelectSeq([i \in 1..Len(mine) |-> Normal(mine[i][2])], LAMBDA r : r # <<>>)

Wrong(shown, arr, row) ==
    IF ~shown.ok THEN (IF arr.tieFree THEN "a stage fails" ELSE "")
    ELSE With(Boundary(arr, row[1], row[2], row[3]), LAMBDA boundary :
         With(IF arr.tieFree THEN SweptWrong(shown.swept, RangeOf(arr.und), boundary) ELSE "", LAMBDA swept :
         With(IF arr.tieFree THEN TurnedWrong(shown.turned, boundary) ELSE TreeWrong(shown.turned), LAMBDA turned :
         With(IF arr.tieFree THEN FinalWrong(shown.final, boundary) ELSE TreeWrong(shown.final), LAMBDA final :
            IF swept # "" THEN swept
            ELSE IF turned # "" THEN "turned: " \o turned
            ELSE IF final # "" THEN "final: " \o final
            ELSE IF shown.plain # Listing(shown.final, shown.final.top, FALSE) THEN "the listing"
            ELSE IF shown.back # Listing(shown.final, shown.final.top, TRUE) THEN "the listing backwards"
            ELSE IF shown.whole # shown.plain THEN "an operation is its stages"
            ELSE ""))))

FirstBad(wrong, c) == LET bad == {i \in 1..Len(Ev.tab) : wrong[i][c] # ""} IN IF bad = {} THEN 0 ELSE Min(bad)

Init == tid \in 1..Len(Traces) /\ pos = 1
Next ==
    /\ pos <= Len(Traces[tid].ev)
    /\ Ev.e = "stages"
    /\ pos' = pos + 1 /\ tid' = tid
    /\ \E arr \in {[Arrangement(RingsOfKind(0), RingsOfKind(1)) EXCEPT !.tieFree = @ \/ Strict]} :
       \E wrong \in {TLCEval([i \in 1..Len(Ev.tab) |->
            [c \in {4, 5} |-> Wrong(Ev.res[Ev.tab[i][c]], arr, Ev.tab[i])]])} :
         Report(UNION {LET i == FirstBad(wrong, c)
                       IN IF i = 0 THEN {}
                          ELSE {<<"C15", (IF c = 4 THEN "P: " ELSE "B: ") \o wrong[i][c], Ev.tab[i]>>} :
                       c \in {4, 5}})
Spec == Init /\ [][Next]_tvars
=============================================================================
