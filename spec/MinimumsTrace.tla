---------------------------- MODULE MinimumsTrace ----------------------------
(***************************************************************************)
(* Validation of recorded lists of local minima: rings are added one after *)
(* another, and after each addition both implementations show the answer,  *)
(* the whole list and its scanbeams.  What was in the list stays as it     *)
(* was, and what is new cuts the added ring as Minimums asks.              *)
(***************************************************************************)
EXTENDS Minimums, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, pos, had     \* had: what P and B showed last
tvars == <<tid, pos, had>>
Ev == Traces[tid].ev[pos]

Report(bad) == \A b \in bad :
    PrintT("REJECT " \o ToJson(<<Traces[tid].id, pos, b[1], b[2], b[3]>>))

Sorted(seq) == \A i \in 1..(Len(seq) - 1) : seq[i] <= seq[i + 1]
Beams(shown) ==
    /\ Sorted(shown.beams)
    /\ Len(shown.beams) = Len(shown.ms)
    /\ \A i \in 1..Len(shown.ms) :
         CountOf(shown.beams, shown.ms[i].y)
         = Cardinality({j \in 1..Len(shown.ms) : shown.ms[j].y = shown.ms[i].y})

Wrong(shown, before, ring, k) ==
    With(Normal(ring), LAMBDA n :
        IF "err" \in DOMAIN shown THEN "the addition fails"
        ELSE IF shown.ok # (n # <<>>) THEN "accepted when not empty"
        ELSE IF SubSeq(shown.ms, 1, Len(before)) # before THEN "earlier minima stay"
        ELSE IF ~shown.ok THEN (IF Len(shown.ms) = Len(before) THEN "" ELSE "nothing of a refused ring")
        ELSE IF Len(shown.ms) = Len(before) THEN "an accepted ring has a minimum"
        ELSE IF ~Beams(shown) THEN "scanbeams"
        ELSE CutWrong(n, k, shown.ms, Len(before) + 1))

Init == tid \in 1..Len(Traces) /\ pos = 1 /\ had = [P |-> <<>>, B |-> <<>>]
Next ==
    /\ pos <= Len(Traces[tid].ev)
    /\ Ev.e = "minimums"
    /\ pos' = pos + 1 /\ tid' = tid
    /\ had' = [i \in {"P", "B"} |-> IF "err" \in DOMAIN Ev[i] THEN had[i] ELSE Ev[i].ms]
    /\ \E wrong \in {[i \in {"P", "B"} |-> Wrong(Ev[i], had[i], Ev.ring, Ev.k)]} :
         Report({<<"C14", i \o ": " \o wrong[i], Ev[i]>> : i \in {j \in {"P", "B"} : wrong[j] # ""}})
Spec == Init /\ [][Next]_tvars
=============================================================================
