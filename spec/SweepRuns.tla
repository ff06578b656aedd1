------------------------------ MODULE SweepRuns ------------------------------
(***************************************************************************)
(* Histories of the active bounds of Sweep, without the counters: what is  *)
(* inserted where, who crosses, who ends.  TLC enumerates all of the short *)
(* ones and samples long ones; they are driven into the real code and the  *)
(* recordings validated by SweepTrace.                                     *)
(***************************************************************************)
EXTENDS SweepRules, Json

CONSTANTS MaxBounds, MaxSteps, EveryLength

VARIABLES abl, log
rvars == <<abl, log>>

Insert(p, k, d) ==
    LET l == [k |-> k, d |-> d]
    IN /\ Len(abl) + 2 <= MaxBounds
       /\ abl' = SubSeq(abl, 1, p - 1) \o <<l, [l EXCEPT !.d = -@]>> \o SubSeq(abl, p, Len(abl))
       /\ log' = Append(log, <<"insert", p, k, d>>)
Swap(i) ==
    /\ abl' = [abl EXCEPT ![i] = abl[i + 1], ![i + 1] = abl[i]]
    /\ log' = Append(log, <<"cross", i>>)
CanEnd(i) == abl[i].k = abl[i + 1].k /\ abl[i].d + abl[i + 1].d = 0
End(i) ==
    /\ CanEnd(i)
    /\ abl' = SubSeq(abl, 1, i - 1) \o SubSeq(abl, i + 2, Len(abl))
    /\ log' = Append(log, <<"end", i>>)

Init == abl = <<>> /\ log = <<>>
Next == /\ Len(log) < MaxSteps
        /\ \/ \E p \in 1..(Len(abl) + 1), k \in {0, 1}, d \in {-1, 1} : Insert(p, k, d)
           \/ \E i \in 1..(Len(abl) - 1) : Swap(i) \/ End(i)
Spec == Init /\ [][Next]_rvars

NextRandom ==
    /\ Len(log) < MaxSteps
    /\ \E c \in {RandomElement(1..10)} :
          IF Len(abl) < 2 \/ (c <= 3 /\ Len(abl) + 2 <= MaxBounds)
          THEN \E p \in {RandomElement(1..(Len(abl) + 1))}, k \in {RandomElement({0, 1})},
                  d \in {RandomElement({-1, 1})}, alike \in {RandomElement(1..3)} :
                  (* mostly like its neighbour, which nests deep *)
                  IF p > 1 /\ alike # 1 THEN Insert(p, abl[p - 1].k, abl[p - 1].d)
                  ELSE Insert(p, k, d)
          ELSE \E i \in {RandomElement(1..(Len(abl) - 1))} :
                  IF c = 10 /\ CanEnd(i) THEN End(i) ELSE Swap(i)
SpecRandom == Init /\ [][NextRandom]_rvars

Export == log # <<>> /\ (EveryLength \/ Len(log) = MaxSteps) => PrintT("RUN " \o ToJson(log))
=============================================================================
