----------------------------- MODULE ValuesTrace -----------------------------
(***************************************************************************)
(* Validation of recorded histories of values.  Every event says what was  *)
(* done, and for both implementations all contents, which values are equal *)
(* to which (by both operators), and what the last value touched shows:    *)
(* its length, its items by every index, in order of iteration, the        *)
(* numbers that it prints, and which of the others are in it.              *)
(***************************************************************************)
EXTENDS Values, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, pos, store
tvars == <<tid, pos, store>>
Ev == Traces[tid].ev[pos]

Report(bad) == \A b \in bad :
    PrintT("REJECT " \o ToJson(<<Traces[tid].id, pos, b[1], b[2], b[3]>>))

After(s, e) ==
    CASE e.do = "make" -> Make(s, e.a[1], e.a[2])
      [] e.do = "pack" -> Pack(s, e.a[1], e.a[2])
      [] e.do = "copy" -> Copy(s, e.a[1], e.a[2])
      [] e.do = "take" -> Take(s, e.a[1], e.a[2])
      [] e.do = "turn" -> Turn(s, e.a[1])
      [] e.do = "grow" -> Grow(s, e.a[1], e.a[2], e.a[3])

Wrong(x, e, s, at) ==      \* x: what is shown; s: the values now; at: the one touched
    LET a == s[at]
        n == Len(a.v)
    IN IF "err" \in DOMAIN x THEN "raised"
       ELSE IF e.do = "take" /\ x.missing # (PlaceOf(s[e.a[1]].v, e.a[2]) = 0) THEN "index out of range"
       ELSE IF x.all # AllContents(s) THEN "contents"
       ELSE IF x.alike # Alike(s) THEN "equality"
       ELSE IF x.unlike # [i \in 1..Len(s) |-> [j \in 1..Len(s) |-> ~Same(s[i], s[j])]]
            THEN "inequality"
       ELSE IF x.numbers # Numbers(a.c, a.v) THEN "representation"
       ELSE IF a.c \notin Sequences THEN ""
       ELSE IF x.len # n THEN "length"
       ELSE IF x.items # [k \in 1..(2 * n + 2) |->
                            With(k - n - 2, LAMBDA i :
                               IF PlaceOf(a.v, i) = 0 THEN <<>> ELSE <<Item(a.v, i)>>)] THEN "items"
       ELSE IF x.iter # a.v THEN "iteration"
       ELSE IF x.within # [j \in 1..Len(s) |->
                             CanAskWithin(s, at, j) /\ Within(a, s[j])] THEN "membership"
       ELSE ""

Touched(e, s) == IF e.do \in {"turn", "grow"} THEN e.a[1]
                 ELSE IF e.do = "take" THEN e.a[1] ELSE Len(s)

Init == tid \in 1..Len(Traces) /\ pos = 1 /\ store = <<>>
Next ==
    /\ pos <= Len(Traces[tid].ev)
    /\ Ev.e = "value"
    /\ pos' = pos + 1 /\ tid' = tid
    /\ store' = After(store, Ev)
    /\ \E wrong \in {[i \in {"P", "B"} |-> Wrong(Ev[i], Ev, store', Touched(Ev, store'))]} :
         Report({<<"C17", i \o ": " \o wrong[i], <<Ev.do, Ev.a>>>>
                 : i \in {j \in {"P", "B"} : wrong[j] # ""}})
Spec == Init /\ [][Next]_tvars
=============================================================================
