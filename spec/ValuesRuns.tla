------------------------------ MODULE ValuesRuns ------------------------------
(***************************************************************************)
(* Histories of values, sampled by TLC over contents so few that equal and *)
(* almost equal values abound.  They are driven into the real code and the *)
(* recordings validated by ValuesTrace.                                    *)
(***************************************************************************)
EXTENDS Values, Json

CONSTANTS MaxSteps, MaxValues

VARIABLES store, log
rvars == <<store, log>>

Numerals == {-1, 0, 1, 7}
Choose(s) == RandomElement(s)
Several(n, Gen(_)) ==
    FoldLeft(LAMBDA had, k : Append(had, Gen(k)), <<>>, SubSeq(<<1, 2, 3, 4>>, 1, n))
OnePoint(k) == <<Choose(Numerals), Choose({0, 1})>>
Few(n) == IF Choose(1..6) = 1 THEN 0 ELSE Choose(1..n)
OneRing(k) == Several(Few(3), OnePoint)
OnePolygon(k) == Several(Few(2), OneRing)
RandomContents(c) ==
    CASE c = "point" -> OnePoint(0)
      [] c \in {"edge", "box"} -> Several(2, OnePoint)
      [] c = "ring" -> OneRing(0)
      [] c = "polygon" -> OnePolygon(0)
      [] OTHER -> Several(Few(2), OnePolygon)

(* The contents with a change in one place. *)
RECURSIVE Changed(_, _)
Changed(c, v) ==
    IF c = "point" THEN (IF Choose(1..2) = 1 THEN <<Choose(Numerals), v[2]>>
                         ELSE <<v[1], Choose({0, 1})>>)
    ELSE IF v = <<>> THEN RandomContents(c)
    ELSE IF c \in Sequences /\ Choose(1..4) = 1 THEN Tail(v)
    ELSE With(Choose(1..Len(v)), LAMBDA k : [v EXCEPT ![k] = Changed(Of[c], @)])

Log(entry) == log' = Append(log, entry)
Places(c) == {i \in 1..Len(store) : store[i].c = c}

MakeSome == \E c \in {Choose(Classes)} : \E v \in {RandomContents(c)} :
    store' = Make(store, c, v) /\ Log(<<"make", c, v>>)
ChangeSome == IF store = <<>> THEN MakeSome
    ELSE \E i \in {Choose(1..Len(store))} : \E v \in {Changed(store[i].c, store[i].v)} :
           store' = Make(store, store[i].c, v) /\ Log(<<"make", store[i].c, v>>)
PackSome == \E c \in {Choose(Classes \ {"point"})} :
    IF Places(Of[c]) = {} THEN MakeSome
    ELSE \E n \in {IF c \in {"edge", "box"} THEN 2 ELSE Choose(0..3)} :
         \E from \in {Several(n, LAMBDA k : Choose(Places(Of[c])))} :
           store' = Pack(store, c, from) /\ Log(<<"pack", c, from>>)
CopySome == IF store = <<>> THEN MakeSome
    ELSE \E i \in {Choose(1..Len(store))}, how \in {Choose({"copy", "deepcopy", "pickle"})} :
           store' = Copy(store, i, how) /\ Log(<<"copy", i, how>>)
TakeSome == \E s \in {{i \in 1..Len(store) : store[i].c \in Sequences}} :
    IF s = {} THEN MakeSome
    ELSE \E i \in {Choose(s)} : \E at \in {Choose((-Len(store[i].v) - 1)..(Len(store[i].v)))} :
           store' = Take(store, i, at) /\ Log(<<"take", i, at>>)
TurnSome == \E s \in {{i \in 1..Len(store) : CanTurn(store, i)}} :
    IF s = {} THEN CopySome
    ELSE \E i \in {Choose(s)} : store' = Turn(store, i) /\ Log(<<"turn", i>>)
GrowSome == \E s \in {{i \in 1..Len(store) : CanGrow(store, i) /\ Len(store[i].v) < 4}} :
    IF s = {} THEN TakeSome
    ELSE \E i \in {Choose(s)}, along \in {Choose({TRUE, FALSE})} :
         \E points \in {Several(Choose(1..4), OnePoint)} :
           store' = Grow(store, i, points, along) /\ Log(<<"grow", i, points, along>>)

Init == store = <<>> /\ log = <<>>
Next == /\ Len(log) < MaxSteps
        /\ Len(store) < MaxValues
        /\ \E c \in {RandomElement(1..13)} :
             IF c <= 2 THEN MakeSome ELSE IF c = 13 THEN ChangeSome ELSE IF c <= 5 THEN PackSome
             ELSE IF c <= 8 THEN CopySome ELSE IF c <= 10 THEN TakeSome
             ELSE IF c = 11 THEN TurnSome ELSE GrowSome
Spec == Init /\ [][Next]_rvars

(* What happens to one value leaves the others alone, and copies are alike. *)
Apart == [][\A i \in 1..Len(store) :
              store'[i].v # store[i].v =>
                /\ log'[Len(log')][1] \in {"turn", "grow"}
                /\ log'[Len(log')][2] = i]_rvars
Export == Len(log) = MaxSteps \/ Len(store) = MaxValues => PrintT("RUN " \o ToJson(log))
==============================================================================
