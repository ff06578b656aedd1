-------------------------------- MODULE Sweep --------------------------------
(***************************************************************************)
(* The sweep, abstractly.  A scan line moves over the plane; the active    *)
(* bounds are the edges that it meets, from left to right.  A bound has a  *)
(* kind (0 subject, 1 clip) and a delta: how the winding number around its *)
(* kind changes when it is passed from left to right.                      *)
(*                                                                         *)
(* The algorithm does not know winding numbers.  It keeps two counters per *)
(* bound (wc of its own kind, wc2 of the other) which it updates locally   *)
(* when bounds are inserted and when neighbours cross, and a flag (on)     *)
(* that tells whether the bound currently has a ring of the output.  This  *)
(* module states that local algorithm and what it has to achieve: the      *)
(* counters are functions of the true winding numbers, and a bound is on   *)
(* exactly when the inside of the operation is on one side of it only.     *)
(***************************************************************************)
EXTENDS SweepRules

CONSTANTS MaxBounds,       \* how many bounds are active at once
          Rows             \* the <<operation, subject fill, clip fill>> swept

VARIABLES abl,             \* sequence of [k, d, wc, wc2, on]
          row
vars == <<abl, row>>

CountersMeanWindings ==
    \A i \in 1..Len(abl) :
        /\ (IF FillOf(row, abl[i].k) = EvenOdd THEN Abs(abl[i].wc) ELSE abl[i].wc) = MeantWc(row, abl, i)
        /\ abl[i].wc2 = MeantWc2(row, abl, i)

(* A bound is on exactly when the inside changes across it. *)
OnExactlyAtTheBoundary ==
    \A i \in 1..Len(abl) :
        abl[i].on = (Inside(row, Left(abl, i)) # Inside(row, Left(abl, i + 1)))

----------------------------------------------------------------------------
Init == abl = <<>> /\ row \in Rows

Insert == \E p \in 1..(Len(abl) + 1), k \in {0, 1}, d \in {-1, 1} :
             /\ Len(abl) + 2 <= MaxBounds
             /\ abl' = InsertedAt(row, abl, p, k, d)
CrossTwo == \E i \in 1..(Len(abl) - 1) : abl' = CrossedAt(row, abl, i)
End == \E i \in 1..(Len(abl) - 1) :
          /\ abl[i].k = abl[i + 1].k /\ abl[i].d + abl[i + 1].d = 0
          /\ abl' = EndedAt(abl, i)

Next == (Insert \/ CrossTwo \/ End) /\ UNCHANGED row
Spec == Init /\ [][Next]_vars

(* Bounds that end together are both on or both off. *)
EndsAgree ==
    \A i \in 1..(Len(abl) - 1) :
        abl[i].k = abl[i + 1].k /\ abl[i].d + abl[i + 1].d = 0 =>
            \/ abl[i].on = abl[i + 1].on

Closed == Sum(abl, 0, Len(abl)) = 0 /\ Sum(abl, 1, Len(abl)) = 0
AllRows == {<<o, s, c>> : o \in 0..3, s \in 0..3, c \in 0..3}
=============================================================================
