------------------------------ MODULE SweepRules ------------------------------
(***************************************************************************)
(* The active bounds of the sweep and the local rules by which their       *)
(* counters are kept; see Sweep for the machine and what it achieves.      *)
(* Nothing here depends on a variable: bs is a sequence of                 *)
(* [k, d, wc, wc2, on], row the <<operation, subject fill, clip fill>>.    *)
(***************************************************************************)
EXTENDS Snap

FillOf(row, k) == row[k + 2]
Sum(bs, k, n) == FoldLeft(LAMBDA acc, i : IF bs[i].k = k THEN acc + bs[i].d ELSE acc, 0,
                          [i \in 1..n |-> i])

(* True winding numbers <<subject, clip>> just left of bound i. *)
Left(bs, i) == <<Sum(bs, 0, i - 1), Sum(bs, 1, i - 1)>>
Inside(row, w) == Within(Filled(w[1], row[2]), Filled(w[2], row[3]), row[1])

----------------------------------------------------------------------------
(* What the counters mean. *)
Farther(l, r) == IF Abs(r) > Abs(l) THEN r ELSE l
MeantWc(row, bs, i) ==
    LET b == bs[i]  l == Sum(bs, b.k, i - 1)
    IN IF FillOf(row, b.k) = EvenOdd THEN 1 ELSE Farther(l, l + b.d)
MeantWc2(row, bs, i) ==
    LET b == bs[i]  w == Sum(bs, 1 - b.k, i - 1)
    IN IF FillOf(row, 1 - b.k) = EvenOdd THEN Abs(w) % 2 ELSE w

----------------------------------------------------------------------------
(* The local rules. *)

(* Does a bound with these counters contribute (asked at a local minimum). *)
OtherSide(fill, w) == CASE fill = Positive -> w > 0
                        [] fill = Negative -> w < 0
                        [] OTHER -> w # 0
Contributes(row, b) ==
    LET own == FillOf(row, b.k)  other == FillOf(row, 1 - b.k)
    IN /\ CASE own = EvenOdd -> TRUE
            [] own = NonZero -> Abs(b.wc) = 1
            [] own = Positive -> b.wc = 1
            [] own = Negative -> b.wc = -1
       /\ CASE row[1] = Intersect -> OtherSide(other, b.wc2)
            [] row[1] = Unite -> ~OtherSide(other, b.wc2)
            [] row[1] = Subtract -> (b.k = 0) = ~OtherSide(other, b.wc2)
            [] row[1] = Xor -> TRUE

(* The counters of a bound (k, d) inserted at position p, from its left. *)
Before(bs, p, k) == {i \in 1..(p - 1) : bs[i].k = k}
InsertedWc(row, bs, p, k, d) ==
    IF Before(bs, p, k) = {} \/ FillOf(row, k) = EvenOdd THEN d
    ELSE LET e == bs[Max(Before(bs, p, k))]
         IN IF e.wc * e.d < 0
            THEN IF Abs(e.wc) > 1
                 THEN IF e.d * d < 0 THEN e.wc ELSE e.wc + d
                 ELSE d
            ELSE IF e.d * d < 0 THEN e.wc ELSE e.wc + d
InsertedWc2(row, bs, p, k) ==
    LET from == IF Before(bs, p, k) = {} THEN 0 ELSE Max(Before(bs, p, k))
        base == IF from = 0 THEN 0 ELSE bs[from].wc2
    IN FoldLeft(LAMBDA acc, i : IF FillOf(row, 1 - k) = EvenOdd
                                THEN (IF acc = 0 THEN 1 ELSE 0)
                                ELSE acc + bs[i].d,
                base, [j \in 1..(p - 1 - from) |-> from + j])

InsertedAt(row, bs, p, k, d) ==
    LET wc == InsertedWc(row, bs, p, k, d)
        wc2 == InsertedWc2(row, bs, p, k)
        l == [k |-> k, d |-> d, wc |-> wc, wc2 |-> wc2, on |-> FALSE]
        on == Contributes(row, l)
    IN SubSeq(bs, 1, p - 1)
       \o <<[l EXCEPT !.on = on], [l EXCEPT !.d = -d, !.on = on]>>
       \o SubSeq(bs, p, Len(bs))

(* The counters of two neighbours after they crossed. *)
CrossedCounters(row, a, b) ==
    IF a.k = b.k
    THEN IF FillOf(row, a.k) = EvenOdd
         THEN <<[a EXCEPT !.wc = b.wc], [b EXCEPT !.wc = a.wc]>>
         ELSE <<[a EXCEPT !.wc = IF @ + b.d = 0 THEN -@ ELSE @ + b.d],
                [b EXCEPT !.wc = IF @ - a.d = 0 THEN -@ ELSE @ - a.d]>>
    ELSE <<[a EXCEPT !.wc2 = IF FillOf(row, b.k) = EvenOdd
                             THEN (IF @ = 0 THEN 1 ELSE 0) ELSE @ + b.d],
           [b EXCEPT !.wc2 = IF FillOf(row, a.k) = EvenOdd
                             THEN (IF @ = 0 THEN 1 ELSE 0) ELSE @ - a.d]>>

Seen(fill, w) == CASE fill = Positive -> w [] fill = Negative -> -w [] OTHER -> Abs(w)

(* a and b are <<before the crossing>>; who is on afterwards: <<a, b>>. *)
OnAfterCrossing(row, a0, b0) ==
    LET c == CrossedCounters(row, a0, b0)
        a == c[1]  b == c[2]
        wa == Seen(FillOf(row, a.k), a.wc)      wb == Seen(FillOf(row, b.k), b.wc)
        wa2 == Seen(FillOf(row, 1 - a.k), a.wc2)  wb2 == Seen(FillOf(row, 1 - b.k), b.wc2)
    IN CASE a0.on /\ b0.on ->
              IF \/ wa \notin {0, 1} \/ wb \notin {0, 1}
                 \/ a.k # b.k /\ row[1] # Xor
              THEN <<FALSE, FALSE>>            \* the rings meet: a maximum
              ELSE <<TRUE, TRUE>>              \* the rings go on
         [] a0.on /\ ~b0.on ->
              IF wb \in {0, 1} THEN <<FALSE, TRUE>> ELSE <<TRUE, FALSE>>
         [] ~a0.on /\ b0.on ->
              IF wa \in {0, 1} THEN <<TRUE, FALSE>> ELSE <<FALSE, TRUE>>
         [] OTHER ->
              IF wa \in {0, 1} /\ wb \in {0, 1}
              THEN IF a.k # b.k THEN <<TRUE, TRUE>>   \* a minimum
                   ELSE LET on == wa = 1 /\ wb = 1 /\
                                  CASE row[1] = Intersect -> wa2 > 0 /\ wb2 > 0
                                    [] row[1] = Unite -> wa2 <= 0 /\ wb2 <= 0
                                    [] row[1] = Subtract ->
                                         IF a.k = 1 THEN wa2 > 0 /\ wb2 > 0
                                                    ELSE wa2 <= 0 /\ wb2 <= 0
                                    [] row[1] = Xor -> TRUE
                        IN <<on, on>>
              ELSE <<FALSE, FALSE>>

CrossedAt(row, bs, i) ==
    LET c == CrossedCounters(row, bs[i], bs[i + 1])
        on == OnAfterCrossing(row, bs[i], bs[i + 1])
    IN [bs EXCEPT ![i] = [c[2] EXCEPT !.on = on[2]],
                  ![i + 1] = [c[1] EXCEPT !.on = on[1]]]

EndedAt(bs, i) == SubSeq(bs, 1, i - 1) \o SubSeq(bs, i + 2, Len(bs))

=============================================================================
