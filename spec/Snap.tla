-------------------------------- MODULE Snap --------------------------------
(***************************************************************************)
(* Snap rounding and fill rules: what the result of an operation is.       *)
(*                                                                         *)
(* The hot pixels are the vertices and the rounded crossings.  Every edge  *)
(* is rerouted through the hot pixels whose closed unit box it meets.      *)
(* The fragments so obtained carry winding numbers on both sides; the      *)
(* result is bounded by the fragments with the inside of the operation on  *)
(* exactly one side.                                                       *)
(***************************************************************************)
EXTENDS Rings

Intersect == 0  Unite == 1  Subtract == 2  Xor == 3
EvenOdd == 0  NonZero == 1  Positive == 2  Negative == 3

Filled(w, fill) == CASE fill = EvenOdd  -> w % 2 # 0
                     [] fill = NonZero  -> w # 0
                     [] fill = Positive -> w > 0
                     [] fill = Negative -> w < 0

Within(inSubj, inClip, op) == CASE op = Intersect -> inSubj /\ inClip
                                [] op = Unite     -> inSubj \/ inClip
                                [] op = Subtract  -> inSubj /\ ~inClip
                                [] op = Xor       -> inSubj # inClip

----------------------------------------------------------------------------
Pairs(n) == {p \in (1..n) \X (1..n) : p[1] < p[2]}

(* All crossings of a sequence of edges as <<first edge's start, q>>. *)
CrossingsOf(es) ==
    LET all == {<<es[p[1]][1], CrossPoint(es[p[1]], es[p[2]])>> :
                    p \in Pairs(Len(es))}
    IN {c \in all : c[2][1] # 0}

TieFree(crossings) ==
    \A c \in crossings : /\ ~IsHalf(c[2][2], c[2][1])
                         /\ ~IsHalf(c[2][3], c[2][1])

HotPixels(es, crossings) ==
    {es[i][1] : i \in 1..Len(es)} \union
    {<<c[1][1] + RoundQ(c[2][2], c[2][1]), c[1][2] + RoundQ(c[2][3], c[2][1])>> :
        c \in crossings}

Scanned(p, q) == p[2] > q[2] \/ (p[2] = q[2] /\ p[1] < q[1])

----------------------------------------------------------------------------
(* The closed unit box of h meets the edge. *)
InBoxOf(h, e) ==
    /\ Min2(e[1][1], e[2][1]) <= h[1] /\ h[1] <= Max2(e[1][1], e[2][1])
    /\ Min2(e[1][2], e[2][2]) <= h[2] /\ h[2] <= Max2(e[1][2], e[2][2])
    /\ 2 * Abs(Cross(e[1], e[2], h)) <= Abs(e[2][1] - e[1][1]) + Abs(e[2][2] - e[1][2])

(* The order of travel along an edge: by y, then by x. *)
Along(e, p, q) ==
    LET dx == e[2][1] - e[1][1]  dy == e[2][2] - e[1][2]
    IN IF dy # 0 /\ p[2] # q[2]
       THEN (p[2] < q[2]) = (dy > 0)
       ELSE p[1] # q[1] /\ ((p[1] < q[1]) = (dx > 0))

Snapped(e, hot) == SetToSortSeq({h \in hot : InBoxOf(h, e)},
                                LAMBDA p, q : Along(e, p, q))

(* Directed fragments of a sequence of edges, with repetitions. *)
Fragments(es, hot) ==
    FoldLeft(LAMBDA acc, e :
                 LET s == Snapped(e, hot)
                 IN acc \o [i \in 1..(Len(s) - 1) |-> <<s[i], s[i + 1]>>],
             <<>>, es)

Upward(e) == e[1][2] < e[2][2] \/ (e[1][2] = e[2][2] /\ e[1][1] < e[2][1])
Und(e) == IF Upward(e) THEN e ELSE Rev(e)

(***************************************************************************)
(* A chain is a function from upward fragments to integers: how often the  *)
(* fragment is traversed upwards minus how often downwards.                *)
(***************************************************************************)
RangeOf(s) == {s[i] : i \in 1..Len(s)}
Times(e, s) == FoldLeft(LAMBDA acc, f : IF f = e THEN acc + 1
                                        ELSE IF f = Rev(e) THEN acc - 1
                                        ELSE acc, 0, s)
Support(s) == {Und(e) : e \in RangeOf(s)}
(* und is a sequence of upward fragments from here on. *)
ChainOn(und, s) == TLCEval([i \in 1..Len(und) |-> Times(und[i], s)])

(***************************************************************************)
(* The fragments to be crossed on the way from the middle of fragment u to *)
(* the far right (for a horizontal u: far up), with the sign each adds.    *)
(***************************************************************************)
Horizontal(e) == e[1][2] = e[2][2]
Beyond(m, horizontal, v) ==
    LET a == v[1]  b == v[2]
    IN IF horizontal
       THEN IF (2 * a[1] <= m[1]) = (2 * b[1] <= m[1]) THEN 0
            ELSE LET c == Cross(Dbl(a), Dbl(b), m)
                 IN IF b[1] > a[1] THEN (IF c < 0 THEN -1 ELSE 0)
                                   ELSE (IF c > 0 THEN 1 ELSE 0)
       ELSE IF (2 * a[2] <= m[2]) = (2 * b[2] <= m[2]) THEN 0
            ELSE IF Cross(Dbl(a), Dbl(b), m) > 0 THEN 1 ELSE 0

(***************************************************************************)
(* sides[i] = <<subject beyond, subject before, clip beyond, clip before>> *)
(* are the winding numbers on the two sides of the i-th fragment; beyond   *)
(* is to the right of an upward fragment and above a horizontal one.  (The *)
(* fragment itself does not count: its middle has cross product zero.)     *)
(***************************************************************************)
Sides(und, subjChain, clipChain) ==
    TLCEval([i \in 1..Len(und) |->
        With(<<und[i][1][1] + und[i][2][1], und[i][1][2] + und[i][2][2]>>, LAMBDA m :
        With(Horizontal(und[i]), LAMBDA horizontal :
        With(FoldLeftDomain(
                LAMBDA a, j :
                    LET d == Beyond(m, horizontal, und[j])
                    IN IF d = 0 THEN a
                       ELSE <<a[1] + d * subjChain[j], a[2] + d * clipChain[j]>>,
                <<0, 0>>, und), LAMBDA acc :
        LET k == IF horizontal THEN -1 ELSE 1
        IN <<acc[1], acc[1] + k * subjChain[i], acc[2], acc[2] + k * clipChain[i]>>)))])

Arrangement(subj, clip) ==
    With(RingsEdges(subj), LAMBDA es :
    With(RingsEdges(clip), LAMBDA ec :
    With(CrossingsOf(es \o ec), LAMBDA crossings :
    With(HotPixels(es \o ec, crossings), LAMBDA hot :
    With(Fragments(es, hot), LAMBDA fs :
    With(Fragments(ec, hot), LAMBDA fc :
    With(SetToSeq(Support(fs) \union Support(fc)), LAMBDA und :
    With(ChainOn(und, fs), LAMBDA subjChain :
    With(ChainOn(und, fc), LAMBDA clipChain :
        [tieFree |-> TieFree(crossings),
         hot |-> hot,
         und |-> und,
         sides |-> Sides(und, subjChain, clipChain)])))))))))

(* Directed boundary of the result: the inside is on the left. *)
Boundary(arr, op, sf, cf) ==
    UNION {LET s == arr.sides[i]
               r == Within(Filled(s[1], sf), Filled(s[3], cf), op)
               l == Within(Filled(s[2], sf), Filled(s[4], cf), op)
               u == arr.und[i]
           IN IF r = l THEN {} ELSE {IF Horizontal(u) = r THEN u ELSE Rev(u)} :
           i \in 1..Len(arr.und)}

(* Fragments are the edges of a planar graph: they meet only at their ends. *)
PlanarArrangement(und) ==
    \A i \in 1..Len(und) : \A j \in 1..(i - 1) : MeetOnlyAtEnds(FALSE, und[i], und[j])
=============================================================================
