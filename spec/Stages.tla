------------------------------- MODULE Stages -------------------------------
(***************************************************************************)
(* The stages of an operation.  The sweep leaves rings that may run along  *)
(* each other and through themselves; correcting the topology turns them   *)
(* into a tree of polygons; the result lists that tree.                    *)
(*   swept : sequence of rings (sequences of points)                       *)
(*   turned, final : [top, rings], a forest; a ring of it is               *)
(*     [i, p, up, ch, hole, depth, size, area2, box]: its number, points,  *)
(*     the number of its parent (-1: none) and of its children, and what   *)
(*     is remembered about it (area2 is twice its area).                   *)
(***************************************************************************)
EXTENDS Result

Ring(forest, i) == The({r \in RangeOf(forest.rings) : r.i = i})
Numbers(forest) == {r.i : r \in RangeOf(forest.rings)}

Walks(rings) == FoldLeft(LAMBDA acc, p : acc \o RingEdges(p), <<>>, rings)
Passes(edges, u) == Cardinality({i \in 1..Len(edges) : Und(edges[i]) = u})

(* Edges that are passed an odd number of times: the boundary. *)
OddEdges(edges) == {u \in Support(edges) : Passes(edges, u) % 2 = 1}
NoPoints(edges) == SelectSeq(edges, LAMBDA e : e[1] # e[2])

SweptWrong(rings, und, boundary) ==
    With(NoPoints(Walks(rings)), LAMBDA edges :
        IF ~(\A e \in RangeOf(edges) : Und(e) \in und) THEN "the sweep runs along snapped edges"
        ELSE IF OddEdges(edges) # {Und(e) : e \in boundary} THEN "the sweep follows the boundary"
        ELSE "")

(***************************************************************************)
(* A forest: parents and children agree, every ring hangs below the top,   *)
(* and what is remembered is true.                                         *)
(***************************************************************************)
RECURSIVE DepthIn(_, _, _)
DepthIn(forest, r, fuel) ==
    IF fuel = 0 THEN -1 ELSE IF r.up = -1 THEN 0
    ELSE LET d == DepthIn(forest, Ring(forest, r.up), fuel - 1) IN IF d < 0 THEN d ELSE d + 1

IsForest(forest) ==
    LET numbers == Numbers(forest)
    IN /\ Cardinality(numbers) = Len(forest.rings)
       /\ \A r \in RangeOf(forest.rings) :
            /\ r.up = -1 \/ (r.up \in numbers /\ r.up # r.i)
            /\ RangeOf(r.ch) \subseteq numbers
            /\ Cardinality(RangeOf(r.ch)) = Len(r.ch)
       /\ RangeOf(forest.top) = {r.i : r \in {s \in RangeOf(forest.rings) : s.up = -1}}
       /\ Cardinality(RangeOf(forest.top)) = Len(forest.top)
       /\ \A r \in RangeOf(forest.rings) :
            RangeOf(r.ch) = {s.i : s \in {t \in RangeOf(forest.rings) : t.up = r.i}}
       /\ \A r \in RangeOf(forest.rings) : DepthIn(forest, r, Len(forest.rings) + 1) = r.depth

BoxOf(p) == LET xs == {p[i][1] : i \in 1..Len(p)}  ys == {p[i][2] : i \in 1..Len(p)}
            IN <<Min(xs), Min(ys), Max(xs), Max(ys)>>
(* The area of a ring that is not a hole is positive; the points of such a
   ring run clockwise (with y upwards).  (The size is only up to date when
   the rings have just been turned, and nobody asks for it later.) *)
Remembered(r) ==
    /\ r.area2 = -Area2(r.p)
    /\ r.box = BoxOf(r.p)
    /\ r.hole = (r.area2 <= 0)

TreeWrong(forest) ==
    IF ~IsForest(forest) THEN "a forest"
    ELSE IF \E r \in RangeOf(forest.rings) : ~Remembered(r) THEN "what is remembered is true"
    ELSE IF \E r \in RangeOf(forest.rings) : r.area2 # 0 /\ r.hole # (r.depth % 2 = 1) THEN "holes at odd depths"
    ELSE ""

ForestEdges(forest) == Walks([i \in 1..Len(forest.rings) |-> forest.rings[i].p])

TurnedWrong(forest, boundary) ==
    With(TreeWrong(forest), LAMBDA wrong :
    With(NoPoints(ForestEdges(forest)), LAMBDA edges :
        IF wrong # "" THEN wrong
        ELSE IF \E r \in RangeOf(forest.rings) : Len(r.p) < 3 \/ r.size # Len(r.p) THEN "three points"
        ELSE IF OddEdges(edges) # {Und(e) : e \in boundary} THEN "turning keeps the boundary"
        ELSE IF \E u \in Support(edges) : Times(u, edges) # -Times(u, SetToSeq(boundary)) THEN "directed"
        ELSE ""))

FinalWrong(forest, boundary) ==
    With(TreeWrong(forest), LAMBDA wrong :
    With(ForestEdges(forest), LAMBDA edges :
        IF wrong # "" THEN wrong
        ELSE IF \E r \in RangeOf(forest.rings) : Cardinality(RangeOf(r.p)) # Len(r.p)
             THEN "a vertex once in a ring"
        ELSE IF Cardinality(RangeOf(edges)) # Len(edges)
                \/ {Rev(e) : e \in RangeOf(edges)} # boundary THEN "every edge of the boundary once"
        ELSE ""))

(***************************************************************************)
(* The listing of a forest: every ring that is not a hole, with the holes  *)
(* in it, and after it what is inside these holes.  A listed ring starts   *)
(* and ends at the first point of the ring and runs against it, or along   *)
(* it when the output is reversed.                                         *)
(***************************************************************************)
Listed(p, back) == IF back THEN p \o <<p[1]>> ELSE ReverseRing(p \o <<p[1]>>)
RECURSIVE Listing(_, _, _)
Listing(forest, numbers, back) ==
    FoldLeft(LAMBDA acc, i :
        LET r == Ring(forest, i)
        IN acc \o << <<Listed(r.p, back)>> \o [j \in 1..Len(r.ch) |-> Listed(Ring(forest, r.ch[j]).p, back)] >>
               \o FoldLeft(LAMBDA inner, c : inner \o Listing(forest, Ring(forest, c).ch, back),
                           <<>>, r.ch),
        <<>>, numbers)
=============================================================================
