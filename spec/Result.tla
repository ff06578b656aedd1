------------------------------- MODULE Result -------------------------------
(***************************************************************************)
(* Results as the implementation returns them.                             *)
(*   [ok |-> TRUE,  polys |-> << polygon, ... >>]                          *)
(*   [ok |-> FALSE, err |-> <<class, message>>]                            *)
(* a polygon is a sequence of closed rings (first vertex repeated at the   *)
(* end), the exterior first.  Coordinates that are not integers or do not  *)
(* fit are recorded as a point of one component.                           *)
(***************************************************************************)
EXTENDS Snap

RingsOf(res) == TLCEval(FlattenSeq(res.polys))
Open(r) == SubSeq(r, 1, Len(r) - 1)
OpenEdges(r) == TLCEval([i \in 1..(Len(r) - 1) |-> <<r[i], r[i + 1]>>])
ResultEdges(res) == FoldLeft(LAMBDA acc, p : FoldLeft(LAMBDA a, r : a \o OpenEdges(r), acc, p),
                              <<>>, res.polys)

(* Is every recorded coordinate an integer. *)
Integral(res) == \A i \in 1..Len(res.polys) : \A j \in 1..Len(res.polys[i]) :
                     \A k \in 1..Len(res.polys[i][j]) : Len(res.polys[i][j][k]) = 2

Unreversed(res, rev) ==
    IF rev /\ res.ok
    THEN [res EXCEPT !.polys = [i \in 1..Len(res.polys) |->
                                  [j \in 1..Len(res.polys[i]) |-> ReverseRing(res.polys[i][j])]]]
    ELSE res

----------------------------------------------------------------------------
(* Structural validity, clause by clause. *)
ClosedRings(res) == /\ \A i \in 1..Len(res.polys) : res.polys[i] # <<>>
                    /\ \A i \in 1..Len(RingsOf(res)) :
                          LET r == RingsOf(res)[i] IN Len(r) >= 4 /\ r[1] = r[Len(r)]
SimpleVertices(res) == \A i \in 1..Len(RingsOf(res)) :
                          LET r == RingsOf(res)[i]
                          IN Cardinality(RangeOf(r)) = Len(r) - 1
Oriented(big, res) ==
    \A i \in 1..Len(res.polys) : \A j \in 1..Len(res.polys[i]) :
        Orientation(big, Open(res.polys[i][j])) = (IF j = 1 THEN 1 ELSE -1)

EdgesApart(big, es) ==
    \A i \in 1..Len(es) : \A j \in 1..(i - 1) : MeetOnlyAtEnds(big, es[i], es[j])

Middle(r) == <<r[1][1] + r[2][1], r[1][2] + r[2][2]>>

(* Holes lie inside their exterior and outside the other holes. *)
Nested(big, res) ==
    \A i \in 1..Len(res.polys) :
        LET p == res.polys[i]
        IN \A j \in 2..Len(p) :
              /\ WindingOf(big, Middle(p[j]), OpenEdges(p[1])) = 1
              /\ \A k \in 2..Len(p) : k # j =>
                    WindingOf(big, Middle(p[j]), OpenEdges(p[k])) = 0

(* No exterior lies inside another polygon. *)
PolygonEdges(p) == FoldLeft(LAMBDA a, r : a \o OpenEdges(r), <<>>, p)
Disjoint(big, res) ==
    \A i \in 1..Len(res.polys) : \A k \in 1..Len(res.polys) : k # i =>
        WindingOf(big, Middle(res.polys[i][1]), PolygonEdges(res.polys[k])) = 0

(***************************************************************************)
(* The interior of a polygon is connected: the graph of its rings and the  *)
(* vertices where they touch is a forest.  Counted per component by        *)
(* merging: a touch that joins two rings already joined closes a cycle.    *)
(***************************************************************************)
ConnectedPolygon(p) ==
    LET n == Len(p)
        vs == [j \in 1..n |-> RangeOf(p[j])]
        shared == UNION {vs[a] \intersect vs[b] : <<a, b>> \in Pairs(n)}
        links == SetToSeq({<<v, j>> \in shared \X (1..n) : v \in vs[j]})
        joined == FoldLeft(
            LAMBDA acc, l :
                IF ~acc.forest THEN acc
                ELSE LET touch == {c \in acc.comps : l[1] \in c[1] \/ l[2] \in c[2]}
                     IN IF \E c \in touch : l[1] \in c[1] /\ l[2] \in c[2]
                        THEN [acc EXCEPT !.forest = FALSE]
                        ELSE [acc EXCEPT !.comps = (acc.comps \ touch) \union
                                {<<UNION {c[1] : c \in touch} \union {l[1]},
                                   UNION {c[2] : c \in touch} \union {l[2]}>>}],
            [forest |-> TRUE, comps |-> {}], links)
    IN shared = {} \/ joined.forest
Connected(res) == \A i \in 1..Len(res.polys) : ConnectedPolygon(res.polys[i])

(***************************************************************************)
(* The names of the violated clauses.  Later clauses presuppose earlier    *)
(* ones.  knownApart: the edges are already known to meet only at ends.    *)
(***************************************************************************)
Invalidity(big, res, knownApart) ==
    IF ~Integral(res) THEN {"non-integral coordinate"}
    ELSE IF ~ClosedRings(res) THEN {"ring not closed or too short"}
    ELSE (IF SimpleVertices(res) THEN {} ELSE {"ring touches itself"}) \union
         (IF Oriented(big, res) THEN {} ELSE {"ring oriented the wrong way"}) \union
         (IF knownApart \/ EdgesApart(big, ResultEdges(res)) THEN
              (IF Nested(big, res) THEN {} ELSE {"hole outside its exterior or inside another hole"}) \union
              (IF Disjoint(big, res) THEN {} ELSE {"polygons overlap"})
          ELSE {"edges cross or overlap"}) \union
         (IF Connected(res) THEN {} ELSE {"polygon interior not connected"})

----------------------------------------------------------------------------
(* The region of a result at a sample point. *)
RegionWrong(big, res, h, expected) ==
    WindingOf(big, h, ResultEdges(res)) # (IF expected THEN 1 ELSE 0)

----------------------------------------------------------------------------
(* Canonical form: rings from their least vertex, as sets. *)
CanonRing(r) == LET o == Open(r) IN RotateTo(o, LeastIndex(o))
Canon(res) ==
    IF ~res.ok THEN res.err[1]
    ELSE {<<CanonRing(res.polys[i][1]),
            {CanonRing(res.polys[i][j]) : j \in 2..Len(res.polys[i])},
            Len(res.polys[i])>> : i \in 1..Len(res.polys)}

WellFormed(res) == res.ok => Integral(res) /\ ClosedRings(res)
(* Total: what is not well-formed stands for itself. *)
SafeCanon(res) == IF WellFormed(res) THEN <<res.ok, Canon(res)>> ELSE <<res.ok, res>>

(* The eight symmetries of the grid that keep the axes in place are four. *)
MapPoint(t, p) == CASE t = "mirror x" -> <<-p[1], p[2]>>
                    [] t = "mirror y" -> <<p[1], -p[2]>>
                    [] t = "half turn" -> <<-p[1], -p[2]>>
                    [] OTHER -> p
Flips(t) == t \in {"mirror x", "mirror y"}
MapFill(flip, f) == IF flip /\ f = Positive THEN Negative
                    ELSE IF flip /\ f = Negative THEN Positive ELSE f
MapRing(t, r) == [i \in 1..Len(r) |-> MapPoint(t, r[i])]
MapResult(t, res) ==
    IF ~res.ok THEN res
    ELSE [res EXCEPT !.polys = [i \in 1..Len(res.polys) |->
            [j \in 1..Len(res.polys[i]) |->
                IF Flips(t) THEN ReverseRing(MapRing(t, res.polys[i][j]))
                            ELSE MapRing(t, res.polys[i][j])]]]

(* The chain of a result and sums of chains, as functions on a support. *)
ChainSum(und, ess, signs) ==
    [u \in und |-> FoldLeft(LAMBDA acc, i : acc + signs[i] * Times(u, ess[i]), 0,
                            [i \in 1..Len(ess) |-> i])]
=============================================================================
