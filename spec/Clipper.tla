------------------------------ MODULE Clipper ------------------------------
(***************************************************************************)
(* The Wagyu object as its user sees it: a state machine over the contents *)
(* of any number of objects.  Contents are the normal forms of the rings   *)
(* that were accepted, in the order of their addition, per polygon kind.   *)
(* Asking for the bounds or for the result of an operation changes nothing.*)
(***************************************************************************)
EXTENDS Result

VARIABLE objs   \* function from object numbers to contents

SubjectKind == 0
ClipKind == 1

Fresh(rev) == [subj |-> <<>>, clip |-> <<>>, rev |-> rev]

Accepts(ring) == Normal(ring) # <<>>

WithRing(ob, kind, ring) ==
    LET n == Normal(ring)
    IN IF n = <<>> THEN ob
       ELSE IF kind = SubjectKind THEN [ob EXCEPT !.subj = Append(@, n)]
                                  ELSE [ob EXCEPT !.clip = Append(@, n)]
WithRings(ob, kind, rings) ==
    FoldLeft(LAMBDA acc, r : WithRing(acc, kind, r), ob, rings)

----------------------------------------------------------------------------
(* Actions. *)
Create(o, rev)            == objs' = (o :> Fresh(rev)) @@ objs
AddRing(o, kind, ring)    == objs' = [objs EXCEPT ![o] = WithRing(@, kind, ring)]
AddPolygon(o, kind, rings) == objs' = [objs EXCEPT ![o] = WithRings(@, kind, rings)]
Clear(o)                  == objs' = [objs EXCEPT ![o] = Fresh(@.rev)]
Ask(o)                    == UNCHANGED objs

(* Answers. *)
AddRingAnswer(ring) == Accepts(ring)
AddPolygonAnswer(rings) == \E i \in 1..Len(rings) : Accepts(rings[i])

Vertices(ob) == UNION {RangeOf(r) : r \in RangeOf(ob.subj) \union RangeOf(ob.clip)}
BoundsAnswer(ob) ==
    LET vs == Vertices(ob)
    IN IF vs = {} THEN <<0, 0, 0, 0>>
       ELSE LET xs == {v[1] : v \in vs}  ys == {v[2] : v \in vs}
            IN <<Min(xs), Min(ys), Max(xs), Max(ys)>>

Empty(ob) == ob.subj = <<>> /\ ob.clip = <<>>
ArrangementOf(ob) == Arrangement(ob.subj, ob.clip)

(* What an operation may return, given the arrangement of the contents. *)
Admissible(ob, arr, op, sf, cf, res) ==
    /\ res.ok
    /\ LET r == Unreversed(res, ob.rev)
           es == ResultEdges(r)
       IN /\ RangeOf(es) = Boundary(arr, op, sf, cf)
          /\ Cardinality(RangeOf(es)) = Len(es)
          /\ Invalidity(FALSE, r, FALSE) = {}
=============================================================================
