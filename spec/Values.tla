-------------------------------- MODULE Values --------------------------------
(***************************************************************************)
(* The values that are given to the clipper and that it answers with:      *)
(* points, edges, boxes, rings, polygons and multipolygons.  A value is    *)
(* its contents: however it came to be, it equals what has the same class  *)
(* and contents and nothing else, it shows its contents to every way of    *)
(* looking at it, and nothing that happens to others changes it.           *)
(*                                                                         *)
(* State: the values made so far, with                                     *)
(*   c    the class,    v    the contents,                                 *)
(*   own  no other value may be made of the same parts (shallow copies of  *)
(*        the port are).                                                   *)
(***************************************************************************)
EXTENDS Plane

Classes == {"point", "edge", "box", "ring", "polygon", "multipolygon"}
Sequences == {"ring", "polygon", "multipolygon"}
Of == [ring |-> "point", polygon |-> "ring", multipolygon |-> "polygon",
       edge |-> "point", box |-> "point"]          \* what is it made of

Contents(c, v) == IF c = "edge" /\ v[1][2] < v[2][2] THEN <<v[2], v[1]>> ELSE v

Value(c, v, own) == [c |-> c, v |-> Contents(c, v), own |-> own]

(* ------------------------------ transitions ----------------------------- *)
Make(store, c, v) == Append(store, Value(c, v, TRUE))

Shared(store, s) == [i \in 1..Len(store) |->
                       IF i \in s THEN [store[i] EXCEPT !.own = FALSE] ELSE store[i]]
CanPack(store, c, from) ==
    /\ \A k \in 1..Len(from) : store[from[k]].c = Of[c]
    /\ c \in {"edge", "box"} => Len(from) = 2
Pack(store, c, from) ==
    Append(Shared(store, Range(from)),
           Value(c, [k \in 1..Len(from) |-> store[from[k]].v], TRUE))

Copy(store, i, how) ==
    IF how = "copy" THEN Append(Shared(store, {i}), [store[i] EXCEPT !.own = FALSE])
    ELSE Append(store, [store[i] EXCEPT !.own = TRUE])

(* The place from 1 on of an index that may count from the end; 0: none. *)
PlaceOf(v, at) == IF at >= 0 /\ at < Len(v) THEN at + 1
                  ELSE IF at < 0 /\ -at <= Len(v) THEN Len(v) + at + 1 ELSE 0
Item(v, at) == v[PlaceOf(v, at)]
Take(store, i, at) ==
    IF PlaceOf(store[i].v, at) = 0 THEN store
    ELSE Append(store, [c |-> Of[store[i].c], v |-> Item(store[i].v, at), own |-> FALSE])

CanTurn(store, i) == store[i].c = "edge" /\ store[i].v[1][2] = store[i].v[2][2]
Turn(store, i) == [store EXCEPT ![i].v = <<@[2], @[1]>>]

(* A ring of the clipper joins a polygon, closed, against its direction or
   along it. *)
Joined(points, along) == IF along THEN Append(points, points[1])
                         ELSE <<points[1]>> \o Reverse(Tail(points)) \o <<points[1]>>
CanGrow(store, i) == store[i].c = "polygon" /\ store[i].own
Grow(store, i, points, along) == [store EXCEPT ![i].v = Append(@, Joined(points, along))]

(* -------------------------------- answers ------------------------------- *)
Same(a, b) == a.c = b.c /\ a.v = b.v
Alike(store) == [i \in 1..Len(store) |-> [j \in 1..Len(store) |-> Same(store[i], store[j])]]
AllContents(store) == [i \in 1..Len(store) |-> store[i].v]

(* The numbers that a value prints, in order. *)
RECURSIVE Numbers(_, _)
Numbers(c, v) ==
    IF c = "point" THEN v
    ELSE FoldLeft(LAMBDA had, part : had \o Numbers(Of[c], part), <<>>, v)

(* What a sequence shows, and whether some other values are in it. *)
Within(a, e) == e.v \in Range(a.v)
CanAskWithin(store, i, j) == store[i].c \in Sequences /\ store[j].c = Of[store[i].c]
==============================================================================
