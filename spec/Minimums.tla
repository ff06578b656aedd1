------------------------------ MODULE Minimums ------------------------------
(***************************************************************************)
(* How a ring is prepared for the sweep: it is cut into bounds, chains of  *)
(* edges that climb from a local minimum to a local maximum (climbing is   *)
(* towards smaller y).  A local minimum is                                 *)
(*    [y, h, l, r] : its height, whether a horizontal edge leaves it, and  *)
(*                   its left and right bounds;                            *)
(* a bound is                                                              *)
(*    [e, s, d, k, m] : its edges <<xb, yb, xt, yt>> from the bottom up,   *)
(*                   its side (0 left, 1 right), its direction along the   *)
(*                   ring (1 the ring climbs it, -1 it descends it), the   *)
(*                   kind of its polygon, and the number of the bound that *)
(*                   meets it at the top.                                  *)
(* Bounds are numbered through the list of minima: those of the i-th are   *)
(* 2 i - 1 and 2 i.                                                        *)
(***************************************************************************)
EXTENDS Rings

Bottom(e) == <<e[1], e[2]>>
Top(e) == <<e[3], e[4]>>
Flat(e) == e[2] = e[4]

(* Bound number i of a list of minima. *)
BoundOf(ms, i) == IF i % 2 = 1 THEN ms[(i + 1) \div 2].l ELSE ms[i \div 2].r

Climbs(b) ==
    /\ \E i \in 1..Len(b.e) : ~Flat(b.e[i])
    /\ \A i \in 1..Len(b.e) : b.e[i][2] >= b.e[i][4] /\ Bottom(b.e[i]) # Top(b.e[i])
    /\ \A i \in 1..(Len(b.e) - 1) : Top(b.e[i]) = Bottom(b.e[i + 1])

(* The edges of the bound as the ring runs along them. *)
Along(b) == {IF b.d = 1 THEN <<Bottom(b.e[i]), Top(b.e[i])>>
                        ELSE <<Top(b.e[i]), Bottom(b.e[i])>> : i \in 1..Len(b.e)}

Forks(m) ==
    LET l == m.l.e[1]  r == m.r.e[1]
    IN /\ Bottom(l) = Bottom(r) /\ l[2] = m.y
       /\ ~Flat(l)
       /\ m.h = Flat(r)
       /\ IF Flat(r) THEN r[1] < r[3]
          ELSE AnyCrossSgn(Bottom(l), Top(l), Top(r)) > 0

Marked(m, k) ==
    /\ m.l.s = 0 /\ m.r.s = 1
    /\ m.l.d \in {1, -1} /\ m.r.d = -m.l.d
    /\ m.l.k = k /\ m.r.k = k

(* The bounds numbered from..to are linked in pairs that meet at the top. *)
Linked(ms, from, to) ==
    \A i \in from..to :
        LET b == BoundOf(ms, i)
        IN /\ b.m \in from..to
           /\ LET c == BoundOf(ms, b.m)
              IN /\ c.m = i
                 /\ c.d = -b.d
                 /\ Top(Last(c.e)) = Top(Last(b.e))

(***************************************************************************)
(* The minima numbered from..Len(ms) cut the ring n, which is normal.  "" *)
(* or what is wrong.  The edges of one ring may repeat, so they are        *)
(* counted and not only collected.                                         *)
(***************************************************************************)
CountOf(seq, x) == Cardinality({i \in 1..Len(seq) : seq[i] = x})
AlongSeq(b) == [i \in 1..Len(b.e) |-> IF b.d = 1 THEN <<Bottom(b.e[i]), Top(b.e[i])>>
                                      ELSE <<Top(b.e[i]), Bottom(b.e[i])>>]
CutWrong(n, k, ms, from) ==
    LET mine == from..Len(ms)
        edges == RingEdges(n)
        along == FoldLeft(LAMBDA acc, i : acc \o AlongSeq(ms[i].l) \o AlongSeq(ms[i].r),
                          <<>>, [j \in 1..(Len(ms) - from + 1) |-> from + j - 1])
    IN IF \E i \in mine : ms[i].l.e = <<>> \/ ms[i].r.e = <<>> THEN "an empty bound"
       ELSE IF ~\A i \in mine : Climbs(ms[i].l) /\ Climbs(ms[i].r) THEN "bounds climb"
       ELSE IF ~(/\ Len(along) = Len(edges)
                 /\ \A i \in 1..Len(edges) : CountOf(along, edges[i]) = CountOf(edges, edges[i]))
            THEN "every edge once"
       ELSE IF ~\A i \in mine : Forks(ms[i]) THEN "left and right"
       ELSE IF ~\A i \in mine : Marked(ms[i], k) THEN "marks"
       ELSE IF ~Linked(ms, 2 * from - 1, 2 * Len(ms)) THEN "links at the maxima"
       ELSE ""

(***************************************************************************)
(* A way to cut a ring.  Horizontal edges belong to the chain before them, *)
(* but at a minimum to the chain that is on the right.                     *)
(***************************************************************************)
FlatAt(n, i) == n[i][2] = Nxt(n, i)[2]
Wrap(n, i) == ((i + Len(n) - 1) % Len(n)) + 1
DirectionAt(n, i) == IF Nxt(n, i)[2] < n[i][2] THEN 1 ELSE -1
Label(n, i) ==
    IF ~FlatAt(n, i) THEN DirectionAt(n, i)
    ELSE LET p == DirectionAt(n, Wrap(n, i - 1))
             q == DirectionAt(n, Wrap(n, i + 1))
         IN IF p = q \/ p = 1 THEN p
            ELSE IF Nxt(n, i)[1] > n[i][1] THEN 1 ELSE -1

Cut(n) ==
    LET label == TLCEval([i \in 1..Len(n) |-> Label(n, i)])
        start == The({i \in 1..Len(n) : label[i] = -1 /\ label[Wrap(n, i - 1)] = 1
                        /\ \A j \in 1..(i - 1) : ~(label[j] = -1 /\ label[Wrap(n, j - 1)] = 1)})
        (* the chains, in the order of the ring: down, up, down, up, ... *)
        at(j) == Wrap(n, start + j - 1)
        chains == FoldLeft(
            LAMBDA acc, j :
                IF j > 1 /\ label[at(j)] = label[at(j - 1)]
                THEN [acc EXCEPT ![Len(acc)] = Append(@, at(j))]
                ELSE Append(acc, <<at(j)>>),
            <<>>, [j \in 1..Len(n) |-> j])
        edges(c) == IF label[c[1]] = 1
                    THEN [i \in 1..Len(c) |-> n[c[i]] \o Nxt(n, c[i])]
                    ELSE [i \in 1..Len(c) |-> Nxt(n, c[Len(c) + 1 - i]) \o n[c[Len(c) + 1 - i]]]
        many == Len(chains) \div 2
        UpIsLeft(i) ==
            LET d == edges(chains[2 * i - 1])[1]  u == edges(chains[2 * i])[1]
            IN Flat(d) \/ (~Flat(u) /\ AnyCrossSgn(Bottom(u), Top(u), Top(d)) > 0)
        Number(i) == (* of chain i *)
            LET m == (i + 1) \div 2
            IN IF UpIsLeft(m) = (i % 2 = 0) THEN 2 * m - 1 ELSE 2 * m
        Other(i) == (* the chain that meets chain i at the top *)
            IF i % 2 = 0 THEN (i % Len(chains)) + 1 ELSE ((i + Len(chains) - 2) % Len(chains)) + 1
        bound(i, side, k) == [e |-> edges(chains[i]), s |-> side,
                              d |-> label[chains[i][1]], k |-> k, m |-> Number(Other(i))]
    IN [i \in 1..many |->
          LET l == IF UpIsLeft(i) THEN 2 * i ELSE 2 * i - 1
              r == IF UpIsLeft(i) THEN 2 * i - 1 ELSE 2 * i
          IN [y |-> edges(chains[l])[1][2], h |-> Flat(edges(chains[r])[1]),
              l |-> bound(l, 0, 0), r |-> bound(r, 1, 0)]]
=============================================================================
