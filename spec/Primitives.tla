----------------------------- MODULE Primitives -----------------------------
(***************************************************************************)
(* The geometric decisions that everything else is made of, and what they  *)
(* answer in exact arithmetic.  Numbers that need not be integers are      *)
(* recorded as <<i, f>>, meaning i + f / 1024 rounded to that.             *)
(***************************************************************************)
EXTENDS Snap

Near(fix, num, den) ==   \* fix is num / den up to 1 / 1024, for den > 0
    LET d == den * fix[1] - num
    IN Abs(d) <= 2 * den /\ Abs(1024 * d + den * fix[2]) <= den

(* An edge is made of two points: its bottom has the greater y. *)
EdgeOf(p, q) == IF p[2] < q[2] THEN <<q, p>> ELSE <<p, q>>

(* The common point of two closed edges that are not parallel. *)
CrossAnswerOk(p, q, r, s, answer) ==
    With(CrossPoint(<<p, q>>, <<r, s>>), LAMBDA c :
        IF c[1] = 0 THEN answer = <<>>
        ELSE /\ Len(answer) = 2
             /\ Near(answer[1], c[1] * p[1] + c[2], c[1])
             /\ Near(answer[2], c[1] * p[2] + c[3], c[1]))

(* x at a height of the edge, and its extremes in the row of pixels there. *)
XAtOk(e, y, answer) ==
    LET dy == e[1][2] - e[2][2]     \* upwards
    IN Near(answer, dy * e[1][1] + (e[2][1] - e[1][1]) * (e[1][2] - y), dy)

RowEnds(e, y) ==     \* <<numerators at both ends of the row>>, over 2 dy
    LET dx == e[2][1] - e[1][1]
        At(h) == 2 * (e[1][2] - e[2][2]) * e[1][1] + dx * (2 * e[1][2] - h)   \* h is doubled
    IN <<At(Min2(2 * y + 1, 2 * e[1][2])), At(Max2(2 * y - 1, 2 * e[2][2]))>>
RoundDown(num, den) == -RoundQ(-num, den)        \* halves downwards
RowOk(e, y, least, most) ==
    IF Horizontal(e) THEN least = Min2(e[1][1], e[2][1]) /\ most = Max2(e[1][1], e[2][1])
    ELSE LET den == 2 * (e[1][2] - e[2][2])
             a == Min2(RowEnds(e, y)[1], RowEnds(e, y)[2])
             b == Max2(RowEnds(e, y)[1], RowEnds(e, y)[2])
         IN /\ least = RoundDown(a, den)
            /\ most = RoundQ(b, den)

ParallelEdges(e, f) ==
    BigDetSgn(e[2][1] - e[1][1], f[2][2] - f[1][2], e[2][2] - e[1][2], f[2][1] - f[1][1]) = 0

StrictlyBetween(p, q, r) == q # p /\ q # r /\ p # r /\ OnSegment(TRUE, p, r, q)

BoxIn(a, b) == b[1] <= a[1] /\ b[2] <= a[2] /\ b[3] >= a[3] /\ b[4] >= a[4]

(* Points of a ring from the bottom up, from left to right. *)
IsScan(points, ring) ==
    /\ Len(points) = Len(ring)
    /\ \A i \in 1..(Len(points) - 1) :
         points[i][2] > points[i + 1][2]
         \/ (points[i][2] = points[i + 1][2] /\ points[i][1] <= points[i + 1][1])
    /\ \A p \in {ring[i] : i \in 1..Len(ring)} :
         Cardinality({i \in 1..Len(ring) : ring[i] = p})
         = Cardinality({i \in 1..Len(points) : points[i] = p})

(***************************************************************************)
(* Is a ring inside another.  Asked for simple rings that do not cross and *)
(* have no piece of an edge in common.                                     *)
(***************************************************************************)
SimpleRing(r) ==
    /\ Len(r) >= 3
    /\ Cardinality({r[i] : i \in 1..Len(r)}) = Len(r)
    /\ LET es == RingEdges(r)
       IN \A i \in 1..Len(es) : \A j \in 1..(i - 1) : MeetOnlyAtEnds(FALSE, es[i], es[j])
Uncrossed(e, f) ==
    \/ BoxesApart(e, f)
    \/ LET a == e[1]  b == e[2]  c == f[1]  d == f[2]
           s1 == Sgn(Cross(a, b, c))  s2 == Sgn(Cross(a, b, d))
           s3 == Sgn(Cross(c, d, a))  s4 == Sgn(Cross(c, d, b))
       IN /\ ~(s1 * s2 < 0 /\ s3 * s4 < 0)
          /\ ~(s1 = 0 /\ s2 = 0
               /\ Cardinality({p \in {a, b, c, d} : OnSegment(FALSE, a, b, p) /\ OnSegment(FALSE, c, d, p)}) > 1)
RingsUncrossed(r, s) ==
    \A i \in 1..Len(r) : \A j \in 1..Len(s) :
        Uncrossed(<<r[i], Nxt(r, i)>>, <<s[j], Nxt(s, j)>>)

OnRing(h, r) ==
    \E i \in 1..Len(r) : OnSegment(FALSE, Dbl(r[i]), Dbl(Nxt(r, i)), h)
(* The other ring touches an edge at some of its vertices only; the points
   halfway between any two of these or ends show where every piece lies. *)
Probes(r, s) ==
    UNION {LET at == {r[i], Nxt(r, i)} \union
                     {q \in {s[j] : j \in 1..Len(s)} : OnSegment(FALSE, r[i], Nxt(r, i), q)}
           IN {<<p[1] + q[1], p[2] + q[2]>> : p \in at, q \in at}
           : i \in 1..Len(r)}
FreeProbes(r, s) == {h \in Probes(r, s) : ~OnRing(h, s)}
RingInside(r, s) == WindingOf(FALSE, The(FreeProbes(r, s)), RingEdges(s)) # 0
Askable(r, s) ==
    /\ SimpleRing(r) /\ SimpleRing(s) /\ RingsUncrossed(r, s) /\ FreeProbes(r, s) # {}
    /\ Cardinality({WindingOf(FALSE, h, RingEdges(s)) : h \in FreeProbes(r, s)}) = 1

(***************************************************************************)
(* Exchanging neighbours.  A sorting is a history of exchanges of          *)
(* neighbours that are in the wrong order; it ends when there are none.    *)
(***************************************************************************)
(* The sequence after the exchanges, or <<>> when one of them is not one. *)
Exchange(seq, swap, Wrong(_, _)) ==
    LET at == {i \in 1..(Len(seq) - 1) : seq[i] = swap[1] /\ seq[i + 1] = swap[2]}
    IN IF at = {} \/ ~Wrong(swap[1], swap[2]) THEN <<>>
       ELSE LET i == The(at) IN [seq EXCEPT ![i] = seq[i + 1], ![i + 1] = seq[i]]
SortedBy(seq, swaps, Wrong(_, _)) ==
    FoldLeft(LAMBDA s, swap : Exchange(s, swap, Wrong), seq, swaps)
SortOk(seq, swaps, result, Wrong(_, _)) ==
    /\ SortedBy(seq, swaps, Wrong) = result
    /\ \A i \in 1..(Len(result) - 1) : ~Wrong(result[i], result[i + 1])

(* x of an edge <<bottom, top>> at a height, as <<num, den>>. *)
XAt(e, y) == LET dy == e[1][2] - e[2][2]
             IN <<dy * e[1][1] + (e[2][1] - e[1][1]) * (e[1][2] - y), dy>>
Before(p, q) == p[1] * q[2] < q[1] * p[2]
=============================================================================
