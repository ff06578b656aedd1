------------------------------- MODULE Plane -------------------------------
(***************************************************************************)
(* Exact geometry of the integer plane.  A point is <<x, y>>, an edge is   *)
(* <<a, b>> (directed), a ring is a sequence of points read cyclically.    *)
(*                                                                         *)
(* TLC integers have 32 bits and overflow is an error, never a wrong       *)
(* answer.  The plain operators are for |coordinate| <= 500 (after the     *)
(* translation of a trace is subtracted); the operators whose name starts  *)
(* with Big use split products and are for |coordinate| <= 2^21.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

The(S) == CHOOSE x \in S : TRUE

(***************************************************************************)
(* With(v, F) is F(v).  TLC evaluates a LET at every use in some contexts; *)
(* it evaluates a value bound by a set comprehension once.                 *)
(***************************************************************************)
With(v, F(_)) == CHOOSE r \in {F(x) : x \in {v}} : TRUE

Abs(n) == IF n < 0 THEN -n ELSE n
Sgn(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

(* Floor division and remainder for a positive divisor. *)
FloorDiv(n, d) == IF n >= 0 THEN n \div d ELSE -((-n + d - 1) \div d)

Cross(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])

(***************************************************************************)
(* Sign of a*b - c*d for factors below 2^23 in magnitude: each factor is   *)
(* split as hi * 4096 + lo with 0 <= lo < 4096.                            *)
(***************************************************************************)
BigDetSgn(a, b, c, d) ==
    LET ah == FloorDiv(a, 4096)  al == a - ah * 4096
        bh == FloorDiv(b, 4096)  bl == b - bh * 4096
        ch == FloorDiv(c, 4096)  cl == c - ch * 4096
        dh == FloorDiv(d, 4096)  dl == d - dh * 4096
        lo  == al * bl - cl * dl
        mid == (ah * bl + al * bh) - (ch * dl + cl * dh) + FloorDiv(lo, 4096)
        lo1 == lo - FloorDiv(lo, 4096) * 4096
        hi  == ah * bh - ch * dh + FloorDiv(mid, 4096)
        mid1 == mid - FloorDiv(mid, 4096) * 4096
    IN IF hi # 0 THEN Sgn(hi) ELSE IF mid1 # 0 THEN 1 ELSE Sgn(lo1)

(* Sign of a*b - c*d - e, for e of at most 2^24 (used for |cross| <= bound). *)
BigDetMinusSgn(a, b, c, d, e) ==
    LET ah == FloorDiv(a, 4096)  al == a - ah * 4096
        bh == FloorDiv(b, 4096)  bl == b - bh * 4096
        ch == FloorDiv(c, 4096)  cl == c - ch * 4096
        dh == FloorDiv(d, 4096)  dl == d - dh * 4096
        lo  == al * bl - cl * dl - e
        mid == (ah * bl + al * bh) - (ch * dl + cl * dh) + FloorDiv(lo, 4096)
        lo1 == lo - FloorDiv(lo, 4096) * 4096
        hi  == ah * bh - ch * dh + FloorDiv(mid, 4096)
        mid1 == mid - FloorDiv(mid, 4096) * 4096
    IN IF hi # 0 THEN Sgn(hi) ELSE IF mid1 # 0 THEN 1 ELSE Sgn(lo1)

BigCrossSgn(a, b, c) ==
    BigDetSgn(b[1] - a[1], c[2] - a[2], b[2] - a[2], c[1] - a[1])

(* Fast when the differences are small, safe when they are not. *)
Small(n) == -32768 < n /\ n < 32768
AnyCrossSgn(a, b, c) ==
    IF /\ Small(b[1] - a[1]) /\ Small(c[2] - a[2])
       /\ Small(b[2] - a[2]) /\ Small(c[1] - a[1])
    THEN LET p == (b[1] - a[1]) * (c[2] - a[2])  q == (b[2] - a[2]) * (c[1] - a[1])
         IN IF p > q THEN 1 ELSE IF p < q THEN -1 ELSE 0
    ELSE BigCrossSgn(a, b, c)

CrossSgn(big, a, b, c) == IF big THEN BigCrossSgn(a, b, c) ELSE Sgn(Cross(a, b, c))

----------------------------------------------------------------------------
(* Rings and edges. *)
Nxt(r, i) == r[(i % Len(r)) + 1]
Prv(r, i) == r[((i + Len(r) - 2) % Len(r)) + 1]

RingEdges(r) == TLCEval([i \in 1..Len(r) |-> <<r[i], Nxt(r, i)>>])
RingsEdges(rs) == FoldLeft(LAMBDA acc, r : acc \o RingEdges(r), <<>>, rs)

Rev(e) == <<e[2], e[1]>>
ReverseRing(r) == TLCEval([i \in 1..Len(r) |-> r[Len(r) + 1 - i]])

(* Twice the signed area; positive is counterclockwise with y upwards. *)
Area2(r) ==
    LET o == r[1]
    IN FoldLeft(LAMBDA acc, i : acc + Cross(o, r[i], Nxt(r, i)), 0,
                [i \in 1..Len(r) |-> i])

(***************************************************************************)
(* The sign of the signed area of a simple ring: the sign of the corner at *)
(* its least vertex, (x, y)-lexicographically.                             *)
(***************************************************************************)
LexLess(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
LeastIndex(r) ==
    FoldLeft(LAMBDA acc, i : IF LexLess(r[i], r[acc]) THEN i ELSE acc, 1,
             [i \in 1..Len(r) |-> i])
Orientation(big, r) ==
    LET i == LeastIndex(r) IN CrossSgn(big, Prv(r, i), r[i], Nxt(r, i))

(***************************************************************************)
(* How often a set of directed edges winds around the point h/2 (h has     *)
(* doubled coordinates): a ray in the +x direction, edges half open in y.  *)
(* Points lying on an edge must not be asked for.                          *)
(***************************************************************************)
Dbl(p) == <<2 * p[1], 2 * p[2]>>
CrossingOf(big, h, e) ==
    LET a == Dbl(e[1])  b == Dbl(e[2])
    IN IF (a[2] <= h[2]) = (b[2] <= h[2]) THEN 0
       ELSE LET s == CrossSgn(big, a, b, h)
            IN IF b[2] > a[2] THEN (IF s > 0 THEN 1 ELSE 0)
                              ELSE (IF s < 0 THEN -1 ELSE 0)
WindingOf(big, h, es) ==
    FoldLeft(LAMBDA acc, e : acc + CrossingOf(big, h, e), 0, es)

(***************************************************************************)
(* Two segments without common points except shared end points.            *)
(***************************************************************************)
OnSegment(big, a, b, p) ==
    /\ Min2(a[1], b[1]) <= p[1] /\ p[1] <= Max2(a[1], b[1])
    /\ Min2(a[2], b[2]) <= p[2] /\ p[2] <= Max2(a[2], b[2])
    /\ CrossSgn(big, a, b, p) = 0

BoxesApart(e, f) ==
    \/ Max2(e[1][1], e[2][1]) < Min2(f[1][1], f[2][1])
    \/ Max2(f[1][1], f[2][1]) < Min2(e[1][1], e[2][1])
    \/ Max2(e[1][2], e[2][2]) < Min2(f[1][2], f[2][2])
    \/ Max2(f[1][2], f[2][2]) < Min2(e[1][2], e[2][2])

MeetOnlyAtEnds(big, e, f) ==
    \/ BoxesApart(e, f)
    \/ LET a == e[1]  b == e[2]  c == f[1]  d == f[2]
           s1 == CrossSgn(big, a, b, c)  s2 == CrossSgn(big, a, b, d)
           s3 == CrossSgn(big, c, d, a)  s4 == CrossSgn(big, c, d, b)
       IN /\ ~(s1 * s2 < 0 /\ s3 * s4 < 0)
          /\ (s1 = 0 /\ OnSegment(big, a, b, c)) => (c = a \/ c = b)
          /\ (s2 = 0 /\ OnSegment(big, a, b, d)) => (d = a \/ d = b)
          /\ (s3 = 0 /\ OnSegment(big, c, d, a)) => (a = c \/ a = d)
          /\ (s4 = 0 /\ OnSegment(big, c, d, b)) => (b = c \/ b = d)
          /\ {a, b} # {c, d}

(***************************************************************************)
(* The closed unit box around the point h/2 (h doubled) misses the edge:   *)
(* no point of the edge is within a half of it in both coordinates.        *)
(***************************************************************************)
FarFrom(big, h, e) ==
    LET a == Dbl(e[1])  b == Dbl(e[2])
        bound == Abs(b[1] - a[1]) + Abs(b[2] - a[2])
    IN \/ Min2(a[1], b[1]) > h[1] + 1 \/ Max2(a[1], b[1]) < h[1] - 1
       \/ Min2(a[2], b[2]) > h[2] + 1 \/ Max2(a[2], b[2]) < h[2] - 1
       \/ IF big
          THEN \/ BigDetMinusSgn(b[1] - a[1], h[2] - a[2],
                                 b[2] - a[2], h[1] - a[1], bound) > 0
               \/ BigDetMinusSgn(b[2] - a[2], h[1] - a[1],
                                 b[1] - a[1], h[2] - a[2], bound) > 0
          ELSE Abs(Cross(a, b, h)) > bound

(***************************************************************************)
(* Crossings.  CrossPoint(e, f) is <<den, xnum, ynum>> with den > 0: the   *)
(* common point of two non-parallel edges is e[1] + <<xnum, ynum>> / den,  *)
(* or <<0, 0, 0>> when they have none.                                     *)
(***************************************************************************)
CrossPoint(e, f) ==
    IF BoxesApart(e, f) THEN <<0, 0, 0>>
    ELSE
    LET dx1 == e[2][1] - e[1][1]  dy1 == e[2][2] - e[1][2]
        dx2 == f[2][1] - f[1][1]  dy2 == f[2][2] - f[1][2]
        ox == f[1][1] - e[1][1]   oy == f[1][2] - e[1][2]
        d0 == dx1 * dy2 - dy1 * dx2
    IN IF d0 = 0 THEN <<0, 0, 0>>
       ELSE LET sg == Sgn(d0)
                den == Abs(d0)
                s == sg * (ox * dy2 - oy * dx2)
                t == sg * (ox * dy1 - oy * dx1)
            IN IF s < 0 \/ s > den \/ t < 0 \/ t > den THEN <<0, 0, 0>>
               ELSE <<den, s * dx1, s * dy1>>

(* Nearest integer, halves upwards. *)
RoundQ(num, den) == FloorDiv(2 * num + den, 2 * den)
IsHalf(num, den) == LET n == 2 * num - den
                    IN n - FloorDiv(n, 2 * den) * 2 * den = 0
=============================================================================
