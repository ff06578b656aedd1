------------------------------ MODULE SweepPaths ------------------------------
(***************************************************************************)
(* Behaviours of the sweep, drawn as polygons.  Every step of a history    *)
(* takes a row of the plane: bounds are inserted (pointed or with a flat   *)
(* bottom), end in pairs (pointed or flat), or a group of neighbours meets *)
(* in one point and leaves it in any order, or runs along one line for a   *)
(* while.  Everything happens at integer points and keeps its distance     *)
(* from everything else, so the result of every operation is known without *)
(* any rounding: the pieces of the picture that have the inside of the     *)
(* operation on one side only.                                             *)
(*                                                                         *)
(* TLC enumerates or samples the histories and prints rings and pieces;    *)
(* the rings are given to the implementations and their answers are        *)
(* compared with the pieces (event "swept" of ClipperTrace).               *)
(***************************************************************************)
EXTENDS Snap, Json, IOUtils

CONSTANTS MaxMinima, MaxMeets, MaxBounds, Kinds, Flats, Groups, Runs

VARIABLES abl,      \* sequence of [k, d, c]: kind, delta and chain number
          chains,   \* chain number -> [k, pts]: directed open polylines
          rings,    \* finished rings as <<kind, points>>
          pieces,   \* sequence of <<from, to, left windings, right windings>>
          y,        \* the ordinate of the scan line; it moves downwards
          minima, meets,   \* how many so far
          log       \* what was done
pvars == <<abl, chains, rings, pieces, y, minima, meets, log>>

S == 4                       \* distance of neighbours
H == 2                       \* half the height of a row
At(i) == S * i
Mid(i, m) == S * i + ((m - 1) * S) \div 2     \* middle of the group i .. i+m-1

Sum(bs, k, n) == FoldLeft(LAMBDA acc, i : IF bs[i].k = k THEN acc + bs[i].d ELSE acc, 0,
                          [i \in 1..n |-> i])
Left(bs, i) == <<Sum(bs, 0, i - 1), Sum(bs, 1, i - 1)>>

(* A chain is traversed downwards at its last point, upwards at its first. *)
Extended(chs, b, p) ==
    [chs EXCEPT ![b.c].pts = IF b.d = 1 THEN Append(@, p) ELSE <<p>> \o @]
ExtendAll(chs, bs, xs, yy) ==
    FoldLeft(LAMBDA acc, i : Extended(acc, bs[i], <<xs[i], yy>>), chs, [i \in 1..Len(bs) |-> i])

(* The unit pieces of a bound that goes from x1 to x2 while y falls by h. *)
Falling(x1, x2, y1, h, wl, wr) ==
    [j \in 1..h |-> <<<<x1 + ((j - 1) * (x2 - x1)) \div h, y1 - j + 1>>,
                      <<x1 + (j * (x2 - x1)) \div h, y1 - j>>, wl, wr>>]
RowPieces(bs, from, to, y1, h) ==
    FlattenSeq([i \in 1..Len(bs) |-> Falling(from[i], to[i], y1, h, Left(bs, i), Left(bs, i + 1))])

Places(n) == [i \in 1..n |-> At(i)]

----------------------------------------------------------------------------
(* A minimum between positions p - 1 and p; the bounds from p on make room.
   The bounds that are there move in a row of height 2 * H. *)
Insert(p, k, d, flat) ==
    LET n == Len(abl)
        c == minima + 1
        to == [i \in 1..n |-> IF i < p THEN At(i) ELSE At(i + 2)]
        l == [k |-> k, d |-> d, c |-> c]
        bs == SubSeq(abl, 1, p - 1) \o <<l, [l EXCEPT !.d = -d]>> \o SubSeq(abl, p, n)
        a == <<At(p), y - 2 * H>>  b == <<At(p + 1), y - 2 * H>>  apex == <<Mid(p, 2), y - H>>
        path == IF flat THEN <<b, a>> ELSE <<b, apex, a>>   \* ends at the left bound
        out == Left(bs, p)  in == Left(bs, p + 1)
    IN /\ minima < MaxMinima
       /\ n + 2 <= MaxBounds
       /\ abl' = bs
       /\ chains' = ExtendAll(chains, abl, to, y - 2 * H) @@
                    (c :> [k |-> k, pts |-> IF d = 1 THEN path ELSE ReverseRing(path)])
       /\ pieces' = pieces \o RowPieces(abl, Places(n), to, y, 2 * H)
                    \o (IF flat
                        THEN [j \in 1..S |-> <<<<At(p) + j - 1, y - 2 * H>>, <<At(p) + j, y - 2 * H>>, out, in>>]
                        ELSE Falling(Mid(p, 2), At(p), y - H, H, out, in)
                             \o Falling(Mid(p, 2), At(p + 1), y - H, H, in, out))
       /\ y' = y - 2 * H
       /\ minima' = minima + 1
       /\ log' = Append(log, <<"insert", p, k, d, flat>>)
       /\ UNCHANGED <<rings, meets>>

(* A maximum of the bounds i and i + 1; the others close ranks. *)
Finish(chs, rs, b1, b2) ==      \* joins the ends of the two bounds
    LET f == IF b1.d = 1 THEN b1 ELSE b2    \* goes in
        g == IF b1.d = 1 THEN b2 ELSE b1    \* comes out
    IN IF f.c = g.c
       THEN <<[x \in DOMAIN chs \ {f.c} |-> chs[x]], Append(rs, <<chs[f.c].k, chs[f.c].pts>>)>>
       ELSE <<[x \in DOMAIN chs \ {f.c} |->
                  IF x = g.c THEN [chs[x] EXCEPT !.pts = chs[f.c].pts \o @] ELSE chs[x]], rs>>
Renamed(bs, from, to) == [i \in 1..Len(bs) |-> IF bs[i].c = from THEN [bs[i] EXCEPT !.c = to] ELSE bs[i]]

Finished(i, flat) ==
    LET n == Len(abl)
        b1 == abl[i]  b2 == abl[i + 1]
        f == IF b1.d = 1 THEN b1 ELSE b2
        g == IF b1.d = 1 THEN b2 ELSE b1
        rest == SubSeq(abl, 1, i - 1) \o SubSeq(abl, i + 2, n)
        from == [j \in 1..(n - 2) |-> IF j < i THEN At(j) ELSE At(j + 2)]
        apex == <<Mid(i, 2), y - H>>
        peaked == IF flat THEN chains ELSE Extended(chains, f, apex)
        joined == Finish(peaked, rings, b1, b2)
        renamed == Renamed(rest, f.c, g.c)
        out == Left(abl, i)  in == Left(abl, i + 1)
        last == IF log = <<>> THEN <<"nothing">> ELSE log[Len(log)]
    IN /\ b1.k = b2.k /\ b1.d + b2.d = 0
       \* what just begun flat must not end flat on the same line
       /\ flat => ~(last[1] = "insert" /\ last[2] = i /\ last[5])
       /\ abl' = renamed
       /\ chains' = ExtendAll(joined[1], renamed, Places(n - 2), y - 2 * H)
       /\ rings' = joined[2]
       /\ pieces' = pieces \o RowPieces(rest, from, Places(n - 2), y, 2 * H)
                    \o (IF flat
                        THEN [j \in 1..S |-> <<<<At(i) + j - 1, y>>, <<At(i) + j, y>>, in, out>>]
                        ELSE Falling(At(i), Mid(i, 2), y, H, out, in)
                             \o Falling(At(i + 1), Mid(i, 2), y, H, in, out))
       /\ y' = y - 2 * H
       /\ log' = Append(log, <<"finish", i, flat>>)
       /\ UNCHANGED <<minima, meets>>

(* The bounds i .. i+m-1 meet in a point, run on together for `run` units,
   and leave in the order of the permutation. *)
Permuted(bs, i, m, perm) ==
    [j \in 1..Len(bs) |-> IF j < i \/ j >= i + m THEN bs[j] ELSE bs[i - 1 + perm[j - i + 1]]]
Meet(i, m, perm, run) ==
    LET n == Len(abl)
        g == H                               \* falls by g each way
        inGroup(j) == i <= j /\ j < i + m
        mid == [j \in 1..n |-> IF inGroup(j) THEN Mid(i, m) ELSE At(j)]
        bs == Permuted(abl, i, m, perm)
        l == Left(abl, i)  r == Left(abl, i + m)
        met == ExtendAll(chains, abl, mid, y - g)
        ran == IF run = 0 THEN met ELSE ExtendAll(met, abl, mid, y - g - run)
    IN /\ abl' = bs
       /\ chains' = ExtendAll(ran, bs, Places(n), y - 2 * g - run)
       /\ pieces' = pieces \o RowPieces(abl, Places(n), mid, y, g)
                    \o Falling(Mid(i, m), Mid(i, m), y - g, run, l, r)
                    \o FlattenSeq([j \in 1..n |-> IF inGroup(j) THEN <<>>
                                   ELSE Falling(At(j), At(j), y - g, run, Left(abl, j), Left(abl, j + 1))])
                    \o RowPieces(bs, mid, Places(n), y - g - run, g)
       /\ y' = y - 2 * g - run
       /\ meets' = meets + 1
       /\ log' = Append(log, <<"meet", i, perm, run>>)
       /\ UNCHANGED <<rings, minima>>

Perms(m) == IF m = 2 THEN {<<1, 2>>, <<2, 1>>}
            ELSE {<<1, 2, 3>>, <<1, 3, 2>>, <<2, 1, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<3, 2, 1>>}

Init == /\ abl = <<>> /\ chains = <<>> /\ rings = <<>> /\ pieces = <<>>
        /\ y = 0 /\ minima = 0 /\ meets = 0 /\ log = <<>>

Next ==
    /\ abl # <<>> \/ minima < MaxMinima
    /\ \/ \E p \in 1..(Len(abl) + 1), k \in Kinds, d \in {-1, 1}, flat \in Flats : Insert(p, k, d, flat)
       \/ \E i \in 1..(Len(abl) - 1), flat \in Flats : Finished(i, flat)
       \/ /\ meets < MaxMeets
          /\ \E m \in Groups, run \in Runs : \E i \in 1..(Len(abl) + 1 - m), perm \in Perms(m) :
                Meet(i, m, perm, run)

Spec == Init /\ [][Next]_pvars

(***************************************************************************)
(* One random successor, for sampling long histories: when the budget is   *)
(* used up, pairs that can end do, and others cross until some can.        *)
(***************************************************************************)
Ends == {i \in 1..(Len(abl) - 1) : abl[i].k = abl[i + 1].k /\ abl[i].d + abl[i + 1].d = 0}
(* Neighbours i, i + 1 that are between two bounds which could end. *)
Nearest ==
    LET n == Len(abl)
        pairs == {p \in Pairs(n) : abl[p[1]].k = abl[p[2]].k /\ abl[p[1]].d + abl[p[2]].d = 0}
    IN CHOOSE p \in pairs : \A q \in pairs : p[2] - p[1] <= q[2] - q[1]
RandomInsert ==
    \E p \in {RandomElement(1..(Len(abl) + 1))}, k \in {RandomElement(Kinds)},
       d \in {RandomElement({-1, 1})}, flat \in {RandomElement(Flats)} : Insert(p, k, d, flat)
RandomMeet ==
    \E m \in {IF Len(abl) = 2 THEN 2 ELSE RandomElement(Groups)}, run \in {RandomElement(Runs)} :
    \E i \in {RandomElement(1..(Len(abl) + 1 - m))}, perm \in {RandomElement(Perms(m))} :
        Meet(i, m, perm, run)
RandomFinish == \E i \in {RandomElement(Ends)}, flat \in {RandomElement(Flats)} :
    IF flat /\ ENABLED Finished(i, TRUE) THEN Finished(i, TRUE) ELSE Finished(i, FALSE)
Approach == \E p \in {Nearest} : \E i \in {RandomElement(p[1]..(p[2] - 1))} :
               Meet(i, 2, <<2, 1>>, 0)
NextRandom ==
    /\ abl # <<>> \/ minima < MaxMinima
    /\ \E c \in {RandomElement(1..10)} :
          IF abl = <<>> \/ (c <= 4 /\ minima < MaxMinima /\ Len(abl) + 2 <= MaxBounds)
          THEN RandomInsert
          ELSE IF c <= 8 /\ meets < MaxMeets THEN RandomMeet
          ELSE IF Ends # {} THEN RandomFinish
          ELSE Approach
SpecRandom == Init /\ [][NextRandom]_pvars

----------------------------------------------------------------------------
(* Sanity of the picture. *)
Consistent ==
    /\ \A k \in {0, 1} : Sum(abl, k, Len(abl)) = 0
    /\ \A i \in 1..Len(abl) :
          LET p == chains[abl[i].c].pts
          IN /\ chains[abl[i].c].k = abl[i].k
             /\ (IF abl[i].d = 1 THEN p[Len(p)] ELSE p[1]) = <<At(i), y>>

(* A finished history: everything has ended. *)
Complete == abl = <<>> /\ minima = MaxMinima
Story == [rings |-> rings, pieces |-> pieces, log |-> log]
Export == Complete => PrintT("STORY " \o ToJson(Story))
=============================================================================
