----------------------------- MODULE MinimumsCut -----------------------------
(***************************************************************************)
(* All rings of a small scope, built vertex by vertex: every normal one    *)
(* can be cut as Minimums asks, reversing the ring swaps the directions of *)
(* its bounds and nothing else, and the number of minima is that of its    *)
(* local extremes.  The rings are printed to be replayed.                  *)
(***************************************************************************)
EXTENDS Minimums, Json

CONSTANTS Width, Height, Most

VARIABLE path
Grid == (0..(Width - 1)) \X (0..(Height - 1))

Init == path \in {<<p>> : p \in Grid}
Next == /\ Len(path) < Most
        /\ \E p \in Grid :
              /\ p # Last(path)
              /\ p = path[1] \/ LexLess(path[1], p)
              /\ path' = Append(path, p)
Spec == Init /\ [][Next]_path

Good == IsNormal(path) /\ Len(path) > 2

Cuttable == Good => CutWrong(path, 0, Cut(path), 1) = ""

Reversible ==
    Good => LET a == Cut(path)  b == Cut(ReverseRing(path))
            IN Len(a) = Len(b)
               /\ {<<m.y, m.h, Bottom(m.l.e[1])>> : m \in {a[i] : i \in 1..Len(a)}}
                  = {<<m.y, m.h, Bottom(m.l.e[1])>> : m \in {b[i] : i \in 1..Len(b)}}

Export == Good => PrintT("RING " \o ToJson(path))
=============================================================================
