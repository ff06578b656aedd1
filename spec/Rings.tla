------------------------------- MODULE Rings -------------------------------
(***************************************************************************)
(* The normal form of a ring: vertices that are repeated, lie on the line  *)
(* through their neighbours, or end a spike are deleted until none is      *)
(* left.  A ring whose normal form is empty bounds nothing and is refused. *)
(***************************************************************************)
EXTENDS Plane

Redundant(r, i) == AnyCrossSgn(Prv(r, i), r[i], Nxt(r, i)) = 0
RedundantIndices(r) == {i \in 1..Len(r) : Redundant(r, i)}

RECURSIVE NormalFrom(_, _)
(* Vertices before position i are known not to be redundant, except that a
   deletion can make the neighbours of the deleted vertex redundant. *)
NormalFrom(r, i) ==
    IF Len(r) = 0 THEN r
    ELSE IF i > Len(r) THEN r
    ELSE IF Redundant(r, i)
         THEN LET s == RemoveAt(r, i)
              IN IF s = <<>> THEN s
                 ELSE IF i <= 2 \/ i > Len(s) THEN NormalFrom(s, 1)
                 ELSE NormalFrom(s, i - 1)
         ELSE NormalFrom(r, i + 1)

Normal(r) == IF Len(r) < 3 THEN <<>> ELSE NormalFrom(r, 1)
IsNormal(r) == r # <<>> /\ RedundantIndices(r) = {}

(* A ring up to the choice of its first vertex. *)
RotateTo(r, i) == TLCEval([j \in 1..Len(r) |-> r[((i + j - 2) % Len(r)) + 1]])
CyclicallyEqual(r, s) ==
    /\ Len(r) = Len(s)
    /\ r = <<>> \/ \E i \in 1..Len(r) : RotateTo(r, i) = s

(* Every ring reachable by deleting redundant vertices one at a time. *)
RECURSIVE AllNormals(_)
AllNormals(r) ==
    IF r = <<>> \/ RedundantIndices(r) = {} THEN {r}
    ELSE UNION {AllNormals(RemoveAt(r, i)) : i \in RedundantIndices(r)}
=============================================================================
