--------------------------- MODULE ClipperTrace ---------------------------
(***************************************************************************)
(* Validation of recorded histories of the real objects (the Python port,  *)
(* "P", and the binding of the C++ library, "B", driven in lockstep)       *)
(* against Clipper.  Every initial state is one recorded trace; every step *)
(* consumes one event, takes the corresponding action of Clipper and       *)
(* prints the clauses of the judged properties that the recorded answer    *)
(* breaks.  Verdicts are total: a bad answer does not stop the validation  *)
(* of the rest of the trace.                                               *)
(***************************************************************************)
EXTENDS Clipper, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
Judge == RangeOf(JsonDeserialize(IOEnv.JUDGE))

VARIABLES tid, pos,
          asked,  \* object -> position of the last "ops" event on it
          free    \* object -> were the contents free of ties then

tvars == <<objs, tid, pos, asked, free>>

Ev == Traces[tid].ev[pos]
IsBig == Traces[tid].big
Strict == Traces[tid].strict   \* judge ties like any other input
Judged(p) == p \in Judge

(* Reports are printed; nothing else depends on them. *)
Report(bad) == \A b \in bad :
    PrintT("REJECT " \o ToJson(<<Traces[tid].id, pos, b[1], b[2], b[3]>>))
Tag(p, cond, clause, detail) == IF Judged(p) /\ ~cond THEN {<<p, clause, detail>>} ELSE {}

IsEvent(name) == pos <= Len(Traces[tid].ev) /\ Ev.e = name
                 /\ pos' = pos + 1 /\ tid' = tid

Init == /\ tid \in 1..Len(Traces)
        /\ pos = 1
        /\ objs = <<>> /\ asked = <<>> /\ free = <<>>

----------------------------------------------------------------------------
TNew == /\ IsEvent("new")
        /\ Create(Ev.o, Ev.rev)
        /\ UNCHANGED <<asked, free>>

(* Both implementations answer an addition; P or B is <<FALSE, why>> if it raised. *)
AnswerBad(impl, answer, expected) ==
    Tag("C06", answer = expected, "return value of an addition", <<impl, answer>>)

TAdd == /\ IsEvent("add")
        /\ LET want == AddRingAnswer(Ev.ring)
           IN Report(AnswerBad("P", Ev.P, want) \union AnswerBad("B", Ev.B, want)
                     \union Tag("C04", Ev.P = Ev.B, "additions answer differently", <<Ev.P, Ev.B>>))
        /\ AddRing(Ev.o, Ev.k, Ev.ring)
        /\ UNCHANGED <<asked, free>>

TAddPolygon ==
        /\ IsEvent("addp")
        /\ LET want == AddPolygonAnswer(Ev.rings)
           IN Report(AnswerBad("P", Ev.P, want) \union AnswerBad("B", Ev.B, want)
                     \union Tag("C04", Ev.P = Ev.B, "additions answer differently", <<Ev.P, Ev.B>>))
        /\ AddPolygon(Ev.o, Ev.k, Ev.rings)
        /\ UNCHANGED <<asked, free>>

TClear == /\ IsEvent("clear")
          /\ Clear(Ev.o)
          /\ UNCHANGED <<asked, free>>

TBounds ==
        /\ IsEvent("bounds")
        /\ LET want == BoundsAnswer(objs[Ev.o])
           IN Report(Tag("C07", Ev.P = want, "bounds", <<"P", Ev.P, want>>) \union
                     Tag("C07", Ev.B = want, "bounds", <<"B", Ev.B, want>>) \union
                     Tag("C04", Ev.P = Ev.B, "bounds differ", <<Ev.P, Ev.B>>))
        /\ Ask(Ev.o)
        /\ UNCHANGED <<asked, free>>

----------------------------------------------------------------------------
(***************************************************************************)
(* An "ops" event: res is the sequence of different results, tab lists     *)
(* <<operation, subject fill, clip fill, result of P, result of B>>.       *)
(***************************************************************************)
Crashed(r) == ~r.ok /\ r.err[1] \in {"CRASH", "HANG"}

(***************************************************************************)
(* A result that can be judged: integral, and with no vertex outside of    *)
(* the bounding box of the input (rounding never leaves it).               *)
(***************************************************************************)
InBounds(box, r) ==
    \A i \in 1..Len(r.polys) : \A j \in 1..Len(r.polys[i]) : \A k \in 1..Len(r.polys[i][j]) :
        LET v == r.polys[i][j][k]
        IN box[1] <= v[1] /\ v[1] <= box[3] /\ box[2] <= v[2] /\ v[2] <= box[4]
SoundIn(box, r) == r.ok /\ Integral(r) /\ InBounds(box, r)
Sound(r) == SoundIn(BoundsAnswer(objs[Ev.o]), r)

(* The first row of the table that satisfies the predicate, or 0. *)
FirstRow(tab, Bad(_)) ==
    LET bad == {i \in 1..Len(tab) : Bad(tab[i])} IN IF bad = {} THEN 0 ELSE Min(bad)

RowReport(p, clause, row) ==
    IF row = 0 THEN {} ELSE {<<p, clause, Ev.tab[row]>>}


(* The sample points whose closed unit box misses every edge of the input. *)
JudgeC01(ob, res, isFree, pts) ==
    With(RingsEdges(ob.subj), LAMBDA es :
    With(RingsEdges(ob.clip), LAMBDA ec :
    With(SelectSeq(pts, LAMBDA h : /\ \A i \in 1..Len(es) : FarFrom(IsBig, h, es[i])
                                   /\ \A i \in 1..Len(ec) : FarFrom(IsBig, h, ec[i])), LAMBDA far :
    With(TLCEval([k \in 1..Len(far) |-> WindingOf(IsBig, far[k], es)]), LAMBDA ws :
    With(TLCEval([k \in 1..Len(far) |-> WindingOf(IsBig, far[k], ec)]), LAMBDA wc :
    With(TLCEval([i \in 1..Len(res) |->
            IF Sound(res[i])
            THEN With(ResultEdges(res[i]), LAMBDA re :
                      TLCEval([k \in 1..Len(far) |-> WindingOf(IsBig, far[k], re)]))
            ELSE <<>>]), LAMBDA wr :
        LET Fits(t, i) ==
            IF ~res[i].ok THEN ~isFree /\ ~Crashed(res[i])
            ELSE /\ Sound(res[i])
                 /\ \A k \in 1..Len(far) :
                      wr[i][k] = (IF Within(Filled(ws[k], t[2]), Filled(wc[k], t[3]), t[1])
                                  THEN 1 ELSE 0)
        IN RowReport("C01", "P: region", FirstRow(Ev.tab, LAMBDA t : ~Fits(t, t[4]))) \union
           RowReport("C01", "B: region", FirstRow(Ev.tab, LAMBDA t : ~Fits(t, t[5])))))))))

JudgeC02(arr, res) ==
    With(TLCEval([i \in 1..Len(res) |-> IF Sound(res[i]) THEN ResultEdges(res[i]) ELSE <<>>]), LAMBDA edges :
    With(TLCEval([i \in 1..Len(res) |-> RangeOf(edges[i])]), LAMBDA sets :
    With(TLCEval([i \in 1..Len(res) |-> Sound(res[i]) /\ Cardinality(sets[i]) = Len(edges[i])]), LAMBDA sound :
    With(TLCEval([i \in 1..Len(Ev.tab) |->
            LET t == Ev.tab[i]
            IN With(Boundary(arr, t[1], t[2], t[3]), LAMBDA want :
               <<sound[t[4]] /\ sets[t[4]] = want, sound[t[5]] /\ sets[t[5]] = want>>)]), LAMBDA good :
        LET row(c) == LET bad == {i \in 1..Len(Ev.tab) : ~good[i][c]}
                      IN IF bad = {} THEN 0 ELSE Min(bad)
        IN RowReport("C02", "P: boundary", row(1)) \union RowReport("C02", "B: boundary", row(2))))))

JudgeC03(res, und) ==
    With(TLCEval([i \in 1..Len(res) |->
            IF ~res[i].ok THEN {"raised"}
            ELSE IF ~Sound(res[i]) THEN {"coordinate not integral or out of bounds"}
            ELSE With(ResultEdges(res[i]), LAMBDA es :
                 With(~IsBig /\ Cardinality(RangeOf(es)) = Len(es)
                      /\ \A e \in RangeOf(es) : Und(e) \in und, LAMBDA known :
                    Invalidity(IsBig, res[i], known)))]), LAMBDA why :
        LET row(c) == FirstRow(Ev.tab, LAMBDA t : why[t[c]] # {})
            rep(impl, c) == IF row(c) = 0 THEN {}
                            ELSE {<<"C03", impl, <<why[Ev.tab[row(c)][c]], Ev.tab[row(c)]>> >>}
        IN rep("P: validity", 4) \union rep("B: validity", 5))

JudgeC04(res, isFree) ==
    RowReport("C04", "results differ",
        FirstRow(Ev.tab, LAMBDA t :
            IF isFree THEN res[t[4]] # res[t[5]] \/ ~res[t[4]].ok
            ELSE Crashed(res[t[4]]) \/ Crashed(res[t[5]])
                 \/ SafeCanon(res[t[4]]) # SafeCanon(res[t[5]])))

JudgeC10(res, isFree) ==
    LET Bad(r) == IF isFree THEN ~r.ok ELSE Crashed(r)
    IN RowReport("C10", "P: raised", FirstRow(Ev.tab, LAMBDA t : Bad(res[t[4]]))) \union
       RowReport("C10", "B: raised", FirstRow(Ev.tab, LAMBDA t : Bad(res[t[5]])))

NoArrangement == [tieFree |-> TRUE, hot |-> {}, und |-> <<>>, sides |-> <<>>]

TOps ==
    /\ IsEvent("ops")
    /\ \E arr \in {IF IsBig THEN NoArrangement
                 ELSE [ArrangementOf(objs[Ev.o]) EXCEPT !.tieFree = @ \/ Strict]} :
       \E res \in {[i \in 1..Len(Ev.res) |-> Unreversed(Ev.res[i], objs[Ev.o].rev)]} :
          /\ Report(
               (IF Judged("C01") THEN JudgeC01(objs[Ev.o], res, arr.tieFree, Ev.pts) ELSE {}) \union
               (IF Judged("C02") /\ ~IsBig /\ arr.tieFree THEN JudgeC02(arr, res) ELSE {}) \union
               (IF Judged("C03") /\ arr.tieFree THEN JudgeC03(res, RangeOf(arr.und)) ELSE {}) \union
               (IF Judged("C04") THEN JudgeC04(Ev.res, arr.tieFree) ELSE {}) \union
               (IF Judged("C10") THEN JudgeC10(Ev.res, arr.tieFree) ELSE {}))
          /\ free' = (Ev.o :> arr.tieFree) @@ free
    /\ asked' = (Ev.o :> pos) @@ asked
    /\ Ask(Ev.o)

(* The hot pixels that the ring managers of both implementations build. *)
TopToBottom(hot) == SetToSortSeq(hot, Scanned)
THot == /\ IsEvent("hot")
        /\ LET arr == ArrangementOf(objs[Ev.o])
               want == TopToBottom(arr.hot)
           IN Report(IF ~arr.tieFree THEN {}
                     ELSE Tag("C12", Ev.P = want, "hot pixels", <<"P", Ev.P>>) \union
                          Tag("C12", Ev.B = want, "hot pixels", <<"B", Ev.B>>))
        /\ Ask(Ev.o)
        /\ UNCHANGED <<asked, free>>

----------------------------------------------------------------------------
(***************************************************************************)
(* Relations between the answers of two objects.  The recorder claims that *)
(* the contents are related; the specification checks the claim first, so  *)
(* a wrong claim is a fault of the machinery and is reported as such.      *)
(***************************************************************************)
Answer(o, c, op, sf, cf) ==
    LET ev == Traces[tid].ev[asked[o]]
        i == CHOOSE k \in 1..Len(ev.tab) : ev.tab[k][1] = op /\ ev.tab[k][2] = sf
                                           /\ ev.tab[k][3] = cf
    IN ev.res[ev.tab[i][c]]

Bag(rs) == [x \in {r : r \in RangeOf(rs)} |-> Cardinality({i \in 1..Len(rs) : rs[i] = x})]
SomeRotation(r) == LET m == {i \in 1..Len(r) : \A j \in 1..Len(r) : ~LexLess(r[j], r[i])}
                       cands == {RotateTo(r, i) : i \in m}
                   IN CHOOSE c \in cands : \A d \in cands : c = d \/ ~(\E k \in 1..Len(c) :
                            (\A j \in 1..(k - 1) : c[j] = d[j]) /\ LexLess(d[k], c[k]))
SameUpToOrder(rs, ss) == Bag([i \in 1..Len(rs) |-> SomeRotation(rs[i])])
                         = Bag([i \in 1..Len(ss) |-> SomeRotation(ss[i])])
MapRings(f(_), rs) == [i \in 1..Len(rs) |-> f(rs[i])]

RelatedContents(kind, v, a, b) ==
    CASE kind = "same" ->
            a.subj = b.subj /\ a.clip = b.clip /\ a.rev = b.rev
      [] kind = "redundant" ->
            SameUpToOrder(a.subj, b.subj) /\ SameUpToOrder(a.clip, b.clip) /\ a.rev = b.rev
      [] kind = "reorder" ->
            SameUpToOrder(a.subj, b.subj) /\ SameUpToOrder(a.clip, b.clip) /\ a.rev = b.rev
      [] kind = "reverse output" ->
            a.subj = b.subj /\ a.clip = b.clip /\ a.rev # b.rev
      [] kind = "reverse input" ->
            /\ SameUpToOrder(MapRings(ReverseRing, a.subj), b.subj)
            /\ SameUpToOrder(MapRings(ReverseRing, a.clip), b.clip) /\ a.rev = b.rev
      [] kind = "swap roles" ->
            a.subj = b.clip /\ a.clip = b.subj /\ a.rev = b.rev
      [] kind = "translate" ->
            LET sh(r) == [i \in 1..Len(r) |-> <<r[i][1] + v[1], r[i][2] + v[2]>>]
            IN /\ SameUpToOrder(MapRings(sh, a.subj), b.subj)
               /\ SameUpToOrder(MapRings(sh, a.clip), b.clip) /\ a.rev = b.rev
      [] OTHER ->
            LET mp(r) == MapRing(kind, r)
            IN /\ SameUpToOrder(MapRings(mp, a.subj), b.subj)
               /\ SameUpToOrder(MapRings(mp, a.clip), b.clip) /\ a.rev = b.rev

(* The answer of b that corresponds to the answer (op, sf, cf) of a. *)
Counterpart(kind, op, sf, cf) ==
    CASE kind = "swap roles" -> <<op, cf, sf>>
      [] kind = "reverse input" -> <<op, MapFill(TRUE, sf), MapFill(TRUE, cf)>>
      [] Flips(kind) -> <<op, MapFill(TRUE, sf), MapFill(TRUE, cf)>>
      [] OTHER -> <<op, sf, cf>>
Commutes(op) == op # Subtract

ShiftResult(v, res) ==
    IF ~res.ok THEN res
    ELSE [res EXCEPT !.polys = [i \in 1..Len(res.polys) |->
            [j \in 1..Len(res.polys[i]) |->
                [k \in 1..Len(res.polys[i][j]) |->
                    <<res.polys[i][j][k][1] + v[1], res.polys[i][j][k][2] + v[2]>>]]]]

CorrespondingAnswers(kind, v, x, y) ==
    CASE kind \in {"same"} -> x = y
      [] kind = "reverse output" -> x = Unreversed(y, TRUE)
      [] kind \in {"redundant", "reorder", "reverse input", "swap roles"} -> Canon(x) = Canon(y)
      [] kind = "translate" -> Canon(ShiftResult(v, x)) = Canon(y)
      [] OTHER -> Canon(MapResult(kind, x)) = Canon(y)

PropertyOf(kind) == CASE kind = "same" -> "C05"
                      [] kind = "redundant" -> "C06"
                      [] kind = "reverse output" -> "C11"
                      [] OTHER -> "C08"

TRelate ==
    /\ IsEvent("relate")
    /\ LET a == Ev.o  b == Ev.o2
           ta == Traces[tid].ev[asked[a]].tab
           isFree == free[a] /\ free[b]
           Bad(c, t) ==
               /\ Ev.kind # "swap roles" \/ Commutes(t[1])
               /\ LET cp == Counterpart(Ev.kind, t[1], t[2], t[3])
                      x == Traces[tid].ev[asked[a]].res[t[c]]
                      y == Answer(b, c, cp[1], cp[2], cp[3])
                  IN IF ~x.ok \/ ~y.ok
                     THEN isFree \/ Crashed(x) \/ Crashed(y)
                          \/ (Ev.kind \in {"same", "reverse output"} /\ x.ok # y.ok)
                     ELSE ~(WellFormed(x) /\ WellFormed(y))
                          \/ ((isFree \/ Ev.kind \in {"same", "reverse output"})
                              /\ ~CorrespondingAnswers(Ev.kind, Ev.v, x, y))
           rowP == FirstRow(ta, LAMBDA t : Bad(4, t))
           rowB == FirstRow(ta, LAMBDA t : Bad(5, t))
           p == PropertyOf(Ev.kind)
       IN IF ~RelatedContents(Ev.kind, Ev.v, objs[a], objs[b])
          THEN PrintT("MACHINERY " \o ToJson(<<Traces[tid].id, pos, "contents are not related", Ev.kind>>))
          ELSE Report((IF rowP = 0 \/ ~Judged(p) THEN {} ELSE {<<p, "P: " \o Ev.kind, ta[rowP]>>})
                 \union (IF rowB = 0 \/ ~Judged(p) THEN {} ELSE {<<p, "B: " \o Ev.kind, ta[rowB]>>}))
    /\ UNCHANGED <<objs, asked, free>>

(***************************************************************************)
(* The laws between the operations and between the fill rules, on the      *)
(* chains (formal sums of directed edges) of one object's answers.  Every  *)
(* law is a list of <<sign, operation, subject fill, clip fill>> that sums *)
(* to zero.                                                                *)
(***************************************************************************)
Fills == 0..3
Laws ==
    LET I(s, c) == <<Intersect, s, c>>  U(s, c) == <<Unite, s, c>>
        D(s, c) == <<Subtract, s, c>>   X(s, c) == <<Xor, s, c>>
    IN \* union = intersection + symmetric difference
       {<< <<1, U(s, c)>>, <<-1, I(s, c)>>, <<-1, X(s, c)>> >> : s \in Fills, c \in Fills}
       \union \* intersection + difference = subject, whatever the clip fill
       {<< <<1, I(s, 0)>>, <<1, D(s, 0)>>, <<-1, I(s, c)>>, <<-1, D(s, c)>> >> : s \in Fills, c \in 1..3}
       \union \* union - difference = clip, whatever the subject fill
       {<< <<1, U(0, c)>>, <<-1, D(0, c)>>, <<-1, U(s, c)>>, <<1, D(s, c)>> >> : s \in 1..3, c \in Fills}
       \union \* non-zero = positive + negative, as the subject
       {<< <<1, I(1, c)>>, <<-1, I(2, c)>>, <<-1, I(3, c)>> >> : c \in Fills}
       \union
       {<< <<1, D(1, c)>>, <<-1, D(2, c)>>, <<-1, D(3, c)>> >> : c \in Fills}
       \union \* and as the clip
       {<< <<1, I(s, 1)>>, <<-1, I(s, 2)>>, <<-1, I(s, 3)>> >> : s \in Fills}

(* The table of a full "ops" event lists all combinations in this order. *)
RowOf(t) == 16 * t[1] + 4 * t[2] + t[3] + 1
FullTable(tab) == Len(tab) = 64 /\ \A i \in 1..64 : RowOf(tab[i]) = i

(* Every law as a sequence of <<sign, row of the table>>. *)
LawRows == TLCEval({[k \in 1..Len(law) |-> <<law[k][1], RowOf(law[k][2])>>] : law \in Laws})

JudgeC09(ev) ==
    With(TLCEval([i \in 1..Len(ev.res) |-> IF Sound(ev.res[i]) THEN ResultEdges(ev.res[i]) ELSE <<>>]), LAMBDA edges :
    With(SetToSeq(UNION {Support(edges[i]) : i \in 1..Len(edges)}), LAMBDA und :
    With(TLCEval([i \in 1..Len(edges) |-> ChainOn(und, edges[i])]), LAMBDA chains :
        LET Holds(law, c) ==
               /\ \A k \in 1..Len(law) : Sound(ev.res[ev.tab[law[k][2]][c]])
               /\ \A j \in 1..Len(und) :
                    0 = FoldLeft(LAMBDA acc, t : acc + t[1] * chains[ev.tab[t[2]][c]][j], 0, law)
            Named(impl, c) ==
               With({law \in LawRows : ~Holds(law, c)}, LAMBDA broken :
                    IF broken = {} THEN {} ELSE {<<"C09", impl, The(broken)>>})
        IN Named("P: law", 4) \union Named("B: law", 5))))

TLaws ==
    /\ IsEvent("laws")
    /\ \E ev \in {Traces[tid].ev[asked[Ev.o]]} :
         IF free[Ev.o] /\ Judged("C09")
         THEN IF ~FullTable(ev.tab)
              THEN PrintT("MACHINERY " \o ToJson(<<Traces[tid].id, pos, "table is not full">>))
              ELSE Report(JudgeC09(ev))
         ELSE TRUE
    /\ UNCHANGED <<objs, asked, free>>

(***************************************************************************)
(* The contents are a picture drawn by SweepPaths, whose pieces (unit      *)
(* segments <<from, to, windings on one side, windings on the other>>) tell *)
(* the result without any geometry.                                        *)
(***************************************************************************)
UnitPieces(e) ==
    LET dx == e[2][1] - e[1][1]  dy == e[2][2] - e[1][2]
        n == IF dy = 0 THEN Abs(dx) ELSE Abs(dy)
    IN IF n = 0 \/ Abs(dx) % n # 0 \/ Abs(dy) % n # 0 THEN <<e>>
       ELSE [j \in 1..n |-> <<<<e[1][1] + ((j - 1) * Sgn(dx)) * (Abs(dx) \div n),
                                e[1][2] + ((j - 1) * Sgn(dy)) * (Abs(dy) \div n)>>,
                              <<e[1][1] + (j * Sgn(dx)) * (Abs(dx) \div n),
                                e[1][2] + (j * Sgn(dy)) * (Abs(dy) \div n)>>>>]
FallsEast(p) == p[1][2] # p[2][2]      \* third: west, fourth: east; else above, below
PieceBoundary(pieces, t) ==
    UNION {LET In(w) == Within(Filled(w[1], t[2]), Filled(w[2], t[3]), t[1])
               a == In(pieces[i][3])  b == In(pieces[i][4])
               e == <<pieces[i][1], pieces[i][2]>>
           IN IF a = b THEN {} ELSE {IF a = FallsEast(pieces[i]) THEN Rev(e) ELSE e} :
           i \in 1..Len(pieces)}
TSwept ==
    /\ IsEvent("swept")
    /\ \E ev \in {Traces[tid].ev[asked[Ev.o]]} :
       \E es \in {TLCEval([i \in 1..Len(ev.res) |->
                    IF Sound(Unreversed(ev.res[i], objs[Ev.o].rev))
                    THEN FlattenSeq(LET re == ResultEdges(Unreversed(ev.res[i], objs[Ev.o].rev))
                                    IN [k \in 1..Len(re) |-> UnitPieces(re[k])])
                    ELSE <<<<<<0, 0>>, <<0, 0>>>>>>])} :
       \E good \in {TLCEval([i \in 1..Len(ev.tab) |->
                    With(PieceBoundary(Ev.pieces, ev.tab[i]), LAMBDA want :
                         [c \in {4, 5} |-> LET r == ev.tab[i][c]
                                          IN RangeOf(es[r]) = want /\ Len(es[r]) = Cardinality(want)])])} :
         LET row(c) == LET bad == {i \in 1..Len(ev.tab) : ~good[i][c]}
                       IN IF bad = {} THEN 0 ELSE Min(bad)
             rep(p, impl, c) == IF row(c) = 0 \/ ~Judged(p) THEN {}
                                ELSE {<<p, impl, ev.tab[row(c)]>>}
         IN Report(UNION {rep(p, "P: the picture's region", 4) \union rep(p, "B: the picture's region", 5) :
                          p \in {"C01", "C02"}})
    /\ UNCHANGED <<objs, asked, free>>

(***************************************************************************)
(* What was handed over or returned earlier reads the same later: inputs   *)
(* are not modified by the objects, results not by later calls.            *)
(***************************************************************************)
TReread ==
    /\ IsEvent("reread")
    /\ LET old == Traces[tid].ev[Ev.at]
           same == CASE old.e = "add" -> Ev.P = old.ring /\ Ev.B = old.ring
                     [] old.e = "addp" -> Ev.P = old.rings /\ Ev.B = old.rings
                     [] old.e = "bounds" -> Ev.P = old.P /\ Ev.B = old.B
                     [] old.e = "ops" -> Ev.res = old.res
       IN Report(Tag("C05", same, "read differently later", old.e))
    /\ UNCHANGED <<objs, asked, free>>

Next == TNew \/ TAdd \/ TAddPolygon \/ TClear \/ TBounds \/ TOps \/ THot
        \/ TRelate \/ TLaws \/ TReread \/ TSwept

Spec == Init /\ [][Next]_tvars
=============================================================================
