------------------------------- MODULE Protocol -------------------------------
(* The non-interactive argument of halo2: which messages go through the          *)
(* transcript in which order, which identity the verifier checks, and at which   *)
(* points it opens which polynomial. A dishonest prover deviates in one way      *)
(* (Cheat); the verifier has to accept exactly the runs without a deviation.     *)
(* A constraint system Cs is given by: adv (phase of each advice column), chal   *)
(* (phase of each challenge), fix, ins (numbers of columns), advq / fixq / insq  *)
(* (queries <<column, rotation>>), perm (equality columns <<kind, column>>),     *)
(* gates (degree of each gate polynomial), lookups ([in, tab]: degrees of the    *)
(* input and table expressions), mindeg, instlen (public values per column).     *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC, Json

CONSTANTS Cs, NW, Scheme,          \* Scheme: "gwc", "shplonk" or "ipa"
          Emit

VARIABLES round, tr, cheat
vars == <<round, tr, cheat>>

(*------------------------------- dimensions ---------------------------------*)
MaxOr(S, d) == IF S = {} THEN d ELSE Max(S)
LookupDeg(l) == Max({4, 2 + MaxOr({1} \cup Range(l.in), 1) + MaxOr({1} \cup Range(l.tab), 1)})
Degree == Max({3, Cs.mindeg} \cup {LookupDeg(Cs.lookups[i]) : i \in 1..Len(Cs.lookups)} \cup Range(Cs.gates))
Chunk == Degree - 2
Sets == (Len(Cs.perm) + Chunk - 1) \div Chunk
QueriesOf(c) == Cardinality({i \in 1..Len(Cs.advq) : Cs.advq[i][1] = c})
Blinding == Max({3} \cup {QueriesOf(c) : c \in 0..(Len(Cs.adv) - 1)}) + 2
LastRot == 0 - (Blinding + 1)
MaxPhase == MaxOr(Range(Cs.adv), 0)
L == Len(Cs.lookups)
Idx(n) == [i \in 1..n |-> i - 1]
Cat(s) == FlattenSeq(s)
Each(n, F(_)) == Cat([i \in 1..n |-> F(i - 1)])
PerWitness(F(_)) == Each(NW, F)
QueryInstance == Scheme = "ipa"

(*--------------------------------- messages ---------------------------------*)
Pt(p) == <<[k |-> "point", id |-> p]>>
Sc(p, r) == <<[k |-> "scalar", id |-> <<"ev", p, r>>]>>
Ch(c) == <<[k |-> "chal", id |-> c]>>
Common(k, p) == <<[k |-> k, id |-> p]>>

Adv(w, c) == <<"adv", w, c>>
Fixed(c) == <<"fix", c>>
Inst(w, c) == <<"inst", w, c>>
Sigma(j) == <<"sig", j>>
PZ(w, s) == <<"pz", w, s>>
LZ(w, l) == <<"lz", w, l>>
LA(w, l) == <<"la", w, l>>
LS(w, l) == <<"ls", w, l>>
H(i) == <<"h", i>>
HAll == <<"H">>
Rnd == <<"rnd">>

\* evaluations sent after x
AdvEvals(w) == Cat([i \in 1..Len(Cs.advq) |-> Sc(Adv(w, Cs.advq[i][1]), Cs.advq[i][2])])
InstEvals(w) == Cat([i \in 1..Len(Cs.insq) |-> Sc(Inst(w, Cs.insq[i][1]), Cs.insq[i][2])])
FixEvals == Cat([i \in 1..Len(Cs.fixq) |-> Sc(Fixed(Cs.fixq[i][1]), Cs.fixq[i][2])])
PermEvals(w) == Each(Sets, LAMBDA s : Sc(PZ(w, s), 0) \o Sc(PZ(w, s), 1) \o (IF s < Sets - 1 THEN Sc(PZ(w, s), LastRot) ELSE <<>>))
LookupEvals(w) == Each(L, LAMBDA l : Sc(LZ(w, l), 0) \o Sc(LZ(w, l), 1) \o Sc(LA(w, l), 0) \o Sc(LA(w, l), 0 - 1) \o Sc(LS(w, l), 0))

PhaseRound(p) == PerWitness(LAMBDA w : Each(Len(Cs.adv), LAMBDA c : IF Cs.adv[c + 1] = p THEN Pt(Adv(w, c)) ELSE <<>>))
                 \o Each(Len(Cs.chal), LAMBDA i : IF Cs.chal[i + 1] = p THEN Ch(<<"ch", i>>) ELSE <<>>)

(* what is opened: <<polynomial, rotation>>; the value is the evaluation sent *)
Q(p, r) == << <<p, r>> >>
Queries ==
  PerWitness(LAMBDA w :
    (IF QueryInstance THEN Cat([i \in 1..Len(Cs.insq) |-> Q(Inst(w, Cs.insq[i][1]), Cs.insq[i][2])]) ELSE <<>>)
    \o Cat([i \in 1..Len(Cs.advq) |-> Q(Adv(w, Cs.advq[i][1]), Cs.advq[i][2])])
    \o Each(Sets, LAMBDA s : Q(PZ(w, s), 0) \o Q(PZ(w, s), 1))
    \o Each(IF Sets = 0 THEN 0 ELSE Sets - 1, LAMBDA i : Q(PZ(w, Sets - 2 - i), LastRot))
    \o Each(L, LAMBDA l : Q(LZ(w, l), 0) \o Q(LA(w, l), 0) \o Q(LS(w, l), 0) \o Q(LA(w, l), 0 - 1) \o Q(LZ(w, l), 1)))
  \o Cat([i \in 1..Len(Cs.fixq) |-> Q(Fixed(Cs.fixq[i][1]), Cs.fixq[i][2])])
  \o Each(Len(Cs.perm), LAMBDA j : Q(Sigma(j), 0))
  \o Q(HAll, 0) \o Q(Rnd, 0)

\* rotations that differ by a multiple of the table size are the same point
Pos(r) == r % (2 ^ Cs.k)
RECURSIVE Uniq(_)
Uniq(s) == IF s = <<>> THEN <<>> ELSE LET r == Uniq(Front(s)) IN IF Contains(r, Last(s)) THEN r ELSE Append(r, Last(s))
\* GWC: one group per opening point. SHPLONK and IPA: one group per set of points a polynomial is opened at.
Points == Uniq([i \in 1..Len(Queries) |-> Pos(Queries[i][2])])
Polys == Uniq([i \in 1..Len(Queries) |-> Queries[i][1]])
PointsOf(p) == {Pos(Queries[i][2]) : i \in {j \in 1..Len(Queries) : Queries[j][1] = p}}
PointSets == Uniq([i \in 1..Len(Polys) |-> PointsOf(Polys[i])])
ByPoint == [i \in 1..Len(Points) |-> [points |-> <<Points[i]>>, polys |-> [j \in 1..Len(SelectSeq(Queries, LAMBDA q : Pos(q[2]) = Points[i])) |->
                                                                             SelectSeq(Queries, LAMBDA q : Pos(q[2]) = Points[i])[j][1]]]]
BySet == [i \in 1..Len(PointSets) |-> [points |-> SetToSeq(PointSets[i]), polys |-> SelectSeq(Polys, LAMBDA p : PointsOf(p) = PointSets[i])]]
Groups == IF Scheme = "gwc" THEN ByPoint ELSE BySet

Opening == CASE Scheme = "gwc" -> Ch(<<"open", "v">>) \o Each(Len(Points), LAMBDA i : Pt(<<"W", i>>)) \o Ch(<<"open", "u">>)
             [] Scheme = "shplonk" -> Ch(<<"open", "y">>) \o Ch(<<"open", "v">>) \o Pt(<<"W", 0>>) \o Ch(<<"open", "u">>) \o Pt(<<"W", 1>>)
             [] Scheme = "ipa" -> \* x1, x2, f, x3, one value per group, x4, then the inner product argument
                  Ch(<<"open", "x1">>) \o Ch(<<"open", "x2">>) \o Pt(<<"W", 0>>) \o Ch(<<"open", "x3">>)
                  \o Each(Len(PointSets), LAMBDA i : Sc(<<"q", i>>, 0)) \o Ch(<<"open", "x4">>)
                  \o Pt(<<"S">>) \o Ch(<<"open", "xi">>) \o Ch(<<"open", "z">>)
                  \o Each(Cs.k, LAMBDA i : Pt(<<"ipaL", i>>) \o Pt(<<"ipaR", i>>) \o Ch(<<"ipau", i>>))
                  \o Sc(<<"ipac">>, 0) \o Sc(<<"ipaf">>, 0)

Rounds ==
  << Common("common_scalar", <<"vk">>)
     \o PerWitness(LAMBDA w : Each(Cs.ins, LAMBDA c : IF QueryInstance THEN Common("common_point", Inst(w, c))
                                                 ELSE Each(Cs.instlen[w + 1][c + 1], LAMBDA i : Common("common_scalar", <<"pub", w, c, i>>)))) >>
  \o [p \in 1..(MaxPhase + 1) |-> PhaseRound(p - 1)]
  \o << Ch(<<"theta">>),
        PerWitness(LAMBDA w : Each(L, LAMBDA l : Pt(LA(w, l)) \o Pt(LS(w, l)))) \o Ch(<<"beta">>) \o Ch(<<"gamma">>),
        PerWitness(LAMBDA w : Each(Sets, LAMBDA s : Pt(PZ(w, s)))) \o PerWitness(LAMBDA w : Each(L, LAMBDA l : Pt(LZ(w, l))))
          \o Pt(Rnd) \o Ch(<<"y">>),
        Each(Degree - 1, LAMBDA i : Pt(H(i))) \o Ch(<<"x">>),
        (IF QueryInstance THEN PerWitness(InstEvals) ELSE <<>>) \o PerWitness(AdvEvals) \o FixEvals \o Sc(Rnd, 0)
          \o Each(Len(Cs.perm), LAMBDA j : Sc(Sigma(j), 0)) \o PerWitness(PermEvals) \o PerWitness(LookupEvals),
        Opening >>

(*------------------------------- the identity -------------------------------*)
One == <<"one">>
Ev(p, r) == <<"ev", p, r>>
Chal(c) == <<"chal", c>>
Mul(a, b) == <<"*", a, b>>
Add(a, b) == <<"+", a, b>>
Sub(a, b) == <<"-", a, b>>
Active == Sub(One, Add(<<"llast">>, <<"lblind">>))
ColEval(w, j) == LET c == Cs.perm[j + 1] IN
                 Ev(CASE c[1] = "a" -> Adv(w, c[2]) [] c[1] = "f" -> Fixed(c[2]) [] c[1] = "i" -> Inst(w, c[2]), 0)
InSet(s) == SelectSeq(Idx(Len(Cs.perm)), LAMBDA j : j \div Chunk = s)
Prod(first, js, F(_)) == FoldLeft(LAMBDA acc, j : Mul(acc, F(j)), first, js)
Left(w, s) == Prod(Ev(PZ(w, s), 1), InSet(s), LAMBDA j : Add(Add(ColEval(w, j), Mul(Chal(<<"beta">>), Ev(Sigma(j), 0))), Chal(<<"gamma">>)))
Right(w, s) == Prod(Ev(PZ(w, s), 0), InSet(s), LAMBDA j : Add(Add(ColEval(w, j), Mul(Mul(Chal(<<"beta">>), <<"delta", j>>), Chal(<<"x">>))), Chal(<<"gamma">>)))
Boolean(z) == Sub(Mul(z, z), z)
PermConstraints(w) ==
  IF Sets = 0 THEN <<>> ELSE
  << Mul(<<"l0">>, Sub(One, Ev(PZ(w, 0), 0))), Mul(<<"llast">>, Boolean(Ev(PZ(w, Sets - 1), 0))) >>
  \o [i \in 1..(Sets - 1) |-> Mul(<<"l0">>, Sub(Ev(PZ(w, i), 0), Ev(PZ(w, i - 1), LastRot)))]
  \o [i \in 1..Sets |-> Mul(Active, Sub(Left(w, i - 1), Right(w, i - 1)))]
Compress(w, l, side, n) == FoldLeft(LAMBDA acc, j : Add(Mul(acc, Chal(<<"theta">>)), <<side, w, l, j>>), <<"zero">>, Idx(n))
LookupConstraints(w, l) ==
  LET z == Ev(LZ(w, l), 0)  a == Ev(LA(w, l), 0)  s == Ev(LS(w, l), 0)
      lk == Cs.lookups[l + 1]
  IN << Mul(<<"l0">>, Sub(One, z)),
        Mul(<<"llast">>, Boolean(z)),
        Mul(Active, Sub(Mul(Mul(Ev(LZ(w, l), 1), Add(a, Chal(<<"beta">>))), Add(s, Chal(<<"gamma">>))),
                        Mul(Mul(z, Add(Compress(w, l, "in", Len(lk.in)), Chal(<<"beta">>))), Add(Compress(w, l, "tab", Len(lk.tab)), Chal(<<"gamma">>))))),
        Mul(<<"l0">>, Sub(a, s)),
        Mul(Active, Mul(Sub(a, s), Sub(a, Ev(LA(w, l), 0 - 1)))) >>
Constraints == PerWitness(LAMBDA w : [g \in 1..Len(Cs.gates) |-> <<"gate", w, g - 1>>] \o PermConstraints(w) \o Each(L, LAMBDA l : LookupConstraints(w, l)))

(*-------------------------------- deviations --------------------------------*)
Script == Cat(Rounds)
Sent == {i \in 1..Len(Script) : Script[i].k \in {"point", "scalar", "common_scalar", "common_point"}}
LastChal == Max({i \in 1..Len(Script) : Script[i].k = "chal"})
\* one polynomial queried twice at the same point: the two values claimed for it have to agree
Twins == {ij \in (1..Len(Queries)) \X (1..Len(Queries)) : ij[1] < ij[2] /\ Queries[ij[1]][1] = Queries[ij[2]][1] /\ Pos(Queries[ij[1]][2]) = Pos(Queries[ij[2]][2])}
Splits == UNION {{[kind |-> "split", i |-> ij[1] - 1, j |-> ij[2] - 1], [kind |-> "split", i |-> ij[2] - 1, j |-> ij[1] - 1]} : ij \in Twins}

Cheats ==
  {[kind |-> "none"]}
  \cup {[kind |-> "drop", i |-> i - 1] : i \in 1..Len(Constraints)}                  \* the identity without one constraint
  \cup {[kind |-> "reveal", i |-> i - 1] : i \in {j \in Sent : j < LastChal /\ ~(Scheme = "gwc" /\ Script[j].id[1] = "W")}}  \* a message settled after the challenges that follow it
  \cup (IF Scheme = "gwc" /\ Len(Points) > 1 THEN {[kind |-> "cancel", i |-> i - 1] : i \in 1..(Len(Points) - 1)} ELSE {})  \* two wrong openings that make up for each other if u is known early
  \cup {[kind |-> "lie", i |-> i - 1] : i \in {j \in 1..Len(Queries) : ~\E t \in Twins : t[2] = j}}                        \* a value opened that is not the one the identity was checked with
  \cup {[kind |-> "cut", i |-> n] : n \in {1, 2}}                                    \* a shorter proof
  \cup {[kind |-> "wrongopen", i |-> i - 1] : i \in 1..(IF Scheme = "gwc" THEN Len(Points) ELSE 2)}

\* A statement with another number of public values in one column (the last one is not zero). There is room for Usable values; a longer
\* statement has no place in the table, whatever the proof says about it.
Usable == 2 ^ Cs.k - (Blinding + 1)
Longer == IF QueryInstance THEN {} ELSE
          {[kind |-> "public", i |-> w, j |-> c, rows |-> r] : w \in 0..(NW - 1), c \in 0..(Cs.ins - 1), r \in {Usable, Usable + 1, 2 ^ Cs.k, 2 ^ Cs.k + 1, 2 ^ Cs.k + 3}}

(* Two equal-looking scalars exchanged, within the evaluations. *)
EvalIdx == {i \in 1..Len(Script) : Script[i].k = "scalar"}
Same(a, b) == a[2] = b[2] /\ Pos(a[3]) = Pos(b[3])
Swaps == {[kind |-> "swap", i |-> i - 1, j |-> i] : i \in {x \in EvalIdx : x + 1 \in EvalIdx /\ ~Same(Script[x].id, Script[x + 1].id)}}

Init == round = 0 /\ tr = <<>> /\ cheat \in Cheats \cup Swaps \cup Splits \cup Longer
Next == round < Len(Rounds) /\ round' = round + 1 /\ tr' = tr \o Rounds[round'] /\ UNCHANGED cheat
Spec == Init /\ [][Next]_vars
Done == round = Len(Rounds)
Accept == cheat.kind = "none" \/ (cheat.kind = "public" /\ cheat.rows <= Usable)

(*--------------------------- what the protocol binds ------------------------*)
Ids(k) == {tr[i].id : i \in {j \in 1..Len(tr) : tr[j].k = k}}
At(id) == CHOOSE i \in 1..Len(tr) : tr[i].id = id
Before(i) == {tr[j].id : j \in 1..(i - 1)}
AdvOfPhase(p) == {Adv(w, c - 1) : w \in 0..(NW - 1), c \in {x \in 1..Len(Cs.adv) : Cs.adv[x] <= p}}
Publics == IF QueryInstance THEN {Inst(w, c) : w \in 0..(NW - 1), c \in 0..(Cs.ins - 1)}
           ELSE UNION {{<<"pub", w, c, i>> : i \in 0..(Cs.instlen[w + 1][c + 1] - 1)} : w \in 0..(NW - 1), c \in 0..(Cs.ins - 1)}
Permuted == {LA(w, l) : w \in 0..(NW - 1), l \in 0..(L - 1)} \cup {LS(w, l) : w \in 0..(NW - 1), l \in 0..(L - 1)}
Products == {PZ(w, s) : w \in 0..(NW - 1), s \in 0..(Sets - 1)} \cup {LZ(w, l) : w \in 0..(NW - 1), l \in 0..(L - 1)}
Base == {<<"vk">>} \cup Publics
Evals == {<<"ev", q[1], q[2]>> : q \in {Queries[i] : i \in {j \in 1..Len(Queries) : Queries[j][1] # HAll}}}
MustPrecede(c) ==
  CASE c[1] = "ch" -> Base \cup AdvOfPhase(Cs.chal[c[2] + 1])
    [] c[1] = "theta" -> Base \cup AdvOfPhase(MaxPhase)
    [] c[1] \in {"beta", "gamma"} -> Base \cup AdvOfPhase(MaxPhase) \cup Permuted \cup {<<"theta">>}
    [] c[1] = "y" -> Base \cup AdvOfPhase(MaxPhase) \cup Permuted \cup Products \cup {<<"beta">>, <<"gamma">>, Rnd}
    [] c[1] = "x" -> Base \cup AdvOfPhase(MaxPhase) \cup Permuted \cup Products \cup {<<"y">>, Rnd} \cup {H(i) : i \in 0..(Degree - 2)}
    [] OTHER -> Base \cup {<<"x">>} \cup Evals
\* every challenge is drawn after everything it has to be independent of
Binding == \A i \in 1..Len(tr) : tr[i].k = "chal" => MustPrecede(tr[i].id) \subseteq Before(i)
\* nothing is sent twice
OnceEach == \A i, j \in 1..Len(tr) : tr[i].id = tr[j].id => i = j
RECURSIVE Leaves(_)
Leaves(e) == CASE e[1] \in {"*", "+", "-"} -> Leaves(e[2]) \cup Leaves(e[3])
               [] e[1] = "ev" -> {<<e[2], e[3]>>}
               [] OTHER -> {}
PublicEval(q) == ~QueryInstance /\ q[1][1] = "inst"
\* every evaluation the identity uses is opened, every opened value was sent, every polynomial opened was committed or is in the key
Covered == round = Len(Rounds) =>
  /\ \A i \in 1..Len(Constraints) : \A q \in Leaves(Constraints[i]) : PublicEval(q) \/ Contains(Queries, q)
  /\ \A i \in 1..Len(Queries) : Queries[i][1] = HAll \/ \E m \in 1..Len(tr) : tr[m].k = "scalar" /\ tr[m].id = <<"ev", Queries[i][1], Queries[i][2]>>
  /\ \A i \in 1..Len(Queries) : \/ Queries[i][1] = HAll \/ Queries[i][1][1] \in {"fix", "sig", "inst"}
                                \/ Queries[i][1] \in Ids("point")
\* every equality column takes part in exactly one product, and consecutive products are chained
PermCovered == /\ Cat([s \in 1..Sets |-> InSet(s - 1)]) = Idx(Len(Cs.perm))
               /\ \A s \in 0..(Sets - 1) : Len(InSet(s)) \in 1..Chunk

Export == Done /\ Emit => /\ (cheat.kind = "none" => PrintT(ToJson([doc |-> TRUE, script |-> Script, constraints |-> Constraints, queries |-> Queries, groups |-> Groups,
                                              degree |-> Degree, blinding |-> Blinding, usable |-> Usable, sets |-> Sets, splits |-> SetToSeq(Splits)])))
                          /\ PrintT(ToJson([cheat |-> cheat, accept |-> Accept]))
=============================================================================
