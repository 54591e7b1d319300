--------------------------------- MODULE Plonk ---------------------------------
(* What it means for a circuit to be satisfied, independent of how it is laid    *)
(* out, proven or checked. A circuit has a Shape (columns, gates, lookups) and a *)
(* body built step by step: regions from a menu of templates, filled with any    *)
(* values, and links (cell = cell, cell = constant, cell = public value). NW     *)
(* witnesses of one body are proven together. Every body reached is printed with *)
(* the verdict each checker has to give.                                         *)
(* Values are polynomials in the challenges of degree < 4, written <<c0,..,c3>>  *)
(* for one challenge; a cell holds c0 + c1 * challenge.                          *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS Shape,       \* [gates, lookups, tables]
          Menu,        \* sequence of [h, sel, fix, cells]; a cell is [col, off, dom]
          Vals,        \* values of ordinary cells
          ChalVals,    \* <<c0, c1>> values of cells assigned after the challenge
          Insts,       \* possible public values: set of sequences (columns) of sequences
          Constants,   \* constants a cell may be fixed to
          NW, MaxRegions, MaxLinks,
          LinkKinds,   \* subset of {"copy", "const", "pub"}
          Again,       \* links may be repeated, turned around, and tie a cell to itself
          Emit

VARIABLES inst, regions, links
vars == <<inst, regions, links>>

P(n) == <<n, 0, 0, 0>>
PAdd(x, y) == [i \in 1..4 |-> x[i] + y[i]]
PNeg(x) == [i \in 1..4 |-> 0 - x[i]]
PScale(x, k) == [i \in 1..4 |-> k * x[i]]
PMul(x, y) == <<x[1]*y[1], x[1]*y[2] + x[2]*y[1], x[1]*y[3] + x[2]*y[2] + x[3]*y[1],
                x[1]*y[4] + x[2]*y[3] + x[3]*y[2] + x[4]*y[1]>>
Zero4 == P(0)

\* possible contents of one witness's cells of a template
Doms(t, w) == [k \in 1..Len(t.cells) |->
                 CASE t.cells[k].dom = "V" -> {<<v, 0>> : v \in Vals}
                   [] t.cells[k].dom = "C" -> ChalVals
                   [] t.cells[k].dom = "I" -> {<<inst[w][t.cells[k].icol + 1][t.cells[k].irow + 1], 0>>}
                   [] t.cells[k].dom = "K" -> {<<t.cells[k].val, 0>>}]
RECURSIVE Fill(_)
Fill(ds) == IF ds = <<>> THEN {<<>>} ELSE {<<x>> \o r : x \in Head(ds), r \in Fill(Tail(ds))}
RECURSIVE FillAll(_, _)
FillAll(t, w) == IF w > NW THEN {<<>>} ELSE {<<x>> \o r : x \in Fill(Doms(t, w)), r \in FillAll(t, w + 1)}

Init == /\ inst \in [1..NW -> Insts] /\ regions = <<>> /\ links = <<>>

AddRegion == /\ Len(regions) < MaxRegions /\ links = <<>>
             /\ \E t \in 1..Len(Menu) : \E v \in FillAll(Menu[t], 1) : regions' = Append(regions, [t |-> t, v |-> v])
             /\ UNCHANGED <<inst, links>>

Cells == {<<r, k>> : r \in 1..Len(regions), k \in 1..10} \cap
         UNION {{<<r, k>> : k \in 1..Len(Menu[regions[r].t].cells)} : r \in 1..Len(regions)}
EqCell(c) == Menu[regions[c[1]].t].cells[c[2]].eq
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Room == Len(links) < MaxLinks /\ regions # <<>>
Link(l) == /\ Again \/ ~\E i \in 1..Len(links) : links[i] = l
           /\ links' = Append(links, l) /\ UNCHANGED <<inst, regions>>
AddCopy == /\ Room /\ "copy" \in LinkKinds
           /\ \E a, b \in {c \in Cells : EqCell(c)} : (Again \/ Less(a, b)) /\ Link([kind |-> "copy", a |-> a, b |-> b])
AddConst == /\ Room /\ "const" \in LinkKinds
            /\ \E a \in {c \in Cells : EqCell(c)}, v \in Constants : Link([kind |-> "const", a |-> a, v |-> v])
AddPub == /\ Room /\ "pub" \in LinkKinds
          /\ \E a \in {c \in Cells : EqCell(c)}, col \in 1..Len(inst[1]) : \E row \in 1..Len(inst[1][col]) :
               Link([kind |-> "pub", a |-> a, col |-> col - 1, row |-> row - 1])
Next == AddRegion \/ AddCopy \/ AddConst \/ AddPub
Spec == Init /\ [][Next]_vars

(*------------------------------- satisfaction -------------------------------*)
CellVal(w, c) == regions[c[1]].v[w][c[2]]
\* contents of an advice cell of region r; cells not assigned hold zero
Adv(w, r, col, off) ==
  LET t == Menu[regions[r].t]
      k == {i \in 1..Len(t.cells) : t.cells[i].col = col /\ t.cells[i].off = off}
  IN IF k = {} THEN Zero4 ELSE LET x == CellVal(w, <<r, CHOOSE i \in k : TRUE>>) IN <<x[1], x[2], 0, 0>>
Fix(r, col, off) ==
  LET t == Menu[regions[r].t]
      k == {i \in 1..Len(t.fix) : t.fix[i][1] = col /\ t.fix[i][2] = off}
  IN IF k = {} THEN Zero4 ELSE P(t.fix[CHOOSE i \in k : TRUE][3])
SelOn(r, s, off) == LET t == Menu[regions[r].t] IN \E i \in 1..Len(t.sel) : t.sel[i] = <<s, off>>
\* public values are queried by absolute row: used only in shapes whose single region starts at row 0
Pub(w, col, row) == IF row >= 0 /\ row < Len(inst[w][col + 1]) THEN P(inst[w][col + 1][row + 1]) ELSE Zero4

RECURSIVE Eval(_, _, _, _)
Eval(e, w, r, off) ==
  CASE e[1] = "c" -> P(e[2])
    [] e[1] = "a" -> Adv(w, r, e[2], off + e[3])
    [] e[1] = "f" -> Fix(r, e[2], off + e[3])
    [] e[1] = "i" -> Pub(w, e[2], off + e[3])
    [] e[1] = "s" -> P(IF SelOn(r, e[2], off) THEN 1 ELSE 0)
    [] e[1] = "ch" -> <<0, 1, 0, 0>>
    [] e[1] = "+" -> PAdd(Eval(e[2], w, r, off), Eval(e[3], w, r, off))
    [] e[1] = "*" -> LET x == Eval(e[2], w, r, off) IN IF x = Zero4 THEN Zero4 ELSE PMul(x, Eval(e[3], w, r, off))
    [] e[1] = "-" -> PNeg(Eval(e[2], w, r, off))
    [] e[1] = "k" -> PScale(Eval(e[2], w, r, off), e[3])

Rows(r) == 0..(Menu[regions[r].t].h - 1)
GatesOk(w) == \A r \in 1..Len(regions) : \A off \in Rows(r) : \A g \in 1..Len(Shape.gates) :
                 \A p \in 1..Len(Shape.gates[g]) : Eval(Shape.gates[g][p], w, r, off) = Zero4

\* a lookup [ins, tab]: tab is "cols" with the indices of fixed tables, or expressions over all rows
TableOf(w, l) ==
  IF l.kind = "table"
  THEN {[i \in 1..Len(l.cols) |-> P(Shape.tables[l.cols[i] + 1][k])] : k \in 1..Len(Shape.tables[l.cols[1] + 1])}
  ELSE {[i \in 1..Len(l.tab) |-> Zero4]} \cup
       UNION {{[i \in 1..Len(l.tab) |-> Eval(l.tab[i], w, r, off)] : off \in Rows(r)} : r \in 1..Len(regions)}
LookupsOk(w) == \A k \in 1..Len(Shape.lookups) :
                  LET l == Shape.lookups[k]  tab == TableOf(w, l) IN
                  \A r \in 1..Len(regions) : \A off \in Rows(r) : [i \in 1..Len(l.ins) |-> Eval(l.ins[i], w, r, off)] \in tab
LinkOk(w, l) == CASE l.kind = "copy" -> CellVal(w, l.a) = CellVal(w, l.b)
                  [] l.kind = "const" -> CellVal(w, l.a) = <<l.v, 0>>
                  [] l.kind = "pub" -> CellVal(w, l.a) = <<inst[w][l.col + 1][l.row + 1], 0>>
\* beyond the regions, fixed columns and selectors are zero and the prover fills advice cells with noise: there
\* every gate has to vanish whatever the advice (noise stands for a multiple of the challenge)
RECURSIVE Noise(_)
Noise(e) ==
  CASE e[1] = "c" -> P(e[2])
    [] e[1] = "a" -> <<0, 2 * e[2] + e[3] + 5, 0, 0>>
    [] e[1] \in {"f", "s", "i"} -> Zero4
    [] e[1] = "ch" -> P(77)
    [] e[1] = "+" -> PAdd(Noise(e[2]), Noise(e[3]))
    [] e[1] = "*" -> LET x == Noise(e[2]) IN IF x = Zero4 THEN Zero4 ELSE PMul(x, Noise(e[3]))
    [] e[1] = "-" -> PNeg(Noise(e[2]))
    [] e[1] = "k" -> PScale(Noise(e[2]), e[3])
Bounded == \A g \in 1..Len(Shape.gates) : \A p \in 1..Len(Shape.gates[g]) : Noise(Shape.gates[g][p]) = Zero4
Sat(w) == Bounded /\ GatesOk(w) /\ LookupsOk(w) /\ \A i \in 1..Len(links) : LinkOk(w, links[i])

\* links only ever restrict: what a body with more links accepts, the body with fewer accepts
Monotone == [][regions' = regions => \A w \in 1..NW : Sat(w)' => Sat(w)]_vars
\* links are an equivalence: their order and direction do not matter, and they chain
Chains == \A w \in 1..NW : Sat(w) =>
            \A i, j \in 1..Len(links) : links[i].kind = "copy" /\ links[j].kind = "copy" /\ links[i].b = links[j].a
               => CellVal(w, links[i].a) = CellVal(w, links[j].b)
Export == regions # <<>> /\ Emit => PrintT(ToJson([inst |-> inst, regions |-> regions, links |-> links, sat |-> [w \in 1..NW |-> Sat(w)]]))
=============================================================================
