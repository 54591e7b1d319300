---------------------------------- MODULE BF ----------------------------------
(* The brainfuck zkVM, declaratively: source text, compiled form, one machine   *)
(* step, the tables a run leaves behind, and what it means for tables to be a   *)
(* valid account of a run of a public program on a public input.                *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

CONSTANT CellRange        \* number of values a memory cell can hold (2^bits)

SHL == 60   SHR == 62   ADD == 43   SUB == 45
GET == 44   PUT == 46   LB  == 91   RB  == 93
Ops == {SHL, SHR, ADD, SUB, GET, PUT, LB, RB}

(***************************** source and compiled form ***********************)
OpsOf(src) == SelectSeq(src, LAMBDA c : c \in Ops)

\* bracket depth after the first i symbols
Depth(s, i) == Cardinality({k \in 1..i : s[k] = LB}) - Cardinality({k \in 1..i : s[k] = RB})

Balanced(s) == Depth(s, Len(s)) = 0 /\ \A i \in 1..Len(s) : Depth(s, i) >= 0

\* index of the bracket matching the one at i
Close(s, i) == CHOOSE j \in (i+1)..Len(s) : Depth(s, j) = Depth(s, i) - 1 /\ \A k \in (i+1)..(j-1) : Depth(s, k) >= Depth(s, i)
Open(s, j)  == CHOOSE i \in 1..(j-1) : s[i] = LB /\ Close(s, i) = j
Match(s, i) == IF s[i] = LB THEN Close(s, i) ELSE Open(s, i)

Width(c)    == IF c \in {LB, RB} THEN 2 ELSE 1
\* address (from 0) of the first compiled cell of operation i; operation Len+1 is the end
Addr(s, i)  == (i - 1) + Cardinality({k \in 1..(i-1) : s[k] \in {LB, RB}})

CellsOf(s, i) == IF s[i] \in {LB, RB} THEN <<s[i], Addr(s, Match(s, i)) + 2>> ELSE <<s[i]>>

Compile(src) == LET s == OpsOf(src) IN FlattenSeq([i \in 1..Len(s) |-> CellsOf(s, i)])

(********************************** one step **********************************)
At(code, a) == IF a >= 0 /\ a < Len(code) THEN code[a + 1] ELSE 0
Read(mem, p) == IF p \in DOMAIN mem THEN mem[p] ELSE 0
Write(mem, p, v) == [q \in DOMAIN mem \cup {p} |-> IF q = p THEN v ELSE mem[q]]

\* A machine state is a record [clk, ip, mp, mem]. nxtIn is the byte GETCHAR would read.
Cur(code, st) == At(code, st.ip)
Halted(code, st) == st.ip >= Len(code)

NextIp(code, st) ==
  LET c == Cur(code, st)  v == Read(st.mem, st.mp) IN
  CASE c = LB /\ v = 0 -> At(code, st.ip + 1)
    [] c = LB /\ v # 0 -> st.ip + 2
    [] c = RB /\ v # 0 -> At(code, st.ip + 1)
    [] c = RB /\ v = 0 -> st.ip + 2
    [] OTHER -> st.ip + 1

NextMp(code, st) ==
  LET c == Cur(code, st) IN
  CASE c = SHL -> st.mp - 1 [] c = SHR -> st.mp + 1 [] OTHER -> st.mp

NextMem(code, st, nxtIn) ==
  LET c == Cur(code, st)  v == Read(st.mem, st.mp) IN
  CASE c = ADD -> Write(st.mem, st.mp, (v + 1) % CellRange)
    [] c = SUB -> Write(st.mem, st.mp, (v + CellRange - 1) % CellRange)
    [] c = GET -> Write(st.mem, st.mp, nxtIn)
    [] OTHER -> st.mem

\* moving left of cell 0, or reading past the end of the input
Faults(code, st, input, pos) ==
  \/ Cur(code, st) = SHL /\ st.mp = 0
  \/ Cur(code, st) = GET /\ pos > Len(input)

Start0 == [clk |-> 0, ip |-> 0, mp |-> 0, mem |-> [p \in {0} |-> 0]]

Step(code, st, nxtIn) ==
  [clk |-> st.clk + 1, ip |-> NextIp(code, st), mp |-> NextMp(code, st), mem |-> NextMem(code, st, nxtIn)]

(********************************** the tables ********************************)
\* processor row: clk, ip, current cell, next cell, mp, mv, and the value whose inverse is claimed
ProcRow(code, st) ==
  LET v == Read(st.mem, st.mp) IN
  <<st.clk, st.ip, Cur(code, st), IF Halted(code, st) THEN 0 ELSE At(code, st.ip + 1), st.mp, v, v>>

\* stable grouping of rows by an integer key in lo..hi
GroupBy(rows, K(_), lo, hi) ==
  FlattenSeq([i \in 1..(hi - lo + 1) |-> SelectSeq(rows, LAMBDA r : K(r) = lo + i - 1)])

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

CodeRows(code) == [i \in 1..Len(code) |-> <<i - 1, code[i], At(code, i)>>]
InstOf(r) == <<r[2], r[3], r[4]>>
MemOf(r)  == <<r[1], r[5], r[6]>>

SortOn(rows, K(_)) ==
  IF rows = <<>> THEN <<>>
  ELSE LET ks == {K(rows[i]) : i \in 1..Len(rows)} IN GroupBy(rows, K, MinOf(ks), MaxOf(ks))

InstTable(code, proc) == SortOn(CodeRows(code) \o [i \in 1..Len(proc) |-> InstOf(proc[i])], LAMBDA r : r[1])
MemTable(proc) == SortOn([i \in 1..Len(proc) |-> MemOf(proc[i])], LAMBDA r : r[2])

Outputs(proc) == LET o == SelectSeq(proc, LAMBDA r : r[3] = PUT) IN [i \in 1..Len(o) |-> o[i][6]]
\* values read: mv of the row after a GETCHAR row
Inputs(proc) ==
  LET idx == SelectSeq([i \in 1..(Len(proc) - 1) |-> i], LAMBDA i : proc[i][3] = GET)
  IN [k \in 1..Len(idx) |-> proc[idx[k] + 1][6]]

(******************* a run of a public program on a public input **************)
\* proc is exactly the run of code on input: starts in the start state, each row is the step of
\* the row before it, ends at the end of the program with the input used up, never faults.
RECURSIVE RunFrom(_, _, _, _, _, _)
RunFrom(code, input, pos, st, proc, i) ==
  IF i > Len(proc) THEN FALSE
  ELSE /\ [k \in 1..6 |-> proc[i][k]] = [k \in 1..6 |-> ProcRow(code, st)[k]]
       /\ IF Halted(code, st) THEN i = Len(proc) /\ pos = Len(input) + 1
          ELSE /\ Cur(code, st) \in Ops
               /\ ~Faults(code, st, input, pos)
               /\ LET isGet == Cur(code, st) = GET IN
                  RunFrom(code, input, IF isGet THEN pos + 1 ELSE pos,
                          Step(code, st, IF isGet THEN input[pos] ELSE 0), proc, i + 1)

ValidRun(code, input, proc, out) ==
  /\ RunFrom(code, input, 1, Start0, proc, 1)
  /\ out = Outputs(proc)

(********************** what the circuit is meant to enforce ******************)
\* Ideal constraints on tables t = [code, proc, inst, mem, in, out] against the public columns
\* pub0 = <<length, program...>> and pub1 = <<length, input...>>. Off is a set of constraint names
\* left out (empty in the design; non-empty to show that each constraint is needed).
CONSTANT Off
On(name, P) == name \in Off \/ P

Bag(s) == [x \in ToSet(s) |-> Cardinality({i \in 1..Len(s) : s[i] = x})]

Delta(t, i, k) == t[i + 1][k] - t[i][k]

StepOk(p, i) ==
  LET c == p[i][3]  v == p[i][6]  w == p[i + 1][6] IN
  /\ On("P0", Delta(p, i, 1) = 1)
  /\ On("P1", CASE c \in {LB}  -> p[i + 1][2] = (IF v = 0 THEN p[i][4] ELSE p[i][2] + 2)
                [] c \in {RB}  -> p[i + 1][2] = (IF v # 0 THEN p[i][4] ELSE p[i][2] + 2)
                [] c \in Ops \ {LB, RB} -> Delta(p, i, 2) = 1
                [] OTHER -> FALSE)
  /\ On("P2", Delta(p, i, 5) = CASE c = SHL -> -1 [] c = SHR -> 1 [] OTHER -> 0)
  /\ On("P3", CASE c \in {LB, RB, PUT} -> w = v
                [] c = ADD -> w - v \in {1, 1 - CellRange}
                [] c = SUB -> w - v \in {-1, CellRange - 1}
                [] OTHER -> TRUE)

ProcOk(p) ==
  /\ p # <<>>
  /\ On("B", p[1][1] = 0 /\ p[1][2] = 0 /\ p[1][5] = 0 /\ p[1][6] = 0)
  /\ On("range", \A i \in 1..Len(p) : p[i][6] \in 0..(CellRange - 1))
  /\ \A i \in 1..(Len(p) - 1) : StepOk(p, i)

InstOk(t) ==
  /\ On("I-first", t[1][1] = 0)
  /\ On("I-last", t[Len(t)][2] = 0 /\ t[Len(t)][3] = 0)
  /\ \A i \in 1..(Len(t) - 1) :
       /\ On("I0", Delta(t, i, 1) \in {0, 1})
       /\ On("I12", Delta(t, i, 1) = 0 => t[i + 1][2] = t[i][2] /\ t[i + 1][3] = t[i][3])
       /\ On("I3", Delta(t, i, 1) = 1 => t[i + 1][2] = t[i][3])

MemOk(t) ==
  /\ On("M-first", t[1][2] = 0 /\ t[1][3] = 0)
  /\ \A i \in 1..(Len(t) - 1) :
       /\ On("M0", Delta(t, i, 2) \in {0, 1})
       /\ On("M1", Delta(t, i, 2) = 0 /\ Delta(t, i, 3) # 0 => Delta(t, i, 1) = 1)
       /\ On("M2", Delta(t, i, 2) = 1 => t[i + 1][3] = 0)
       /\ On("M3", Delta(t, i, 2) = 0 => Delta(t, i, 1) >= 0)

\* rows of the instruction table the processor visited: all but the first of each address
Visits(t) == SelectSeq([i \in 1..Len(t) |-> i], LAMBDA i : i = Len(t) \/ t[i + 1][1] = t[i][1])
\* the program the instruction table spells out
Spelled(t) == LET d == SelectSeq([i \in 1..(Len(t) - 1) |-> i], LAMBDA i : t[i + 1][1] # t[i][1])
              IN [k \in 1..Len(d) |-> t[d[k]][2]]

LinksOk(t) ==
  /\ On("mem-perm", Bag(t.mem) = Bag([i \in 1..Len(t.proc) |-> MemOf(t.proc[i])]))
  /\ On("inst-perm", LET v == Visits(t.inst) IN
                     Bag([k \in 1..Len(v) |-> t.inst[v[k]]]) = Bag([i \in 1..Len(t.proc) |-> InstOf(t.proc[i])]))
  /\ On("code-sum", Spelled(t.inst) = t.code)
  /\ On("in-sum", Inputs(t.proc) = t.in)
  /\ On("out-sum", Outputs(SubSeq(t.proc, 1, Len(t.proc) - 1)) = t.out)

PublicOk(t, pub0, pub1) ==
  /\ On("code-copy", \A i \in 1..Len(t.code) : At(pub0, i) = t.code[i])
  /\ On("in-copy", \A i \in 1..Len(t.in) : At(pub1, i) = t.in[i])
  /\ On("code-len", pub0[1] = Len(t.code))
  /\ On("in-len", pub1[1] = Len(t.in))

Accept(t, pub0, pub1) ==
  /\ ProcOk(t.proc) /\ InstOk(t.inst) /\ MemOk(t.mem) /\ LinksOk(t) /\ PublicOk(t, pub0, pub1)

\* What the public columns say: the length cell is authoritative, cells not given are zero.
PubSeq(pub) == [i \in 1..pub[1] |-> At(pub, i)]

Valid(t, pub0, pub1) ==
  /\ pub0[1] >= 0 /\ pub1[1] >= 0
  /\ ValidRun(PubSeq(pub0), PubSeq(pub1), t.proc, t.out)
=============================================================================
