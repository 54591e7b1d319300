------------------------------- MODULE BFCircuit -------------------------------
(* The circuit against a cheating prover. The prover runs a public program, but *)
(* at most Budget of its moves are dishonest; then it lays out tables (sorted   *)
(* honestly, or decoupled, reordered, or adapted to what it did) and public     *)
(* columns (honest, or not what it ran). Checked on the ideal constraints:      *)
(* whatever they accept is a valid run (Sound); honest tables are accepted      *)
(* (Complete). Every final state is printed as a JSON case with the verdict the *)
(* real circuit has to give.                                                    *)
EXTENDS BF, TLC, Json

CONSTANTS Alphabet, MaxSrc, Sources, InputVals, BadVals, MaxClk, MaxIn, Budget,
          Kinds,         \* which dishonest moves are explored
          EmitCases      \* TRUE: print cases

VARIABLES phase,     \* "edit", "run", "lay", "done"
          src, code, st, proc, input, cheats,   \* cheats: sequence of names of dishonest moves
          tabs, pub0, pub1, how
vars == <<phase, src, code, st, proc, input, cheats, tabs, pub0, pub1, how>>

FreeInv == 99999        \* in the inverse column: any field element, the prover's choice

NoTabs == [code |-> <<>>, proc |-> <<>>, inst |-> <<>>, mem |-> <<>>, in |-> <<>>, out |-> <<>>]

Init == /\ phase = "edit" /\ src \in {<<>>} \cup Sources /\ code = <<>> /\ st = Start0
        /\ proc = <<>> /\ input = <<>> /\ cheats = <<>>
        /\ tabs = NoTabs /\ pub0 = <<>> /\ pub1 = <<>> /\ how = ""

Type == /\ phase = "edit" /\ Len(src) < MaxSrc /\ src \notin Sources
        /\ \E c \in Alphabet :
             /\ Depth(Append(src, c), Len(src) + 1) \in 0..(MaxSrc - Len(src) - 1)
             /\ src' = Append(src, c)
        /\ UNCHANGED <<phase, code, st, proc, input, cheats, tabs, pub0, pub1, how>>

May(k) == k \in Kinds /\ Len(cheats) < Budget
Cheat(k) == cheats' = Append(cheats, k)
Honest == UNCHANGED cheats

Submit == /\ phase = "edit" /\ Balanced(src) /\ src # <<>>
          /\ code' = Compile(src) /\ phase' = "run"
          /\ \/ st' = Start0 /\ Honest
             \* start somewhere else than the start state
             \/ /\ May("start") /\ Cheat("start")
                /\ \E s \in [clk : {-1, 0, 1}, ip : 0..Len(code'), mp : {-1, 0, 1}, v : {-1, 0, 1}] :
                     /\ st' = [clk |-> s.clk, ip |-> s.ip, mp |-> s.mp, mem |-> [p \in {0, s.mp} |-> IF p = s.mp THEN s.v ELSE 0]]
                     \* one quantity is off, or two are, by opposite amounts
                     /\ LET off == Cardinality({k \in {1, 2, 3, 4} : CASE k = 1 -> s.clk # 0 [] k = 2 -> s.ip # 0 [] k = 3 -> s.mp # 0 [] k = 4 -> s.v # 0})
                        IN (off = 1 /\ s.clk >= 0 /\ s.v >= 0) \/ (off = 2 /\ s.clk + s.ip + s.mp + s.v = 0)
          /\ UNCHANGED <<src, proc, input, tabs, pub0, pub1, how>>

Running == phase = "run" /\ ~Halted(code, st)
Row == ProcRow(code, st)
Log(r) == proc' = Append(proc, r)
Same == UNCHANGED <<phase, src, code, tabs, pub0, pub1, how>>
InTime == Len(proc) <= MaxClk
AnyInput == CHOOSE w \in InputVals : TRUE

HonestStep ==
  /\ Running /\ InTime /\ Cur(code, st) # GET /\ ~(Cur(code, st) = SHL /\ st.mp = 0)
  /\ st' = Step(code, st, 0) /\ Log(Row) /\ Honest /\ UNCHANGED input /\ Same
HonestGet ==
  /\ Running /\ InTime /\ Cur(code, st) = GET /\ Len(input) < MaxIn
  /\ \E v \in InputVals : st' = Step(code, st, v) /\ input' = Append(input, v)
  /\ Log(Row) /\ Honest /\ Same

\* jump anywhere
CheatIp ==
  /\ Running /\ InTime /\ Cur(code, st) # GET /\ May("ip") /\ Cheat("ip")
  /\ \E a \in 0..Len(code) : a # NextIp(code, st) /\ st' = [Step(code, st, 0) EXCEPT !.ip = a]
  /\ st'.mp >= 0
  /\ Log(IF Cur(code, st) \in {LB, RB} THEN [Row EXCEPT ![7] = FreeInv] ELSE Row) /\ UNCHANGED input /\ Same
\* move the pointer wrongly (or left of cell 0)
CheatMp ==
  /\ Running /\ InTime /\ Cur(code, st) # GET /\ May("mp") /\ Cheat("mp")
  /\ \E m \in (st.mp - 2)..(st.mp + 2) :
        /\ m # NextMp(code, st) \/ m = -1
        /\ st' = [Step(code, st, 0) EXCEPT !.mp = m]
  /\ Log(Row) /\ UNCHANGED input /\ Same
\* find another value in the cell after the step
CheatVal ==
  /\ Running /\ InTime /\ Cur(code, st) # GET /\ May("val") /\ Cheat("val")
  /\ LET n == Step(code, st, 0) IN
     /\ n.mp >= 0
     /\ \E v \in BadVals : v # Read(n.mem, n.mp) /\ st' = [n EXCEPT !.mem = Write(n.mem, n.mp, v)]
  /\ Log(Row) /\ UNCHANGED input /\ Same
\* go left of cell 0, and find any value there
CheatLeft ==
  /\ Running /\ InTime /\ Cur(code, st) = SHL /\ st.mp = 0 /\ May("left") /\ Cheat("left")
  /\ \E v \in BadVals \ {-1, CellRange} : st' = [Step(code, st, 0) EXCEPT !.mem = Write(st.mem, -1, v)]
  /\ Log(Row) /\ UNCHANGED input /\ Same
\* change another cell behind the program's back
CheatFar ==
  /\ Running /\ InTime /\ Cur(code, st) # GET /\ May("far") /\ Cheat("far")
  /\ LET n == Step(code, st, 0) IN
     /\ n.mp >= 0
     /\ \E p \in {0, 1, 2} \ {n.mp}, v \in BadVals \ {-1, CellRange} :
          v # Read(n.mem, p) /\ st' = [n EXCEPT !.mem = Write(n.mem, p, v)]
  /\ Log(Row) /\ UNCHANGED input /\ Same
\* skip or repeat a clock tick
CheatClk ==
  /\ Running /\ InTime /\ Cur(code, st) # GET /\ May("clk") /\ Cheat("clk") /\ NextMp(code, st) >= 0
  /\ \E d \in {0, 2} : st' = [Step(code, st, 0) EXCEPT !.clk = st.clk + d]
  /\ Log(Row) /\ UNCHANGED input /\ Same
\* two quantities wrong at once, by one each: errors that might cancel
Amiss(n, d) == [n EXCEPT !.clk = @ + d[1], !.ip = @ + d[2], !.mp = @ + d[3], !.mem = Write(n.mem, n.mp + d[3], Read(n.mem, n.mp) + d[4])]
Pairs == {d \in [1..4 -> {-1, 0, 1}] : Cardinality({k \in 1..4 : d[k] # 0}) = 2}
CheatPair ==
  /\ Running /\ InTime /\ May("pair") /\ Cheat("pair")
  /\ \E d \in Pairs, v \in InputVals :
       /\ IF Cur(code, st) = GET THEN Len(input) < MaxIn /\ input' = Append(input, v) ELSE v = AnyInput /\ UNCHANGED input
       /\ st' = Amiss(Step(code, st, v), d) /\ st'.ip \in 0..Len(code)
  /\ Log(IF Cur(code, st) \in {LB, RB} THEN [Row EXCEPT ![7] = FreeInv] ELSE Row) /\ Same
\* store something else than the byte read (or no byte), or read a byte that is not one
CheatGet ==
  /\ Running /\ InTime /\ Cur(code, st) = GET /\ May("get") /\ Cheat("get")
  /\ \/ \E v \in InputVals, w \in BadVals : v # w /\ st' = Step(code, st, w) /\ input' = Append(input, v)
     \/ \E v \in BadVals : st' = Step(code, st, v) /\ UNCHANGED input
     \/ \E v \in {-1, CellRange} : st' = Step(code, st, v) /\ input' = Append(input, v)
  /\ Log(Row) /\ Same
\* execute something else than the program says at this address
CheatOp ==
  /\ Running /\ InTime /\ May("op") /\ Cheat("op")
  /\ \E c \in Ops \ {Cur(code, st)}, k \in {-1, 0, 1}, v \in InputVals :
       \* the next cell true, or off by as much as the operation or by the opposite
       LET m == At(code, st.ip + 1) + (k * (c - Cur(code, st)))
           lie == [code EXCEPT ![st.ip + 1] = c]
           n == Step(IF c \in {LB, RB} /\ k # 0 THEN [lie EXCEPT ![st.ip + 2] = m] ELSE lie, st, v)
       IN /\ c \in {LB, RB} /\ k # 0 => st.ip + 2 <= Len(code) /\ m \in 0..Len(code)
          /\ IF c = GET THEN Len(input) < MaxIn /\ input' = Append(input, v) ELSE v = AnyInput /\ UNCHANGED input
          /\ n.mp >= 0 /\ st' = n /\ Log([Row EXCEPT ![3] = c, ![4] = m])
  /\ Same
\* claim another jump target and use it
CheatTarget ==
  /\ Running /\ InTime /\ Cur(code, st) \in {LB, RB} /\ May("target") /\ Cheat("target")
  /\ \E a \in 0..Len(code) :
       /\ a # At(code, st.ip + 1)
       /\ LET lie == [code EXCEPT ![st.ip + 2] = a]  n == Step(lie, st, 0) IN
          n.ip # NextIp(code, st) /\ st' = n /\ Log([Row EXCEPT ![4] = a])
  /\ UNCHANGED input /\ Same
\* stop before the end
CheatStop ==
  /\ Running /\ May("stop") /\ Cheat("stop") /\ phase' = "lay" /\ Log(Row)
  /\ UNCHANGED <<src, code, st, input, tabs, pub0, pub1, how>>
\* execute an instruction past the end of the program
CheatPast ==
  /\ phase = "run" /\ Halted(code, st) /\ st.ip = Len(code) /\ May("past") /\ Cheat("past")
  /\ \E c \in {ADD, PUT, SHR} :
       /\ proc' = proc \o << <<st.clk, st.ip, c, 0, st.mp, Read(st.mem, st.mp), Read(st.mem, st.mp)>> >>
       /\ LET lie == Append(code, c)  n == Step(lie, st, 0) IN st' = n
  /\ UNCHANGED input /\ Same
\* pretend that the end of the program is a jump back
CheatAgain ==
  /\ phase = "run" /\ Halted(code, st) /\ st.ip = Len(code) /\ May("again") /\ Cheat("again")
  /\ \E a \in 0..(Len(code) - 1) :
       /\ proc' = Append(proc, [Row EXCEPT ![3] = IF Row[6] = 0 THEN LB ELSE RB, ![4] = a])
       /\ st' = [st EXCEPT !.ip = a, !.clk = @ + 1]
  /\ UNCHANGED input /\ Same
\* an instruction in the last row, never executed
CheatEnd ==
  /\ phase = "run" /\ Halted(code, st) /\ May("end") /\ Cheat("end") /\ phase' = "lay"
  /\ \E c \in {ADD, PUT, RB}, n \in {0, 1} : Log([Row EXCEPT ![3] = c, ![4] = n])
  /\ UNCHANGED <<src, code, st, input, tabs, pub0, pub1, how>>
\* claim that the program ends here
CheatQuit ==
  /\ Running /\ May("quit") /\ Cheat("quit") /\ phase' = "lay" /\ Log([Row EXCEPT ![3] = 0, ![4] = 0])
  /\ UNCHANGED <<src, code, st, input, tabs, pub0, pub1, how>>
\* repeat a row / leave a row out
CheatRow ==
  /\ phase = "run" /\ Halted(code, st) /\ proc # <<>> /\ May("row") /\ Cheat("row")
  /\ \E i \in 1..Len(proc) :
       \/ proc' = SubSeq(proc, 1, i) \o SubSeq(proc, i, Len(proc))
       \/ proc' = SubSeq(proc, 1, i - 1) \o SubSeq(proc, i + 1, Len(proc))
  /\ UNCHANGED <<input, st>> /\ Same

Finish ==
  /\ phase = "run" /\ Halted(code, st) /\ phase' = "lay" /\ Log(Row)
  /\ UNCHANGED <<src, code, st, input, cheats, tabs, pub0, pub1, how>>

(*------------------------ laying out tables and publics ---------------------*)
MemRows == [i \in 1..Len(proc) |-> MemOf(proc[i])]

\* values of a sorted memory table rewritten to look consistent
RECURSIVE Smooth(_, _)
Smooth(rows, i) ==
  IF i > Len(rows) THEN rows
  ELSE LET prev == IF i = 1 THEN <<-5, -5, 0>> ELSE rows[i - 1]
           v == IF rows[i][2] # prev[2] THEN 0
                ELSE IF rows[i][1] = prev[1] + 1 THEN rows[i][3] ELSE prev[3]
       IN Smooth([rows EXCEPT ![i] = <<rows[i][1], rows[i][2], v>>], i + 1)

\* visits of one cell: positions in the sorted memory table where a new visit begins
Begins(rows) == {i \in 2..Len(rows) : rows[i][2] = rows[i - 1][2] /\ rows[i][1] # rows[i - 1][1] + 1}
\* swap the visit beginning at b with the one after it beginning at e (same cell)
Ends(rows, b) == IF \E e \in Begins(rows) : e > b /\ rows[e][2] = rows[b][2]
                 THEN MinOf({e \in Begins(rows) : e > b /\ rows[e][2] = rows[b][2]}) ELSE 0
CellEnd(rows, b) == MaxOf({i \in b..Len(rows) : rows[i][2] = rows[b][2]})
AfterVisit(rows, e) == IF Ends(rows, e) = 0 THEN CellEnd(rows, e) ELSE Ends(rows, e) - 1
SwapVisits(rows, b, e) ==
  SubSeq(rows, 1, b - 1) \o SubSeq(rows, e, AfterVisit(rows, e)) \o SubSeq(rows, b, e - 1)
    \o SubSeq(rows, AfterVisit(rows, e) + 1, Len(rows))
\* re-execute the arithmetic along a memory table in the order given
OpAt(clk) == proc[clk + 1][3]
RECURSIVE Revalue(_, _)
Revalue(rows, i) ==
  IF i > Len(rows) THEN rows
  ELSE LET v == IF i = 1 \/ rows[i][2] # rows[i - 1][2] THEN 0
                ELSE LET u == rows[i - 1][3] IN
                     IF rows[i][1] = rows[i - 1][1] + 1
                     THEN CASE OpAt(rows[i - 1][1]) = ADD -> (u + 1) % CellRange
                            [] OpAt(rows[i - 1][1]) = SUB -> (u + CellRange - 1) % CellRange
                            [] OTHER -> u
                     ELSE u
       IN Revalue([rows EXCEPT ![i] = <<rows[i][1], rows[i][2], v>>], i + 1)
ValueAt(rows, clk) == LET i == CHOOSE k \in 1..Len(rows) : rows[k][1] = clk IN rows[i][3]
StraightLine == \A i \in 1..Len(code) : code[i] \notin {LB, RB, GET}

\* instruction table that adopts what the processor claims at each address
Claimed(a) == LET c == {i \in 1..Len(proc) : proc[i][2] = a /\ InstOf(proc[i]) # <<a, At(code, a), At(code, a + 1)>>} IN
              IF c = {} THEN <<a, At(code, a), At(code, a + 1)>> ELSE InstOf(proc[MinOf(c)])
Adopted == SortOn([i \in 1..Len(code) |-> Claimed(i - 1)] \o [i \in 1..Len(proc) |-> InstOf(proc[i])], LAMBDA r : r[1])
\* the same, but the code rows keep the true program (claims only where the processor visits)
Plain == InstTable(code, proc)
\* true rows only, visited addresses duplicated
Decoupled == SortOn(CodeRows(code) \o [i \in 1..Len(proc) |-> <<proc[i][2], At(code, proc[i][2]), At(code, proc[i][2] + 1)>>],
                    LAMBDA r : r[1])
\* what the processor claims goes before the program's own row of an address
Late == SortOn([i \in 1..Len(proc) |-> InstOf(proc[i])] \o CodeRows(code), LAMBDA r : r[1])

Lay(t, p0, p1, h) == tabs' = t /\ pub0' = p0 /\ pub1' = p1 /\ how' = h /\ phase' = "done"

Base == [code |-> code, proc |-> proc, inst |-> Plain, mem |-> MemTable(proc), in |-> input,
         out |-> Outputs(SubSeq(proc, 1, Len(proc) - 1))]
P0 == <<Len(code)>> \o code
P1 == <<Len(input)>> \o input
Keep == UNCHANGED <<src, code, st, proc, input, cheats>>
Laying == phase = "lay"
Spare == Len(cheats) < Budget

\* tables in order, publics as run
LayStraight == Laying /\ Lay(Base, P0, P1, "straight") /\ Keep
\* after a dishonest move: tables that hide it
LaySmooth == Laying /\ cheats # <<>> /\ Lay([Base EXCEPT !.mem = Smooth(MemTable(proc), 1)], P0, P1, "smooth") /\ Keep
\* memory rows in another order than by cell: by time, cells backwards, even cells first
Far == 20
LayMemOrder ==
  /\ Laying /\ \E i \in 1..Len(cheats) : cheats[i] \in {"far", "left", "val", "mp"}
  /\ \E o \in {"time", "back", "even"} :
       /\ \A i \in 1..Len(proc) : proc[i][5] \in (-Far)..Far
       /\ LET key(r) == CASE o = "time" -> r[1] [] o = "back" -> 0 - r[2] [] o = "even" -> (IF r[2] % 2 = 0 THEN r[2] - 2 * Far ELSE r[2])
              m == SortOn(MemRows, key)
          IN m # MemTable(proc) /\ Lay([Base EXCEPT !.mem = m], P0, P1, "order-" \o o)
  /\ Keep
LayAdopt == /\ Laying /\ \E i \in 1..Len(cheats) : cheats[i] \in {"op", "target", "past", "stop", "ip", "start", "again", "end", "quit"}
            /\ Lay([Base EXCEPT !.inst = Adopted], P0, P1, "adopt") /\ Keep
LayLate == /\ Laying /\ \E i \in 1..Len(cheats) : cheats[i] \in {"op", "target", "again", "quit"}
           /\ Late # Plain /\ Lay([Base EXCEPT !.inst = Late], P0, P1, "late") /\ Keep
LayAdoptCode == /\ Laying /\ \E i \in 1..Len(cheats) : cheats[i] \in {"op", "target", "past"}
                /\ Lay([Base EXCEPT !.inst = Adopted, !.code = Spelled(Adopted)], P0, P1, "adopt-code") /\ Keep
LayDecoupled == /\ Laying /\ \E i \in 1..Len(cheats) : cheats[i] \in {"op", "target", "past"}
                /\ Lay([Base EXCEPT !.inst = Decoupled], P0, P1, "decoupled") /\ Keep
\* next cells rewritten so that the rows of consecutive addresses chain
CellAt(t, a) == LET k == {i \in 1..Len(t) : t[i][1] = a} IN IF k = {} THEN 0 ELSE t[MinOf(k)][2]
Chain(t) == [i \in 1..Len(t) |-> IF t[i][1] = t[Len(t)][1] THEN t[i] ELSE [t[i] EXCEPT ![3] = CellAt(t, t[i][1] + 1)]]
LayChain ==
  /\ Laying /\ \E i \in 1..Len(cheats) : cheats[i] \in {"op", "past", "again", "end", "quit"}
  /\ LET t == Adopted
         p2 == [i \in 1..Len(proc) |-> IF proc[i][2] = t[Len(t)][1] \/ proc[i][3] \in {LB, RB} THEN proc[i]
                                       ELSE [proc[i] EXCEPT ![4] = CellAt(t, proc[i][2] + 1)]]
     IN Lay([Base EXCEPT !.proc = p2, !.inst = Chain(t)], P0, P1, "chain")
  /\ Keep
\* the cells after the place where the prover quits moved out of the way
LayAway ==
  /\ Laying /\ cheats # <<>> /\ Last(cheats) = "quit"
  /\ LET k == Last(proc)[2]
         near == SelectSeq(Plain, LAMBDA r : r[1] < k)
         gone == SelectSeq(CodeRows(code), LAMBDA r : r[1] >= k)
         twice == SelectSeq(SubSeq(proc, 1, Len(proc) - 1), LAMBDA r : r[2] >= k)
     IN \E d \in {50, -50} :
        /\ twice = <<>>
        /\ Lay([Base EXCEPT !.inst = near \o [i \in 1..Len(gone) |-> [gone[i] EXCEPT ![1] = @ + d]]
                                     \o <<InstOf(Last(proc))>>], P0, P1, "away")
  /\ Keep
\* instruction table shifted so that the processor's addresses mean other instructions
LayShift == /\ Laying /\ cheats # <<>> /\ Head(cheats) = "start" /\ proc[1][2] # 0
            /\ LET d == proc[1][2]
                   sh == [i \in 1..Len(proc) |-> [proc[i] EXCEPT ![2] = @ - d]]
                   it == InstTable(code, proc)
               IN Lay([Base EXCEPT !.proc = sh, !.inst = [i \in 1..Len(it) |-> [it[i] EXCEPT ![1] = @ - d]]], P0, P1, "shift")
            /\ Keep
\* honest run, dishonest accounts of it
LayReorder ==
  /\ Laying /\ Spare /\ "reorder" \in Kinds /\ StraightLine /\ cheats = <<>>
  /\ \E b \in Begins(MemTable(proc)) \cup {1} :
       /\ Ends(MemTable(proc), b) # 0
       /\ LET rows == Revalue(SwapVisits(MemTable(proc), b, Ends(MemTable(proc), b)), 1)
              p2 == [i \in 1..Len(proc) |-> LET v == ValueAt(rows, i - 1) IN [proc[i] EXCEPT ![6] = v, ![7] = v]]
          IN Lay([Base EXCEPT !.proc = p2, !.mem = rows, !.out = Outputs(p2)], P0, P1, "reorder")
  /\ cheats' = Append(cheats, "reorder") /\ UNCHANGED <<src, code, st, proc, input>>
LayOut ==
  /\ Laying /\ Spare /\ "out" \in Kinds
  /\ \E o \in {Append(Base.out, v) : v \in {0, 1}} \cup {<<v>> \o Base.out : v \in {0}}
              \cup {SubSeq(Base.out, 2, Len(Base.out)), SubSeq(Base.out, 1, Len(Base.out) - 1)}
              \cup {[Base.out EXCEPT ![i] = v] : i \in 1..Len(Base.out), v \in {0, 1, CellRange}} :
        o # Base.out /\ Lay([Base EXCEPT !.out = o], P0, P1, "out")
  /\ cheats' = Append(cheats, "out") /\ UNCHANGED <<src, code, st, proc, input>>
Edits(s, vs) ==
  ({SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)) : i \in 1..Len(s)}
   \cup {[s EXCEPT ![i] = v] : i \in 1..Len(s), v \in vs}
   \cup {SubSeq(s, 1, i) \o <<v>> \o SubSeq(s, i + 1, Len(s)) : i \in 0..Len(s), v \in vs}) \ {s}
\* the public program is not the one that ran; the tables spell out either
LayProgram ==
  /\ Laying /\ Spare /\ "program" \in Kinds
  /\ \E c \in Edits(code, {0, ADD, RB, 1}) :
       \/ Lay(Base, <<Len(c)>> \o c, P1, "program")
       \/ Lay(Base, <<Len(code)>> \o c, P1, "program-len")
       \/ Lay([Base EXCEPT !.code = c], <<Len(c)>> \o c, P1, "program-table")
       \/ /\ Len(c) # Len(code)
          /\ Lay([Base EXCEPT !.code = c], P0, P1, "program-short")
  /\ cheats' = Append(cheats, "program") /\ UNCHANGED <<src, code, st, proc, input>>
\* the public input is not the one that was read
LayInput ==
  /\ Laying /\ Spare /\ "input" \in Kinds
  /\ \E c \in Edits(input, {0, 1}) :
       \/ Lay(Base, P0, <<Len(c)>> \o c, "input")
       \/ Lay(Base, P0, <<Len(input)>> \o c, "input-len")
       \/ Lay([Base EXCEPT !.in = c], P0, <<Len(c)>> \o c, "input-table")
       \/ Lay([Base EXCEPT !.in = c], P0, P1, "input-short")
  /\ cheats' = Append(cheats, "input") /\ UNCHANGED <<src, code, st, proc, input>>
\* the length cells alone
LayLength ==
  /\ Laying /\ Spare /\ "length" \in Kinds
  /\ \E d \in {-1, 1, 2} :
       \/ Lay(Base, [P0 EXCEPT ![1] = @ + d], P1, "code-length")
       \/ Lay(Base, P0, [P1 EXCEPT ![1] = @ + d], "input-length")
       \/ Lay(Base, [P0 EXCEPT ![1] = @ + d] \o <<0, 0>>, P1, "code-length")
       \/ Lay(Base, P0, [P1 EXCEPT ![1] = @ + d] \o <<0, 0>>, "input-length")
  /\ cheats' = Append(cheats, "length") /\ UNCHANGED <<src, code, st, proc, input>>
\* one row of the memory / instruction table altered
LayMemRow ==
  /\ Laying /\ Spare /\ "memrow" \in Kinds
  /\ \E i \in 1..Len(Base.mem), d \in {<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<0, 0, -1>>} :
       Lay([Base EXCEPT !.mem[i] = <<@[1] + d[1], @[2] + d[2], @[3] + d[3]>>], P0, P1, "memrow")
  /\ cheats' = Append(cheats, "memrow") /\ UNCHANGED <<src, code, st, proc, input>>

Next == \/ Type \/ Submit \/ HonestStep \/ HonestGet \/ CheatIp \/ CheatMp \/ CheatVal \/ CheatLeft \/ CheatFar
        \/ CheatClk \/ CheatPair \/ CheatGet \/ CheatOp \/ CheatTarget \/ CheatStop \/ CheatPast \/ CheatAgain \/ CheatEnd \/ CheatQuit \/ CheatRow \/ Finish
        \/ LayStraight \/ LaySmooth \/ LayMemOrder \/ LayChain \/ LayAway \/ LayAdopt \/ LayLate \/ LayAdoptCode \/ LayDecoupled \/ LayShift \/ LayReorder \/ LayOut
        \/ LayProgram \/ LayInput \/ LayLength \/ LayMemRow
Spec == Init /\ [][Next]_vars

(*------------------------------ properties ----------------------------------*)
IsValid == Valid(tabs, pub0, pub1)
Sound    == phase = "done" => (Accept(tabs, pub0, pub1) => IsValid)
Complete == phase = "done" /\ cheats = <<>> => IsValid /\ Accept(tabs, pub0, pub1)

Export ==
  phase = "done" /\ EmitCases =>
    PrintT(ToJson([valid |-> IsValid, honest |-> cheats = <<>>, cheats |-> cheats, how |-> how,
                   range |-> CellRange, src |-> src, code |-> tabs.code, proc |-> tabs.proc, inst |-> tabs.inst,
                   mem |-> tabs.mem, in |-> tabs.in, out |-> tabs.out, pub0 |-> pub0, pub1 |-> pub1]))
=============================================================================
