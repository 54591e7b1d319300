------------------------------- MODULE BFMachine -------------------------------
(* The virtual machine as a state machine, from the source text to the trace    *)
(* tables. The source is typed symbol by symbol, compiled one symbol at a time  *)
(* with a bracket stack, and executed one instruction at a time; the input is   *)
(* what GETCHAR happens to read. Every terminal state is printed as one JSON    *)
(* case (expected program, trace, tables, output, memory) for the real code.    *)
EXTENDS BF, TLC, Json

CONSTANTS Alphabet,      \* symbols that may be typed (operations and one comment symbol)
          InputVals,     \* values an input byte may have
          MaxSrc,        \* longest source text
          MaxClk,        \* longest run
          MaxIn,         \* most bytes of input
          Sources,       \* further source texts: a set of sequences
          EmitKind       \* "run", "compile" or "none"

VARIABLES phase,    \* "edit", "compile", "run", "halt", "fault", "long"
          src, pos, \* source and how much of it is compiled
          code, stack,
          st, proc, input
vars == <<phase, src, pos, code, stack, st, proc, input>>

Init ==
  /\ phase = "edit" /\ src \in {<<>>} \cup Sources
  /\ pos = 0 /\ code = <<>> /\ stack = <<>>
  /\ st = Start0 /\ proc = <<>> /\ input = <<>>

Type ==
  /\ phase = "edit" /\ Len(src) < MaxSrc /\ src \notin Sources
  /\ \E c \in Alphabet :
        /\ Depth(Append(src, c), Len(src) + 1) >= 0
        /\ Depth(Append(src, c), Len(src) + 1) <= MaxSrc - Len(src) - 1
        /\ src' = Append(src, c)
  /\ UNCHANGED <<phase, pos, code, stack, st, proc, input>>

Submit ==
  /\ phase = "edit" /\ Balanced(src) /\ OpsOf(src) # <<>>
  /\ phase' = "compile"
  /\ UNCHANGED <<src, pos, code, stack, st, proc, input>>

(*------------------------------- compiler -----------------------------------*)
Sym == src[pos + 1]
Compiling == phase = "compile" /\ pos < Len(src)
Adv == pos' = pos + 1 /\ UNCHANGED <<phase, src, st, proc, input>>

Skip == Compiling /\ Sym \notin Ops /\ UNCHANGED <<code, stack>> /\ Adv
Emit1 == Compiling /\ Sym \in Ops \ {LB, RB} /\ code' = Append(code, Sym) /\ UNCHANGED stack /\ Adv
EmitLB == /\ Compiling /\ Sym = LB
          /\ code' = code \o <<LB, 0>>
          /\ stack' = Append(stack, Len(code) + 1)        \* address of the operand cell
          /\ Adv
EmitRB == /\ Compiling /\ Sym = RB
          /\ LET open == Last(stack) IN
             code' = [(code \o <<RB, open + 1>>) EXCEPT ![open + 1] = Len(code) + 2]
          /\ stack' = Front(stack)
          /\ Adv
Compiled == /\ phase = "compile" /\ pos = Len(src) /\ phase' = "run"
            /\ UNCHANGED <<src, pos, code, stack, st, proc, input>>

(*------------------------------- execution ----------------------------------*)
Running == phase = "run" /\ ~Halted(code, st)
Here == Cur(code, st)
Do(v) == /\ st' = Step(code, st, v) /\ proc' = Append(proc, ProcRow(code, st))
         /\ UNCHANGED <<phase, src, pos, code, stack>>

InTime == st.clk < MaxClk
ExecArith == Running /\ InTime /\ Here \in {ADD, SUB} /\ Do(0) /\ UNCHANGED input
ExecRight == Running /\ InTime /\ Here = SHR /\ Do(0) /\ UNCHANGED input
ExecLeft  == Running /\ InTime /\ Here = SHL /\ st.mp > 0 /\ Do(0) /\ UNCHANGED input
ExecPut   == Running /\ InTime /\ Here = PUT /\ Do(0) /\ UNCHANGED input
ExecLB    == Running /\ InTime /\ Here = LB /\ Do(0) /\ UNCHANGED input
ExecRB    == Running /\ InTime /\ Here = RB /\ Do(0) /\ UNCHANGED input
ExecGet   == /\ Running /\ InTime /\ Here = GET /\ Len(input) < MaxIn
             /\ \E v \in InputVals : Do(v) /\ input' = Append(input, v)

\* faults: left of cell 0; reading past the end of the input
FaultLeft == /\ Running /\ Here = SHL /\ st.mp = 0 /\ phase' = "fault"
             /\ UNCHANGED <<src, pos, code, stack, st, proc, input>>
FaultEof  == /\ Running /\ Here = GET /\ phase' = "fault"
             /\ UNCHANGED <<src, pos, code, stack, st, proc, input>>
TooLong   == /\ Running /\ ~InTime /\ phase' = "long"
             /\ UNCHANGED <<src, pos, code, stack, st, proc, input>>
Halt == /\ phase = "run" /\ Halted(code, st) /\ phase' = "halt"
        /\ proc' = Append(proc, ProcRow(code, st))
        /\ UNCHANGED <<src, pos, code, stack, st, input>>

Next == \/ Type \/ Submit \/ Skip \/ Emit1 \/ EmitLB \/ EmitRB \/ Compiled
        \/ ExecArith \/ ExecRight \/ ExecLeft \/ ExecPut \/ ExecLB \/ ExecRB \/ ExecGet
        \/ FaultLeft \/ FaultEof \/ TooLong \/ Halt
Spec == Init /\ [][Next]_vars

(*------------------------------ properties ----------------------------------*)
\* C01: what the compiler leaves behind is the declarative compiled form
CompileRight == phase \in {"run", "halt", "fault", "long"} => code = Compile(src) /\ stack = <<>>
\* no jump lands on an operand cell
OnBoundary == phase \in {"run", "halt"} =>
                \E i \in 1..(Len(OpsOf(src)) + 1) : st.ip = Addr(OpsOf(src), i)
\* C02: compiled execution is source-level execution
SrcPos == CHOOSE i \in 1..(Len(OpsOf(src)) + 1) : st.ip = Addr(OpsOf(src), i)
SourceStep ==
  [][(phase = "run" /\ st' # st) =>
       LET s == OpsOf(src)
           i == CHOOSE k \in 1..(Len(s) + 1) : st.ip = Addr(s, k)
           v == Read(st.mem, st.mp)
           j == CASE s[i] = LB /\ v = 0 -> Match(s, i) + 1
                  [] s[i] = RB /\ v # 0 -> Match(s, i) + 1
                  [] OTHER -> i + 1
       IN st'.ip = Addr(s, j) /\ st'.clk = st.clk + 1]_vars
CellsInRange == \A p \in DOMAIN st.mem : st.mem[p] \in 0..(CellRange - 1)
PointerInTape == st.mp >= 0 /\ st.mp <= st.clk
\* every row reads what was last written to the cell (0 if nothing was)
LastWrite ==
  phase = "halt" =>
  \A i \in 1..Len(proc) :
    LET before == {j \in 1..(i - 1) : proc[j + 1][5] = proc[i][5] /\ proc[j][3] \in {ADD, SUB, GET}}
    IN proc[i][6] = IF before = {} THEN 0 ELSE proc[MaxOf(before) + 1][6]
\* C03/C04: the tables of a completed run are accepted by the ideal constraints, and valid
Tables == [code |-> code, proc |-> proc, inst |-> InstTable(code, proc), mem |-> MemTable(proc),
           in |-> input, out |-> Outputs(proc)]
Completeness ==
  phase = "halt" =>
     LET p0 == <<Len(code)>> \o code  p1 == <<Len(input)>> \o input  t == Tables
     IN Accept(t, p0, p1) /\ Valid(t, p0, p1)

(*------------------------------ export --------------------------------------*)
MemSeq == [i \in 1..(MaxOf(DOMAIN st.mem) + 1) |-> Read(st.mem, i - 1)]
Case == IF phase = "halt"
        THEN [kind |-> "halt", range |-> CellRange, src |-> src, input |-> input, code |-> code,
              proc |-> proc, inst |-> InstTable(code, proc), mem |-> MemTable(proc),
              in |-> input, out |-> Outputs(proc), cells |-> MemSeq]
        ELSE [kind |-> phase, range |-> CellRange, src |-> src, input |-> input, code |-> code]
Export ==
  \/ EmitKind = "none"
  \/ EmitKind = "run" /\ (phase \in {"halt", "fault"} => PrintT(ToJson(Case)))
  \/ EmitKind = "compile" /\ (phase = "run" /\ st.clk = 0 /\ proc = <<>> =>
                                PrintT(ToJson([kind |-> "compile", src |-> src, code |-> code])))
=============================================================================
