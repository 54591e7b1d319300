--------------------------------- MODULE BFTx ---------------------------------
(* A transaction for the on-chain verifier: five witnesses, in order the setup  *)
(* parameters, the verifying key, the proof, the program and the input. Honest  *)
(* transactions come from completed runs; then at most Budget edits are made.   *)
(* The verifier must accept exactly when what the witnesses say is still what   *)
(* was proven.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Runs,        \* sequence of [code, input, len, vk]: code bytes, input bytes, lengths of the
                       \* five witnesses, and a number identifying the verifying key
          Budget,
          EditRuns,    \* indices of the runs whose transactions are edited
          FlipBits,    \* bits flipped in each byte
          FlipStride,  \* every how many bytes of the proof a flip is made
          Room,        \* sizes of the verifier's buffers
          EmitCases

PAR == 1  VK == 2  PRF == 3  CODE == 4  INPUT == 5
VARIABLES phase, run, wit, edits
vars == <<phase, run, wit, edits>>

\* a witness: whose it is, which of the five it is, and what was done to its bytes
W(r, i) == [run |-> r, idx |-> i, ops |-> <<>>]
Init == /\ phase = "edit" /\ run \in EditRuns /\ wit = [i \in 1..5 |-> W(run, i)] /\ edits = 0

Can == phase = "edit" /\ edits < Budget
Did == edits' = edits + 1 /\ UNCHANGED <<phase, run>>
Op(i, o) == wit' = [wit EXCEPT ![i].ops = Append(@, o)]

BytesOf(w) == IF w.idx = CODE THEN Runs[w.run].code ELSE Runs[w.run].input
LenOf(w) == Runs[w.run].len[w.idx]

Slots == 1..Len(wit)
\* whole witnesses
Drop == Can /\ \E i \in Slots : wit' = SubSeq(wit, 1, i - 1) \o SubSeq(wit, i + 1, Len(wit)) /\ Did
Swap == Can /\ \E i, j \in Slots : i < j /\ wit' = [wit EXCEPT ![i] = wit[j], ![j] = wit[i]] /\ Did
Graft == /\ Can /\ Len(wit) = 5
         /\ \E i \in Slots, r \in 1..Len(Runs) : r # run /\ wit' = [wit EXCEPT ![i] = W(r, i)]
         /\ Did
\* bytes
Flip == /\ Can
        /\ \E i \in Slots \cap {PRF, CODE, INPUT}, b \in FlipBits :
             \E p \in 0..(LenOf(wit[i]) - 1) :
                /\ i = PRF => p % FlipStride = 0 \/ p < 64 \/ p > LenOf(wit[i]) - 66
                /\ Op(i, [op |-> "flip", pos |-> p, bit |-> b])
        /\ Did
Cut  == /\ Can /\ \E i \in Slots, n \in {1, 2, 31, 32, 64} : LenOf(wit[i]) >= n /\ Op(i, [op |-> "cut", n |-> n]) /\ Did
Void == Can /\ \E i \in Slots : Op(i, [op |-> "cut", n |-> LenOf(wit[i])]) /\ Did
Pad  == /\ Can /\ \E i \in Slots \cap {CODE, INPUT}, b \in {<<0>>, <<0, 0>>, <<43, 0>>, <<1>>} : Op(i, [op |-> "pad", bytes |-> b]) /\ Did
Front == /\ Can /\ \E i \in Slots \cap {CODE, INPUT, PRF, VK, PAR}, b \in {<<0>>, <<0, 0>>, <<43, 0>>} : Op(i, [op |-> "front", bytes |-> b]) /\ Did
Huge == Can /\ \E i \in Slots : Op(i, [op |-> "huge", n |-> Room[i] + 1]) /\ Did
Zero == /\ Can /\ \E i \in Slots \cap {PRF} : \E p \in {q \in 0..(LenOf(wit[i]) - 32) : q % 32 = 0} :
             Op(i, [op |-> "zero", pos |-> p, n |-> 32]) /\ Did
Ones == /\ Can /\ \E i \in Slots \cap {PRF} : \E p \in {q \in 0..(LenOf(wit[i]) - 32) : q % 32 = 0} :
             Op(i, [op |-> "ones", pos |-> p, n |-> 32]) /\ Did
Exch == /\ Can /\ \E i \in Slots \cap {PRF} : \E p \in {q \in 0..(LenOf(wit[i]) - 64) : q % 32 = 0} :
             Op(i, [op |-> "exch", pos |-> p, n |-> 32]) /\ Did

Submit == phase = "edit" /\ phase' = "sent" /\ UNCHANGED <<run, wit, edits>>
Next == Drop \/ Swap \/ Graft \/ Flip \/ Cut \/ Void \/ Pad \/ Front \/ Huge \/ Zero \/ Ones \/ Exch \/ Submit
Spec == Init /\ [][Next]_vars

(*------------------------------- the verdict --------------------------------*)
RECURSIVE Apply(_, _)
Apply(bs, ops) ==
  IF ops = <<>> THEN bs
  ELSE LET o == Head(ops)
           n == CASE o.op = "cut" -> SubSeq(bs, 1, Len(bs) - o.n)
                  [] o.op = "pad" -> bs \o o.bytes
                  [] o.op = "front" -> o.bytes \o bs
                  [] o.op = "huge" -> [k \in 1..o.n |-> 0]
                  [] o.op = "flip" -> [bs EXCEPT ![o.pos + 1] = (IF (@ \div 2^o.bit) % 2 = 1 THEN @ - 2^o.bit ELSE @ + 2^o.bit)]
                  [] OTHER -> bs
       IN Apply(n, Tail(ops))
\* what the verifier reads at slot i as program or input
Public(i) == IF i > Len(wit) THEN <<-1>>
             ELSE IF wit[i].idx \in {CODE, INPUT} THEN Apply(BytesOf(wit[i]), wit[i].ops)
             ELSE <<-2>>
Intact(i) == i <= Len(wit) /\ wit[i].idx = i /\ wit[i].ops = <<>>
SameKey(r, q) == Runs[r].vk = Runs[q].vk
\* a statement is proven by the proof at slot 3 under the key at slot 2
Proven == /\ Intact(PAR) /\ Intact(VK) /\ Intact(PRF)
          /\ SameKey(wit[VK].run, wit[PRF].run)
          /\ Public(CODE) = Runs[wit[PRF].run].code
          /\ Public(INPUT) = Runs[wit[PRF].run].input
Fits == \A i \in Slots : \A k \in 1..Len(wit[i].ops) : wit[i].ops[k].op # "huge"
Accepts == Len(wit) = 5 /\ Fits /\ Proven

\* C10: no edited statement is accepted (an edit that restores the statement is none)
Binding == phase = "sent" /\ Accepts =>
             /\ Public(CODE) = Runs[wit[PRF].run].code /\ Public(INPUT) = Runs[wit[PRF].run].input
\* C09: the honest transaction is accepted
Honest == phase = "sent" /\ edits = 0 => Accepts
Export == phase = "sent" /\ EmitCases =>
            PrintT(ToJson([wit |-> wit, edits |-> edits, accept |-> Accepts]))
=============================================================================
