---------------------------------- MODULE Batch ----------------------------------
(* Verifying several proofs with one final check. Each proof leaves an error (0 for   *)
(* a valid one); the accumulator is multiplied by a factor before the next error is   *)
(* added, and the batch is accepted when the final accumulator is 0. Errors and       *)
(* factors live in a field of Q elements. The adversary chooses each error knowing    *)
(* everything except factors still to be drawn; `outcomes` are the values the         *)
(* accumulator can take over all draws.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Q,        \* prime
          Max,      \* proofs in a batch
          Factors,  \* factors that may be drawn
          Bases,    \* names of the valid proofs that are batched or spoilt
          Emit
ASSUME Factors \subseteq 1..(Q - 1) /\ Factors # {}
VARIABLES batch, outcomes
vars == <<batch, outcomes>>
\* what a prover can submit: a valid proof; a spoilt one; one spoilt so that the batch closes, should the factor be the one foreseen
Kinds == {"good", "bad", "cancel"}
Fold(e) == {(r * a + e) % Q : r \in Factors, a \in outcomes}
\* with a single possible factor an adversary can foresee it
Foreseen == CHOOSE r \in Factors : TRUE
Error(k, x) == CASE k = "good" -> 0
                 [] k = "bad" -> x
                 [] k = "cancel" -> LET a == CHOOSE a \in outcomes : a # 0 IN (Q * Q - Foreseen * a) % Q
Init == batch = <<>> /\ outcomes = {0}
Submit == /\ Len(batch) < Max
          /\ \E k \in Kinds, b \in Bases, x \in 1..2 :
               /\ (k = "cancel") => (\E a \in outcomes : a # 0)
               /\ k # "bad" => x = 1
               /\ batch' = Append(batch, [kind |-> k, base |-> b, x |-> x])
               /\ outcomes' = Fold(Error(k, x))
Next == Submit
Spec == Init /\ [][Next]_vars
AllValid == \A i \in DOMAIN batch : batch[i].kind = "good"
\* a batch of valid proofs is always accepted
Complete == AllValid => outcomes = {0}
\* one invalid proof, whatever else is in the batch, and the batch may not be counted on to pass
Sound == ~AllValid => outcomes # {0}
\* each draw that lets an invalid batch through is one out of Q - 1
Export == Emit => PrintT(ToJson([batch |-> batch, accept |-> AllValid]))
==================================================================================
