--------------------------------- MODULE Commit ---------------------------------
(* Commitments to polynomials of small integer coefficients. With the trapdoor s   *)
(* the commitment is the value at s (times the generator), in whatever form the     *)
(* polynomial is given and whatever size the parameters have been cut down to.      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS K, S, Coeffs, MaxDeg, Rands, Emit
VARIABLES k, poly, done
vars == <<k, poly, done>>
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
RECURSIVE At(_, _)
At(p, x) == IF p = <<>> THEN 0 ELSE p[1] + x * At(Tail(p), x)
\* step by step: the parameters are cut down, then a polynomial is built
Init == k = K /\ poly = <<>> /\ done = FALSE
Cut == ~done /\ poly = <<>> /\ k > 0 /\ k' = k - 1 /\ UNCHANGED <<poly, done>>
Grow == /\ ~done /\ Len(poly) < Pow2(k) /\ Len(poly) <= MaxDeg
        /\ \E c \in Coeffs : poly' = Append(poly, c)
        /\ UNCHANGED <<k, done>>
Dense == /\ ~done /\ poly = <<>> /\ \E r \in Rands : poly' = [i \in 1..Pow2(k) |-> ((r * 7919 + i * 104729 + i * i * 31 * r) % 7) - 3]
         /\ done' = TRUE /\ UNCHANGED k
Next == Cut \/ Grow \/ Dense
Spec == Init /\ [][Next]_vars
\* a commitment is linear, and shifting the coefficients multiplies by s
Linear == ~done => At([i \in 1..Len(poly) |-> 2 * poly[i]], S) = 2 * At(poly, S)
Shift == (~done /\ Len(poly) < 6) => At(<<0>> \o poly, S) = S * At(poly, S)
Export == Emit => PrintT(ToJson([k |-> k, poly |-> poly, dense |-> done]))
=============================================================================
