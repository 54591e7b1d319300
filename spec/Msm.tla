---------------------------------- MODULE Msm ----------------------------------
(* Sums of scalar multiples: lists of (scalar, point) where the point is a small    *)
(* multiple of the generator and the scalar a vector over 1, 2^64, 2^128, 2^192     *)
(* (see Curve.tla). The specified sum is that of the products.                      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS Scalars,   \* sequence of scalar vectors
          Points,    \* sequence of multiples
          MaxLen,    \* all lists up to this length
          Longs,     \* set of <<length, seed>> of long pseudo-random lists
          Emit
VARIABLES list, sum
vars == <<list, sum>>
Plus(u, k, m) == [i \in 1..4 |-> u[i] + m * k[i]]
Zero == <<0, 0, 0, 0>>
RECURSIVE Total(_)
Total(l) == IF l = <<>> THEN Zero ELSE Plus(Total(Tail(l)), l[1][1], l[1][2])
RECURSIVE Rand(_, _)
Rand(n, s) == IF n = 0 THEN <<>> ELSE
  LET t == (s * 1103 + 12345) % 65536 IN
  Append(Rand(n - 1, t), <<Scalars[((t \div 7) % Len(Scalars)) + 1], Points[((t \div 131) % Len(Points)) + 1]>>)
Init == (list = <<>> /\ sum = Zero) \/ \E l \in Longs : list = Rand(l[1], l[2]) /\ sum = Total(Rand(l[1], l[2]))
Next == /\ Len(list) < MaxLen
        /\ \E i \in DOMAIN Scalars, j \in DOMAIN Points : list' = Append(list, <<Scalars[i], Points[j]>>) /\ sum' = Plus(sum, Scalars[i], Points[j])
Spec == Init /\ [][Next]_vars
\* the order of the terms and how the list is cut do not matter
Linear == sum = Total(list) /\ sum = Total(Reverse(list))
          /\ \A c \in 0..Len(list) : c > 4 \/ LET x == Total(SubSeq(list, 1, c)) y == Total(SubSeq(list, c + 1, Len(list))) IN sum = [i \in 1..4 |-> x[i] + y[i]]
Export == Emit => PrintT(ToJson([list |-> list, sum |-> sum]))
=============================================================================
