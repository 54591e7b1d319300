-------------------------------- MODULE Pairing --------------------------------
(* A pairing of two cyclic groups, by exponents: the pairing of a G and b H is     *)
(* a b times e(G, H), a product of pairings is the sum. A register holds an element*)
(* of the target group; operations on it follow.                                    *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS N,          \* order of the small group used to check the laws
          Left, Right, MaxTerms, Scalars, Ops, Depth, Emit
VARIABLES terms, acc, prog, want
vars == <<terms, acc, prog, want>>
Sum(s) == FoldLeft(LAMBDA t, u : t + u, 0, s)
Value(ts) == Sum([i \in 1..Len(ts) |-> ts[i][1] * ts[i][2]])
Init == terms = <<>> /\ acc = 0 /\ prog = <<>> /\ want = <<>>
Term == /\ prog = <<>> /\ Len(terms) < MaxTerms
        /\ \E a \in Left, b \in Right : terms' = Append(terms, <<a, b>>) /\ acc' = acc + a * b
        /\ UNCHANGED <<prog, want>>
Res(o, k) == CASE o = "double" -> 2 * acc [] o = "neg" -> -acc [] o = "mul" -> k * acc
               [] o = "add" -> acc + k [] o = "sub" -> acc - k
Do == /\ Len(prog) < Depth
      /\ \E o \in Ops : \E k \in (IF o \in {"double", "neg"} THEN {0} ELSE Scalars) :
           /\ prog' = Append(prog, [o |-> o, k |-> k])
           /\ acc' = Res(o, k)
           /\ want' = Append(want, Res(o, k))
      /\ UNCHANGED terms
Next == Term \/ Do
Spec == Init /\ [][Next]_vars
\* bilinearity, non-degeneracy and the product, on the small group
Bilinear == prog = <<>> => /\ acc = Value(terms)
                           /\ \A i \in 1..Len(terms) : LET t == terms[i] IN
                                Value([terms EXCEPT ![i] = <<t[1] + 1, t[2]>>]) = acc + t[2]
Degenerate == (prog = <<>> /\ Len(terms) = 1) => ((acc % N = 0) <=> (terms[1][1] % N = 0 \/ terms[1][2] % N = 0))
Export == (Emit /\ Len(prog) = Depth) => PrintT(ToJson([terms |-> terms, value |-> Value(terms), prog |-> prog, want |-> want]))
=============================================================================
