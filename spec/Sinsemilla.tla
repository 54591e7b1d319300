-------------------------------- MODULE Sinsemilla --------------------------------
(* The Sinsemilla hash, step by step. A point is a formal sum of generators: the      *)
(* domain's starting point (index -1) and S(0)..S(1023); nobody knows a relation      *)
(* between them, so two messages give the same sum only if they are the same padded   *)
(* message (Injective). One step of the hash is acc' = (acc + S(m)) + acc. The sums   *)
(* are exported as <<generator, e>>, meaning 2^e times the generator.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt, Functions

CONSTANTS Op,        \* "host", "hash", "commit", "short", "layer", "root", "root2"
          Msgs,      \* host: bit strings; hash, commit, short: sequences of <<size, words>>; layer: <<l, left, right>>; root: <<nodes>>, numbers as sets of bits
          Rs,        \* blinding scalars, as sets of bits
          Poss,      \* positions of the leaf
          Domains,
          Forge,     \* let the dishonest prover try
          Emit
VARIABLES msg, r, pos, domain, acc, i
vars == <<msg, r, pos, domain, acc, i>>

K == 10
Pow(n) == 2 ^ n
\* little-endian words of a bit string, padded with zeros
Bit(b, j) == IF j <= Len(b) THEN b[j] ELSE 0
WordsOf(b) == [w \in 1..((Len(b) + K - 1) \div K) |-> FoldLeft(LAMBDA s, j : s + Bit(b, K * (w - 1) + j) * Pow(j - 1), 0, [j \in 1..K |-> j])]
\* a number below 2^n, given by its set of bits
Str(s, n) == [j \in 1..n |-> IF (j - 1) \in s THEN 1 ELSE 0]
Num(n) == {e \in 0..9 : (n \div Pow(e)) % 2 = 1}

Words == CASE Op = "host" -> WordsOf(msg)
           [] Op \in {"hash", "commit", "short"} -> FoldLeft(LAMBDA s, p : s \o SubSeq(p[2], 1, p[1]), <<>>, msg)
           [] Op = "layer" -> WordsOf(Str(Num(msg[1]), K) \o Str(msg[2], 255) \o Str(msg[3], 255))
           [] OTHER -> <<>>
N == Len(Words)
\* a piece has to fit into the words announced for it
Fits == Op \in {"hash", "commit", "short"} => \A p \in Range(msg) : \A j \in 1..Len(p[2]) : j > p[1] => p[2][j] = 0

Zero == [g \in {} |-> 0]
Plus(a, b) == [g \in DOMAIN a \cup DOMAIN b |-> (IF g \in DOMAIN a THEN a[g] ELSE 0) + (IF g \in DOMAIN b THEN b[g] ELSE 0)]
One(g) == [h \in {g} |-> 1]

Init == /\ msg \in Msgs /\ r \in Rs /\ pos \in Poss /\ domain \in Domains
        /\ acc = One(-1) /\ i = 0
Small == N <= 24       \* coefficients that TLC can hold
Step == /\ Small /\ i < N
        /\ i' = i + 1
        /\ acc' = Plus(Plus(acc, One(Words[i + 1])), acc)
        /\ UNCHANGED <<msg, r, pos, domain>>
Next == Step
Spec == Init /\ [][Next]_vars
Done == ~Small \/ i = N

Terms == <<<<-1, N>>>> \o [w \in 1..N |-> <<Words[w], N - w>>]
\* ---- what holds of the specification
Closed == (Small /\ i = N) => acc = FoldLeft(LAMBDA s, t : Plus(s, [g \in {t[1]} |-> Pow(t[2])]), Zero, Terms)
\* the coefficients give the words back: each sum of powers has its powers as binary digits
Injective == (Small /\ i = N) => /\ acc[-1] = Pow(N)
                                 /\ \A w \in 1..N : (acc[Words[w]] \div Pow(N - w)) % 2 = 1
                                 /\ FoldFunctionOnSet(+, 0, acc, DOMAIN acc \ {-1}) = Pow(N) - 1
Sides == [l \in 1..3 |-> IF (pos \div Pow(l - 1)) % 2 = 0 THEN "left" ELSE "right"]
Seqs(S) == SetToSortSeq(S, <)
Export == (Emit /\ Done) =>
   PrintT(ToJson(CASE Op = "host" -> [bits |-> msg, terms |-> Terms, r |-> Seqs(r), domain |-> domain]
                   [] Op \in {"hash", "commit", "short"} -> [op |-> Op, pieces |-> [j \in DOMAIN msg |-> msg[j][2]], sizes |-> [j \in DOMAIN msg |-> msg[j][1]], r |-> Seqs(r), terms |-> Terms, ok |-> Fits, forge |-> Forge]
                   [] Op = "layer" -> [op |-> Op, l |-> msg[1], left |-> Seqs(msg[2]), right |-> Seqs(msg[3]), terms |-> Terms, ok |-> TRUE, forge |-> Forge]
                   [] OTHER -> [op |-> Op, nodes |-> [j \in DOMAIN msg |-> Seqs(msg[j])], pos |-> pos, sides |-> Sides, ok |-> TRUE]))
=============================================================================
