-------------------------------- MODULE Poseidon --------------------------------
(* The Poseidon hash as published: constants from the Grain LFSR, the unoptimised     *)
(* round function, and the two sponges of the repository as state machines over the   *)
(* history of absorb and squeeze calls.                                               *)
EXTENDS Field

CONSTANTS Bits,      \* number of bits of P
          Tw,        \* state width
          RF, RP,    \* full and partial rounds
          Skip,      \* matrices passed over (second sponge)
          Raw,       \* number of bit pairs to draw (an upper bound on what is needed)
          MaxOps, Chunks,
          Which,     \* "varlen", "const" or "chip"
          MaxLen,    \* longest input ("const")
          Emit

Rate == Tw - 1
BitsOf(v, n) == [i \in 1..n |-> (v \div TwoTo(n - i)) % 2]
Seed == BitsOf(1, 2) \o BitsOf(0, 4) \o BitsOf(Bits, 12) \o BitsOf(Tw, 12) \o BitsOf(RF, 10) \o BitsOf(RP, 10) \o [i \in 1..30 |-> 1]
Fresh(s) == (s[63] + s[52] + s[39] + s[24] + s[14] + s[1]) % 2
Shift(s) == Append(Tail(s), Fresh(s))
Warm == FoldLeft(LAMBDA s, i : Shift(s), Seed, [i \in 1..160 |-> i])
\* self-shrinking: of each pair of new bits, the second one counts if the first one is set
Pair(g, i) == LET s1 == Shift(g.s)  s2 == Shift(s1) IN
              [s |-> s2, acc |-> IF s1[80] = 0 THEN g.acc ELSE IF g.n = Bits - 1 THEN 0 ELSE 2 * g.acc + s2[80],
               n |-> IF s1[80] = 0 THEN g.n ELSE (g.n + 1) % Bits,
               out |-> IF s1[80] = 1 /\ g.n = Bits - 1 THEN Append(g.out, 2 * g.acc + s2[80]) ELSE g.out]
Values == FoldLeft(Pair, [s |-> Warm, acc |-> 0, n |-> 0, out |-> <<>>], [i \in 1..Raw |-> i]).out
NC == (RF + RP) * Tw
\* positions of the values that are kept for round constants: those below P
Taken == FoldLeft(LAMBDA t, v : IF Len(t.c) = NC THEN t ELSE [c |-> IF v < P THEN Append(t.c, v) ELSE t.c, used |-> t.used + 1],
                  [c |-> <<>>, used |-> 0], Values)
RC == [r \in 1..RF+RP |-> [i \in 1..Tw |-> Taken.c[(r - 1) * Tw + i]]]
Group(k) == [i \in 1..2*Tw |-> Values[Taken.used + (k - 1) * 2 * Tw + i] % P]
Distinct(g) == Cardinality({g[i] : i \in 1..2*Tw}) = 2 * Tw
Groups == (Len(Values) - Taken.used) \div (2 * Tw)
\* first sponge: the first group whatever it is; second sponge: distinct ones only, passing over Skip of them
Chosen == IF Which = "varlen" THEN Group(1)
          ELSE Group(CHOOSE k \in 1..Groups : Distinct(Group(k)) /\ Cardinality({m \in 1..k-1 : Distinct(Group(m))}) = Skip)
Mds == [i \in 1..Tw |-> [j \in 1..Tw |-> Inv(Add(Chosen[i], Chosen[Tw + j]))]]
Usable == /\ Len(Taken.c) = NC /\ Groups >= 1
          /\ \A i, j \in 1..Tw : Add(Chosen[i], Chosen[Tw + j]) # 0
          /\ \A i, j \in 1..Tw : i # j => Chosen[i] # Chosen[j] /\ Chosen[Tw + i] # Chosen[Tw + j]

Sbox(y) == LET q == Mul(y, y) IN Mul(Mul(q, q), y)
Mix(s) == [i \in 1..Tw |-> Sum([j \in 1..Tw |-> Mul(Mds[i][j], s[j])])]
Round(s, r) == LET u == [i \in 1..Tw |-> Add(s[i], RC[r][i])]
                   full == r <= RF \div 2 \/ r > RF \div 2 + RP
               IN Mix([i \in 1..Tw |-> IF full \/ i = 1 THEN Sbox(u[i]) ELSE u[i]])
Permute(s) == FoldLeft(LAMBDA t, r : Round(t, r), s, [r \in 1..RF+RP |-> r])
Two64 == Pow(2, 64)

------------------------------------------------------------------------------------
\* First sponge: elements are absorbed into words 2.., padding is a single 1, the digest is word 2.
VARIABLES st,      \* permutation state
          buf,     \* absorbed, not yet permuted
          ops,     \* the calls so far
          outs,    \* digests so far
          log      \* elements since the last squeeze
vars == <<st, buf, ops, outs, log>>
Zero == [i \in 1..Tw |-> IF i = 1 THEN Two64 ELSE 0]
Into(s, c) == [i \in 1..Tw |-> IF i > 1 /\ i - 1 <= Len(c) THEN Add(s[i], c[i - 1]) ELSE s[i]]
RECURSIVE Absorb(_, _)
Absorb(s, c) == IF Len(c) < Rate THEN [st |-> s, buf |-> c]
                ELSE Absorb(Permute(Into(s, SubSeq(c, 1, Rate))), SubSeq(c, Rate + 1, Len(c)))
\* the elements of a chunk: distinct, among them 0 and -1
Elem(n) == CASE n % 5 = 2 -> 0 [] n % 5 = 4 -> P - 1 [] OTHER -> (17 * n * n + 3) % P
ChunkOf(n) == LET from == FoldLeft(LAMBDA c, o : c + Len(o), 0, ops) IN [i \in 1..n |-> Elem(from + i)]
Init == st = Zero /\ buf = <<>> /\ ops = <<>> /\ outs = <<>> /\ log = <<>>
Update == \E n \in Chunks : LET c == ChunkOf(n)  r == Absorb(st, buf \o c) IN
            /\ st' = r.st /\ buf' = r.buf /\ ops' = Append(ops, c) /\ log' = log \o c /\ UNCHANGED outs
Squeeze == LET s == Permute(Into(st, Append(buf, 1))) IN
            /\ st' = s /\ buf' = <<>> /\ outs' = Append(outs, s[2]) /\ ops' = Append(ops, <<-1>>) /\ log' = <<>>
\* Second sponge: one input of any length, the length in the last word, zero padding, the digest is word 1.
Cap(len) == [i \in 1..Tw |-> IF i = Tw THEN Mul(len % P, Two64) ELSE 0]
AddTo(s, c) == [i \in 1..Tw |-> IF i <= Len(c) THEN Add(s[i], c[i]) ELSE s[i]]
RECURSIVE HashFrom(_, _)
HashFrom(s, c) == LET t == Permute(AddTo(s, SubSeq(c, 1, IF Len(c) < Rate THEN Len(c) ELSE Rate))) IN
                  IF Len(c) <= Rate THEN t[1] ELSE HashFrom(t, SubSeq(c, Rate + 1, Len(c)))
HashConst == \E n \in 1..MaxLen : \E z \in 0..6 :
               LET c == [i \in 1..n |-> Elem(i + z * 7)] IN
               /\ ops = <<>> /\ ops' = <<c>> /\ outs' = <<HashFrom(Cap(n), c)>> /\ UNCHANGED <<st, buf, log>>
\* The chip: one call of the permutation, or a sponge into which message words (kind 0) and words fixed by the
\* circuit (kind 1) go, in blocks of Rate, and out of which any number of words comes.
Words(n, z, k) == [i \in 1..n |-> <<IF k = 0 \/ i % 3 # k % 3 THEN 0 ELSE 1, Elem(i + z * 5)>>]
RECURSIVE Soak(_, _)
Soak(s, c) == IF c = <<>> THEN s ELSE Soak(Permute(AddTo(s, SubSeq(c, 1, Rate))), SubSeq(c, Rate + 1, Len(c)))
RECURSIVE Wring(_, _)
Wring(s, m) == IF m <= Rate THEN SubSeq(s, 1, m) ELSE SubSeq(s, 1, Rate) \o Wring(Permute(s), m - Rate)
ChipPermute == \E x \in [1..Tw -> IF P < 20 THEN F ELSE {0, 1, 2, 50, P - 1}] :
                 /\ ops = <<>> /\ ops' = <<x>> /\ outs' = Permute(x) /\ log' = <<0>> /\ UNCHANGED <<st, buf>>
ChipSponge == \E blocks \in 1..2, m \in {1, Rate, Rate + 1, 2 * Rate + 1}, z \in 0..2, k \in 0..2, d \in {0, 1, MaxLen} :
                LET w == Words(blocks * Rate, z, k) IN
                /\ ops = <<>> /\ ops' = w /\ outs' = Wring(Soak(Cap(d), [i \in 1..Len(w) |-> w[i][2]]), m)
                /\ log' = <<d>> /\ buf' = <<0>> /\ UNCHANGED st
Next == IF Which = "chip" THEN ChipPermute \/ ChipSponge ELSE IF Which = "varlen" THEN Len(ops) < MaxOps /\ (Update \/ Squeeze) ELSE HashConst
Spec == Init /\ [][Next]_vars

Good == Usable
\* only the concatenation of what was absorbed matters, never how it was cut into calls
Chunking == Which = "varlen" /\ outs = <<>> => [st |-> st, buf |-> buf] = Absorb(Zero, log)
Kind == IF Which # "chip" THEN Which ELSE IF buf = <<>> THEN "permute" ELSE "sponge"
Dom == IF Which = "chip" /\ log # <<>> THEN log[1] ELSE 0
Export == Emit /\ outs # <<>> /\ (Which \in {"const", "chip"} \/ Last(ops) = <<-1>>) =>
   PrintT(ToJson([which |-> Kind, dom |-> Dom, t |-> Tw, rf |-> RF, rp |-> RP, skip |-> Skip, ops |-> ops, outs |-> outs, p |-> P]))
=============================================================================
