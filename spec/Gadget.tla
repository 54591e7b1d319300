---------------------------------- MODULE Gadget ----------------------------------
(* What the utility gadgets promise about the cells a caller can see: a tuple of      *)
(* visible values is provable exactly when it is in the relation of the gadget,       *)
(* whatever else the prover writes into the table. The field is small, so the         *)
(* relation is enumerated in full.                                                    *)
EXTENDS Field

CONSTANTS Op,       \* "swap", "running", "lookup", "short", "bits", "check"
          Bits,     \* number of bits of P
          MaxK,     \* windows of 1..MaxK bits
          MaxW,     \* at most so many windows
          Emit

VARIABLES par,      \* parameters of the instance
          in        \* the input
vars == <<par, in>>

\* running sum: z[i] holds what is left after i-1 windows
Window(K, z, i) == Sub(z[i], Mul(TwoTo(K) % P, z[i + 1]))
Running(q, z) == /\ \A i \in 1..q.w : Window(q.k, z, i) < TwoTo(q.k)
                 /\ q.strict => z[q.w + 1] = 0
RECURSIVE Extend(_, _)
\* all running sums that start with the values z
Extend(q, zs) == IF \A z \in zs : Len(z) = q.w + 1 THEN {z \in zs : Running(q, z)}
                 ELSE Extend(q, UNION {{Append(z, Div(Sub(z[Len(z)], d), TwoTo(q.k) % P)) : d \in 0..TwoTo(q.k)-1} : z \in zs})
Canonical(q, x) == [i \in 1..q.w+1 |-> x \div TwoTo(q.k * (i - 1))]
Fits(q, x) == x < TwoTo(q.k * q.w)

\* the visible tuples with the given input
Accepts(q, x) ==
  CASE Op = "swap" -> {<<x[1], c, d>> : c \in F, d \in F} \cap ({<<x[1], x[1], d>> : d \in F} \cup {<<x[1], c, x[1]>> : c \in F})
    [] Op \in {"running", "lookup"} -> Extend(q, {<<x[1]>>})
    [] Op = "short" -> IF x[1] < TwoTo(q.s) THEN {<<x[1]>>} ELSE {}
    [] OTHER -> {}
\* what the witness code has to produce (if there is anything to produce)
Honest(q, x) ==
  CASE Op = "swap" -> IF x[3] = 1 THEN <<x[1], x[2], x[1]>> ELSE <<x[1], x[1], x[2]>>
    [] Op \in {"running", "lookup"} -> Canonical(q, x[1])
    [] Op = "short" -> <<x[1]>>
    [] OTHER -> <<>>
\* the functions on bits
BitRange(x, from, to) == (x \div TwoTo(from)) % TwoTo(to - from)
Words(x, n, k) == LET y == x % TwoTo(n) IN [i \in 1..((n + k - 1) \div k) |-> (y \div TwoTo(k * (i - 1))) % TwoTo(k)]
LeBits(x, n) == [i \in 1..n |-> (x \div TwoTo(i - 1)) % 2]
Facts(q, x) ==
  CASE Op = "bits" -> [range |-> [a \in 1..Bits+1 |-> [b \in 1..Bits+1 |-> IF a <= b THEN BitRange(x[1], a - 1, b - 1) ELSE -1]],
                       words |-> [n \in 1..Bits |-> [k \in 1..MaxK |-> Words(x[1], n, k)]],
                       le |-> LeBits(x[1], Bits)]
    [] Op = "check" -> [zero |-> [r \in 1..MaxW |-> x[1] < r], bool |-> x[1] \in {0, 1},
                        pick |-> IF x[1] = 1 THEN x[2] ELSE x[3]]
    [] OTHER -> [none |-> 0]

Pars == CASE Op \in {"running", "lookup"} -> {q \in [k : 1..MaxK, w : 1..MaxW, strict : BOOLEAN, off : {0, 2}] : q.k * q.w <= Bits - 1 /\ (Op = "lookup" => q.off = 0)}
          [] Op = "short" -> {q \in [k : 1..MaxK, s : 0..MaxK] : q.s <= q.k}
          [] OTHER -> {[k |-> 0]}
Ins == CASE Op = "swap" -> {<<a, b, s>> : a \in F, b \in {0, 1, 5, P - 1}, s \in {0, 1}}
         [] Op = "check" -> {<<a, b, c>> : a \in F, b \in {0, 3, P - 1}, c \in {0, 4}}
         [] OTHER -> {<<a>> : a \in F}

Init == par \in Pars /\ in \in Ins
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* why the relations are what a caller needs: a strict decomposition has one value only, and exactly the
\* elements that fit have one; the honest witness is in the relation
Sound == Op \in {"running", "lookup"} /\ par.strict => Accepts(par, in) = IF Fits(par, in[1]) THEN {Canonical(par, in[1])} ELSE {}
Complete == Op \in {"swap", "running", "lookup", "short"} /\ (Op \in {"running", "lookup"} /\ par.strict => Fits(par, in[1])) /\ (Op = "short" => in[1] < TwoTo(par.s)) =>
            Honest(par, in) \in Accepts(par, in)
Export == Emit => PrintT(ToJson([op |-> Op, p |-> P, par |-> par, in |-> in, acc |-> SetToSeq(Accepts(par, in)), honest |-> Honest(par, in), facts |-> Facts(par, in)]))
=============================================================================
