------------------------------- MODULE FieldTrace ------------------------------
(* Checks a recorded trace of field operations against exact arithmetic modulo P.   *)
(* Each record holds the operands, the result and the quotient that makes the       *)
(* defining equation hold over the integers; the quotient is a witness only, the    *)
(* equation is checked here.                                                        *)
EXTENDS Bignum, FiniteSets, TLC, Json
CONSTANTS P,        \* modulus
          Two256,   \* 2^256
          File, Chunk
VARIABLES i
Trace == ndJsonDeserialize(File)
Init == i \in {j \in DOMAIN Trace : j % Chunk = 1 \/ Chunk = 1}
Next == i + 1 \in DOMAIN Trace /\ (i + 1) % Chunk # 1 /\ i' = i + 1
Spec == Init /\ [][Next]_i
T(x, y) == <<x, y>>
N(x) == <<x, One>>
Element(r) == Less(r, P)
Boolean(b, x) == b = IF x THEN 1 ELSE 0
Holds(t) ==
  CASE t.op = "repr" ->      \* from_repr: exactly the reduced numbers are accepted, and read back
         /\ Boolean(t.ok, Less(t.a, P))
         /\ t.ok = 1 => Same(t.r, t.a)
    [] t.op = "raw" ->       \* raw bytes: exactly the reduced numbers; the value times 2^256 is the raw number
         /\ Boolean(t.ok, Less(t.a, P))
         /\ t.ok = 1 => /\ Element(t.r) /\ Same(t.s, t.a)
                        /\ Equal(<<T(t.r, Two256)>>, <<T(t.q, P), N(t.a)>>)
    [] t.op = "add" -> Element(t.r) /\ Equal(<<N(t.a), N(t.b)>>, <<N(t.r), T(t.q, P)>>)
    [] t.op = "sub" -> Element(t.r) /\ Equal(<<N(t.a), T(t.q, P)>>, <<N(t.b), N(t.r)>>)
    [] t.op = "neg" -> Element(t.r) /\ Equal(<<T(t.q, P)>>, <<N(t.a), N(t.r)>>)
    [] t.op = "mul" -> Element(t.r) /\ Equal(<<T(t.a, t.b)>>, <<N(t.r), T(t.q, P)>>)
    [] t.op = "reduce" -> Element(t.r) /\ Equal(<<N(t.a)>>, <<N(t.r), T(t.q, P)>>)
    [] t.op = "inv" ->       \* zero and only zero has no inverse
         IF Same(t.a, <<>>) THEN t.ok = 0
         ELSE t.ok = 1 /\ Element(t.r) /\ Equal(<<T(t.a, t.r)>>, <<N(One), T(t.q, P)>>)
    [] t.op = "sqrt" ->      \* t.b is a root of a (ok expected), or of a times a number that has none
         /\ t.ok = t.s
         /\ IF t.s = 1 THEN Element(t.r) /\ Equal(<<T(t.r, t.r)>>, <<N(t.a), T(t.q, P)>>) ELSE TRUE
    [] t.op = "cmp" -> t.ok = IF Less(t.a, t.b) THEN 0 ELSE IF Same(t.a, t.b) THEN 1 ELSE 2
    [] t.op = "odd" -> t.ok = Bit(t.a, 0)
    [] t.op = "low" -> (\A k \in 0..127 : Bit(t.r, k) = Bit(t.a, k)) /\ Len(t.r) <= 11 /\ \A k \in 128..140 : Bit(t.r, k) = 0
    [] t.op = "low32" -> (\A k \in 0..31 : Bit(t.r, k) = Bit(t.a, k)) /\ Len(t.r) <= 3
    [] t.op = "modulus" -> Same(t.a, P) /\ Same(t.r, P)
    [] t.op = "same" -> Same(t.a, t.r)
Judge == Holds(Trace[i]) \/ PrintT(ToJson([bad |-> i]))
=============================================================================
