----------------------------------- MODULE Ecc -----------------------------------
(* What the curve gadgets promise. A point is a pair of coordinates, the identity is  *)
(* <<0, 0>>. Mode "tiny": the curve y^2 = x^3 + B over a small field on which no      *)
(* point has a zero coordinate; for a tuple of input coordinates (points or not) the  *)
(* relation gives every tuple of visible values that may be provable. Mode "witness": *)
(* points are multiples of a generator, and the gadget's own witness on the real      *)
(* curve has to carry the multiple given here (TLC checks on the small curve, for     *)
(* operations without a scalar, that the multiple is the one of the group law).       *)
EXTENDS Field

CONSTANTS Mode, B, G, N,      \* constant of the curve, a generator and the order of the small group
          Op, Ins, Scalars,   \* operation; inputs (coordinates or multiples); scalars as sums of <<k, e>> = k 2^e, e = -1 for the modulus
          Signs, Emit
VARIABLES in, k, sign
vars == <<in, k, sign>>

Id == <<0, 0>>
OnCurve(p) == Mul(p[2], p[2]) = Add(Mul(Mul(p[1], p[1]), p[1]), B)
Point(p) == OnCurve(p) \/ p = Id
NegP(p) == <<p[1], Neg(p[2])>>
Chord(p, q, l) == LET x == Sub(Sub(Mul(l, l), p[1]), q[1]) IN <<x, Sub(Mul(l, Sub(p[1], x)), p[2])>>
Plus(p, q) == CASE p = Id -> q
                [] q = Id -> p
                [] q = NegP(p) -> Id
                [] p = q -> Chord(p, q, Div(Mul(3, Mul(p[1], p[1])), Mul(2, p[2])))
                [] OTHER -> Chord(p, q, Div(Sub(q[2], p[2]), Sub(q[1], p[1])))
RECURSIVE Times(_)
Times(n) == IF n = 0 THEN Id ELSE Plus(G, Times(n - 1))
Table == TLCEval([n \in 1..N |-> Times(n - 1)])
At(n) == Table[(n % N) + 1]

P1 == <<in[1], in[2]>>
P2 == <<in[3], in[4]>>
P3 == <<in[5], in[6]>>
\* kinds of inputs: may each be the identity?
May == CASE Op \in {"witness", "twice", "ext"} -> <<TRUE>>
         [] Op \in {"nonid"} -> <<FALSE>>
         [] Op = "add" -> <<TRUE, TRUE>>
         [] Op \in {"addn", "inc"} -> <<FALSE, FALSE>>
         [] Op = "addm" -> <<FALSE, TRUE>>
         [] Op = "eq" -> <<TRUE, FALSE>>
         [] Op = "chain" -> <<TRUE, FALSE, TRUE>>
         [] Op \in {"mul", "mulmul"} -> <<FALSE>>
         [] OTHER -> <<>>
Valid == \A i \in 1..Len(May) : LET p == <<in[2*i - 1], in[2*i]>> IN OnCurve(p) \/ (May[i] /\ p = Id)
Accepts ==
  IF ~Valid THEN {}
  ELSE CASE Op \in {"witness", "nonid"} -> {in}
         [] Op \in {"add", "addn", "addm"} -> {in \o Plus(P1, P2)}
         [] Op = "twice" -> {in \o Plus(P1, P1)}
         [] Op = "inc" -> IF P1[1] = P2[1] THEN {} ELSE {in \o Plus(P1, P2)}
         [] Op = "eq" -> IF P1 = P2 THEN {in} ELSE {}
         [] Op = "ext" -> {in \o <<in[1]>>}
         [] Op = "chain" -> {in \o Plus(Plus(P1, P2), P3)}
\* incomplete addition of a point to itself is excluded by its contract
Specified == ~(Op = "inc" /\ Valid /\ P1 = P2)

\* ---- multiples
Nonzero == \A i \in 1..Len(May) : May[i] \/ in[i] # 0
Fits == LET v == k IN    \* a short magnitude: <<2^a>> or 2^a +- 2^b with a >= b
          IF Len(v) = 0 THEN TRUE
          ELSE IF Len(v) # 2 THEN v[1][2] < 64      \* more than two terms: distinct powers, largest first
          ELSE IF v[2][1] = 1 THEN v[1][2] < 63 \/ (v[1][2] = 63 /\ v[2][2] < 63)
          ELSE v[1][2] <= 64
Possible == CASE Op = "inc" -> in[1] # in[2] /\ in[1] # 0 - in[2] /\ Nonzero
              [] Op = "eq" -> in[1] = in[2] /\ Nonzero
              [] Op = "short" -> Fits /\ sign \in {1, -1}
              [] OTHER -> Nonzero
Result == CASE Op \in {"witness", "nonid", "eq", "ext"} -> <<>>
            [] Op \in {"add", "addn", "addm", "inc"} -> <<in[1] + in[2]>>
            [] Op = "twice" -> <<2 * in[1]>>
            [] Op = "chain" -> <<in[1] + in[2] + in[3]>>
            [] Op = "mul" -> <<in[1]>>       \* times the scalar
            [] Op = "mulmul" -> <<in[1], in[1]>>
            [] OTHER -> <<1>>
\* no coincidences among the operands: the constraints have to leave the result no freedom
Generic == CASE Op \in {"mul", "mulmul", "full", "short", "elem"} -> Len(k) > 2
             [] OTHER -> /\ \A i \in 1..Len(in) : in[i] # 0
                         /\ Op \in {"add", "addn", "addm", "inc"} => in[1] # in[2] /\ in[1] # 0 - in[2]
                         /\ Op = "chain" => in[1] # in[2] /\ in[1] # 0 - in[2] /\ in[1] + in[2] # in[3] /\ in[1] + in[2] # 0 - in[3]

Init == /\ in \in Ins /\ k \in Scalars /\ sign \in Signs
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* ---- what holds of the specification
Shape == /\ \A n \in 0..N-1 : Point(At(n)) /\ (At(n) = Id <=> n = 0)
         /\ Cardinality({p \in F \X F : OnCurve(p)}) = N - 1
         /\ \A p \in F \X F : OnCurve(p) => p[1] # 0 /\ p[2] # 0
Group == (Mode = "tiny" /\ Valid /\ Len(in) >= 4) => Point(Plus(P1, P2)) /\ Plus(P1, P2) = Plus(P2, P1) /\ Plus(Plus(P1, P2), NegP(P2)) = P1
Assoc == (Mode = "tiny" /\ Valid /\ Len(in) = 6) => Plus(Plus(P1, P2), P3) = Plus(P1, Plus(P2, P3))
Multiples == (Mode = "witness" /\ Len(Result) = 1 /\ k = <<>> /\ Len(in) > 0) =>
               At(Result[1]) = (IF Op = "twice" THEN Plus(At(in[1]), At(in[1])) ELSE FoldLeft(LAMBDA s, e : Plus(s, At(e)), Id, in))
Export == (Emit /\ (Mode = "witness" \/ Specified)) =>
   PrintT(ToJson(IF Mode = "tiny" THEN [p |-> P, op |-> Op, in |-> in, acc |-> SetToSeq(Accepts)]
                 ELSE [op |-> Op, exps |-> in, k |-> k, sign |-> sign, ok |-> Possible, out |-> Result, rigid |-> Generic]))
=============================================================================
