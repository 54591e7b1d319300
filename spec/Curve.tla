--------------------------------- MODULE Curve ---------------------------------
(* The group of a curve y^2 = x^3 + b. Two registers hold points; an operation      *)
(* replaces the first. A point is kept twice: as a multiple of the generator (the   *)
(* group is cyclic, so the specified result of an operation is arithmetic on the    *)
(* multiples) and as an affine point of a small curve that moves by the chord and   *)
(* tangent law. TLC checks that the two agree. The real curves follow the multiples.*)
(* Multiples are vectors <<c0, c1, c2, c3>> standing for c0 + c1 2^64 + c2 2^128 + c3 2^192. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS P, B, G,      \* the small curve: field, constant, generator
          N,            \* its order
          Starts,       \* multiples (integers) to start with
          Reps,         \* how the first operand is represented
          Scalars,      \* scalar vectors
          Ops, Depth, Emit
VARIABLES a, b, pa, pb, first, rep, prog, want
vars == <<a, b, pa, pb, first, rep, prog, want>>

\* ---- the small curve
Inf == <<-1, -1>>
RECURSIVE Pow(_, _)
Pow(x, e) == IF e = 0 THEN 1 ELSE IF e % 2 = 1 THEN (x * Pow(x, e - 1)) % P ELSE Pow((x * x) % P, e \div 2)
Inv(x) == Pow(x % P, P - 2)
OnCurve(p) == p = Inf \/ (p[2] * p[2] - p[1] * p[1] * p[1] - B) % P = 0
NegP(p) == IF p = Inf THEN Inf ELSE <<p[1], (P - p[2]) % P>>
Chord(p, q, l) == LET x == (l * l - p[1] - q[1]) % P IN <<x, (l * (p[1] - x) - p[2]) % P>>
AddP(p, q) ==
  CASE p = Inf -> q
    [] q = Inf -> p
    [] p[1] = q[1] /\ p[2] # q[2] -> Inf
    [] p = q /\ p[2] = 0 -> Inf
    [] p = q -> Chord(p, q, (3 * p[1] * p[1] * Inv(2 * p[2])) % P)
    [] OTHER -> Chord(p, q, ((q[2] - p[2]) * Inv(q[1] - p[1])) % P)
RECURSIVE Times(_, _)
Times(k, p) == IF k = 0 THEN Inf ELSE AddP(p, Times(k - 1, p))
Table == [k \in 0..N-1 |-> Times(k, G)]
\* ---- multiples
Z(n) == <<n, 0, 0, 0>>
VAdd(u, v) == [i \in 1..4 |-> u[i] + v[i]]
VNeg(u) == [i \in 1..4 |-> -u[i]]
VScale(k, u) == [i \in 1..4 |-> k * u[i]]
RECURSIVE Two(_)
Two(e) == IF e = 0 THEN 1 % N ELSE (2 * Two(e - 1)) % N
W64 == Two(64)
ModN(u) == (u[1] + W64 * ((u[2] + W64 * ((u[3] + W64 * (u[4] % N)) % N)) % N)) % N
Point(u) == Table[ModN(u)]

Init == /\ \E x \in Starts, y \in Starts : a = Z(x) /\ b = Z(y) /\ first = <<x, y>>
        /\ rep \in Reps \X Reps
        /\ pa = Point(a) /\ pb = Point(b)
        /\ prog = <<>> /\ want = <<>>
Small(u) == u[2] = 0 /\ u[3] = 0 /\ u[4] = 0
\* the result of an operation: multiple and small point
Res(op) ==
  CASE op.o = "add" -> <<VAdd(a, b), AddP(pa, pb)>>
    [] op.o = "sub" -> <<VAdd(a, VNeg(b)), AddP(pa, NegP(pb))>>
    [] op.o = "neg" -> <<VNeg(a), NegP(pa)>>
    [] op.o = "double" -> <<VScale(2, a), AddP(pa, pa)>>
    [] op.o = "affine" -> <<a, pa>>          \* convert to affine and back
    [] op.o = "encode" -> <<a, pa>>          \* to bytes and back
    [] op.o = "rescale" -> <<a, pa>>         \* another representation of the same point
    [] op.o = "swap" -> <<b, pb>>
    [] op.o = "mul" -> <<VScale(a[1], op.k), Times(ModN(op.k), pa)>>
Do == /\ Len(prog) < Depth
      /\ \E o \in Ops : \E k \in (IF o = "mul" THEN Scalars ELSE {Z(0)}) :
           LET op == [o |-> o, k |-> k]
               r == Res(op)
           IN /\ o = "mul" => Small(a)
              /\ a' = r[1] /\ pa' = r[2]
              /\ IF o = "swap" THEN b' = a /\ pb' = pa ELSE UNCHANGED <<b, pb>>
              /\ prog' = Append(prog, op)
              /\ want' = Append(want, r[1])
      /\ UNCHANGED <<rep, first>>
Next == Do
Spec == Init /\ [][Next]_vars

Law == OnCurve(pa) /\ OnCurve(pb) /\ pa = Point(a) /\ pb = Point(b)
Export == (Emit /\ Len(prog) = Depth) => PrintT(ToJson([first |-> first, rep |-> rep, prog |-> prog, want |-> want]))
=============================================================================
