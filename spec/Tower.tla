--------------------------------- MODULE Tower ---------------------------------
(* The tower of extension fields of the pairing: u^2 = -1, v^3 = xi = 9 + u,        *)
(* w^2 = v. An element is six pairs of integers, the coefficients of w^0 .. w^5;   *)
(* integers stand for elements of the base field, so that all results of ring      *)
(* operations are specified exactly. Over a small prime P with the same shape of    *)
(* tower TLC also checks what is not a ring operation: the inverse and the          *)
(* Frobenius maps.                                                                   *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS P, Levels, Ops, Dense, Mode, Emit
VARIABLES level, op, x, y, n, want, done
vars == <<level, op, x, y, n, want, done>>

\* ---- pairs
C0 == <<0, 0>>
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Xi(a) == CMul(<<9, 1>>, a)
\* ---- the field, flat: polynomials in w modulo w^6 - xi
Zero == <<C0, C0, C0, C0, C0, C0>>
Tup(f) == <<f[1], f[2], f[3], f[4], f[5], f[6]>>     \* evaluates the function once
One == [Zero EXCEPT ![1] = <<1, 0>>]
Add(a, b) == Tup([i \in 1..6 |-> CAdd(a[i], b[i])])
Scale(k, a) == Tup([i \in 1..6 |-> <<k * a[i][1], k * a[i][2]>>])
Neg(a) == Scale(-1, a)
Re(a, b) == a[1] * b[1] - a[2] * b[2]
Im(a, b) == a[1] * b[2] + a[2] * b[1]
\* coefficient k (0..10) of the product of polynomials in w
Poly(a, b, k) == LET r == [i \in 1..6 |-> LET j == k + 2 - i IN IF j \in 1..6 THEN <<Re(a[i], b[j]), Im(a[i], b[j])>> ELSE C0]
                     t == Tup(r)
                 IN <<t[1][1] + t[2][1] + t[3][1] + t[4][1] + t[5][1] + t[6][1], t[1][2] + t[2][2] + t[3][2] + t[4][2] + t[5][2] + t[6][2]>>
Mul(a, b) == Tup([k \in 1..6 |-> CAdd(Poly(a, b, k - 1), IF k = 6 THEN C0 ELSE Xi(Poly(a, b, k + 5)))])
\* ---- the same, as a tower: 3 pairs with v^3 = xi, and two of those with w^2 = v
SMul(a, b) == << CAdd(CMul(a[1], b[1]), Xi(CAdd(CMul(a[2], b[3]), CMul(a[3], b[2])))),
                 CAdd(CAdd(CMul(a[1], b[2]), CMul(a[2], b[1])), Xi(CMul(a[3], b[3]))),
                 CAdd(CAdd(CMul(a[1], b[3]), CMul(a[2], b[2])), CMul(a[3], b[1])) >>
SAdd(a, b) == <<CAdd(a[1], b[1]), CAdd(a[2], b[2]), CAdd(a[3], b[3])>>
ByV(a) == <<Xi(a[3]), a[1], a[2]>>
Lo(a) == <<a[1], a[3], a[5]>>
Hi(a) == <<a[2], a[4], a[6]>>
TMul(a, b) == LET l == SAdd(SMul(Lo(a), Lo(b)), ByV(SMul(Hi(a), Hi(b))))
                  h == SAdd(SMul(Lo(a), Hi(b)), SMul(Hi(a), Lo(b)))
              IN <<l[1], h[1], l[2], h[2], l[3], h[3]>>
\* ---- modulo the small prime
Red(a) == Tup([i \in 1..6 |-> <<a[i][1] % P, a[i][2] % P>>])
RMul(a, b) == Red(Mul(a, b))
RECURSIVE RPow(_, _)
RPow(a, k) == IF k = 0 THEN One ELSE IF k % 2 = 1 THEN RMul(a, RPow(a, k - 1)) ELSE RPow(RMul(a, a), k \div 2)
RECURSIVE Frob(_, _)
Frob(a, k) == IF k = 0 THEN a ELSE Frob(RPow(a, P), k - 1)
\* x^(P^12 - 2), by the digits of the exponent
RECURSIVE Horner(_, _, _)
Horner(a, acc, k) == IF k = 0 THEN RMul(RPow(acc, P), RPow(a, P - 2)) ELSE Horner(a, RMul(RPow(acc, P), RPow(a, P - 1)), k - 1)
Recip(a) == Horner(a, One, 11)
Conj(a) == Tup([i \in 1..6 |-> IF i % 2 = 1 THEN a[i] ELSE <<-a[i][1], -a[i][2]>>])

\* ---- elements to try
Pos(l) == CASE l = 2 -> {1} [] l = 6 -> {1, 3, 5} [] OTHER -> 1..6
Unit(i, part) == [Zero EXCEPT ![i] = IF part = 1 THEN <<1, 0>> ELSE <<0, 1>>]
Units(l) == {Unit(i, s) : i \in Pos(l), s \in {1, 2}}
Rand(l, seed) == Tup([i \in 1..6 |-> IF i \in Pos(l) THEN <<((seed * 7919 + i * 104729 + 31 * i * i) % 199) - 99, ((seed * 6101 + i * 3571 + 7) % 211) - 105>> ELSE C0])
Elems(l) == Units(l) \cup {Add(a, b) : a, b \in Units(l)} \cup {Neg(a) : a \in Units(l)} \cup {Rand(l, s) : s \in Dense} \cup {Zero}
Few(l) == Units(l) \cup {Rand(l, s) : s \in Dense} \cup {Zero}

Binary == {"mul", "add", "sub"}
Unary == {"square", "double", "neg", "conjugate", "nonresidue", "xi", "v", "norm"}
\* products with elements of which only some coefficients are not zero
Sparse(o) == CASE o = "mul1" -> {3} [] o = "mul01" -> {1, 3} [] o = "mul014" -> {1, 3, 4} [] o = "mul034" -> {1, 2, 4} [] OTHER -> {}
IsSparse(o) == Sparse(o) # {}
Has(l, o) == \/ o \in Binary \cup {"square", "double", "neg", "invert", "frobenius"}
             \/ o = "conjugate" /\ l \in {2, 12}
             \/ o = "nonresidue" /\ l \in {2, 6}
             \/ o \in {"xi", "norm", "sqrt", "nosqrt"} /\ l = 2
             \/ o \in {"v", "mul1", "mul01"} /\ l = 6
             \/ o \in {"mul014", "mul034", "cyclotomic"} /\ l = 12
SparseElems(o) == LET i == Sparse(o) IN
  {Tup([k \in 1..6 |-> IF k \in i THEN Rand(12, s)[k] ELSE C0]) : s \in Dense} \cup {u \in Units(12) : \E k \in i : u[k] # C0}
    \cup {Zero}
Arg(l, o) == IF o \in Binary THEN (IF Mode = "pairs" THEN Elems(l) ELSE Few(l)) ELSE IF IsSparse(o) THEN SparseElems(o) ELSE {Zero}
Times(o) == IF o = "frobenius" THEN 0..13 ELSE {0}
\* what the operation is specified to return; "inverse" and the like are characterised, see Characterised
Value(a, b) ==
  CASE op \in {"mul", "mul1", "mul01", "mul014", "mul034"} -> Mul(a, b)
    [] op = "add" -> Add(a, b)
    [] op = "sub" -> Add(a, Neg(b))
    [] op = "square" -> Mul(a, a)
    [] op = "double" -> Add(a, a)
    [] op = "neg" -> Neg(a)
    [] op = "conjugate" -> IF level = 2 THEN [a EXCEPT ![1] = <<@[1], -@[2]>>] ELSE Conj(a)
    [] op = "nonresidue" /\ level = 2 -> [a EXCEPT ![1] = Xi(@)]
    [] op = "nonresidue" -> Mul(a, [Zero EXCEPT ![3] = <<1, 0>>])
    [] op = "xi" -> [a EXCEPT ![1] = Xi(@)]
    [] op = "v" -> Mul(a, [Zero EXCEPT ![3] = <<1, 0>>])
    [] op = "norm" -> [Zero EXCEPT ![1] = <<a[1][1] * a[1][1] + a[1][2] * a[1][2], 0>>]
    [] op = "sqrt" -> Mul(a, a)                               \* has the roots x and -a
    [] op = "nosqrt" -> Mul([Zero EXCEPT ![1] = <<9, 1>>], Mul(a, a))
    [] OTHER -> Zero
Init == /\ level \in Levels /\ op \in Ops /\ Has(level, op)
        /\ x \in (IF op \in {"frobenius", "invert", "sqrt", "nosqrt", "cyclotomic"} THEN Few(level) \cup (IF level = 2 THEN Elems(2) ELSE {}) ELSE Elems(level))
        /\ y = Zero /\ n = 0 /\ want = Zero /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<level, op, x>>
        /\ y' \in Arg(level, op) /\ n' \in Times(op)
        /\ want' = Value(x, y')
Spec == Init /\ [][Next]_vars

\* the two definitions agree, and each level is closed
Agrees == done =>
          /\ op \in {"mul", "mul1", "mul01", "mul014", "mul034"} => want = TMul(x, y)
          /\ op \notin {"mul014", "mul034"} => \A i \in (1..6) \ Pos(level) : want[i] = C0
          /\ (op = "mul" /\ Mode = "laws") => Mul(Add(x, y), x) = Add(Mul(x, x), want)
\* over the small prime: there is an inverse, and the power P^n is the ring automorphism the code relies on
Characterised == done =>
  /\ op = "invert" => (Red(x) = Zero \/ RMul(Red(x), Recip(Red(x))) = One)
  /\ op = "frobenius" => LET f == Frob(Red(x), n) IN
       /\ n % 12 = 0 => f = Red(x)
       /\ n % 12 = 6 => f = Red(Conj(x))
       /\ (level = 2 /\ n % 2 = 1) => f = Red([x EXCEPT ![1] = <<@[1], -@[2]>>])
       /\ (level = 2 /\ n % 2 = 0) => f = Red(x)
       /\ level = 6 => \A i \in {2, 4, 6} : f[i] = C0
  \* xi is not a square, so xi x^2 is none
  /\ op = "nosqrt" => (Red(x) = Zero \/ RPow(Red(want), (P * P - 1) \div 2) # One)
Export == (Emit /\ done) => PrintT(ToJson([level |-> level, op |-> op, x |-> x, y |-> y, n |-> n, want |-> want]))
ASSUME LET xi == [Zero EXCEPT ![1] = <<9, 1>>] IN
  /\ P % 4 = 3 /\ P % 6 = 1
  /\ RPow(Red(xi), (P * P - 1) \div 2) # One /\ RPow(Red(xi), (P * P - 1) \div 3) # One
=============================================================================
