---------------------------------- MODULE Field ----------------------------------
(* A small prime field in which TLC can compute: the algorithms under test are      *)
(* generic over the field, so they can be run on this one exactly.                  *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS P,        \* the modulus, small enough for products to fit TLC's integers
          Root,     \* generates the subgroup of order 2^S
          S,
          Zeta      \* a cube root of unity, not 1

F == 0..P-1
Add(a, b) == (a + b) % P
Sub(a, b) == (a - b) % P
Neg(a) == (0 - a) % P
Mul(a, b) == (a * b) % P
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 % P ELSE LET h == Pow(a, n \div 2) IN IF n % 2 = 0 THEN Mul(h, h) ELSE Mul(Mul(h, h), a)
Inv(a) == Pow(a, P - 2)              \* Inv(0) = 0
Div(a, b) == Mul(a, Inv(b))
Sum(s) == FoldLeft(Add, 0, s)
Prod(s) == FoldLeft(Mul, 1, s)
TwoTo(n) == FoldLeft(LAMBDA x, y : 2 * x, 1, [i \in 1..n |-> 0])

ASSUME /\ \A a \in {1, 2, P - 1} : Mul(a, Inv(a)) = 1
       /\ Pow(Root, TwoTo(S)) = 1 /\ Pow(Root, TwoTo(S - 1)) = P - 1
       /\ Pow(Zeta, 3) = 1 /\ Zeta # 1
=============================================================================
