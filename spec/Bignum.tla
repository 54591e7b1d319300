--------------------------------- MODULE Bignum --------------------------------
(* Natural numbers of any size as little-endian sequences of digits, base 4096.    *)
EXTENDS Integers, Sequences
Base == 4096
D(x, i) == IF i \in 1..Len(x) THEN x[i] ELSE 0
One == <<1>>
Max2(i, j) == IF i > j THEN i ELSE j
\* lexicographic comparison from the top digit
RECURSIVE LessFrom(_, _, _)
LessFrom(x, y, i) == IF i = 0 THEN FALSE ELSE IF D(x, i) # D(y, i) THEN D(x, i) < D(y, i) ELSE LessFrom(x, y, i - 1)
Less(x, y) == LessFrom(x, y, Max2(Len(x), Len(y)))
Same(x, y) == \A i \in 1..Max2(Len(x), Len(y)) : D(x, i) = D(y, i)
\* coefficient k of a product, and of a sum of products
RECURSIVE Dot(_, _, _, _)
Dot(x, y, k, i) == IF i > Len(x) \/ i > k THEN 0 ELSE x[i] * D(y, k + 1 - i) + Dot(x, y, k, i + 1)
RECURSIVE Coef(_, _)
Coef(terms, k) == IF terms = <<>> THEN 0 ELSE Dot(terms[1][1], terms[1][2], k, Max2(1, k + 1 - Len(terms[1][2]))) + Coef(Tail(terms), k)
RECURSIVE Size(_)
Size(terms) == IF terms = <<>> THEN 0 ELSE Max2(Len(terms[1][1]) + Len(terms[1][2]), Size(Tail(terms)))
RECURSIVE Balanced(_, _, _, _, _)
Balanced(l, r, k, n, carry) ==
  IF k > n THEN carry = 0
  ELSE LET c == carry + Coef(l, k) - Coef(r, k) IN (c % Base = 0) /\ Balanced(l, r, k + 1, n, c \div Base)
\* the sums of products are equal
Equal(l, r) == Balanced(l, r, 1, Max2(Size(l), Size(r)), 0)
\* digits and limbs: a limb of 64 bits starts in the middle of a digit, so bits are taken one by one
Bit(x, i) == (D(x, (i \div 12) + 1) \div (2^(i % 12))) % 2
=============================================================================
