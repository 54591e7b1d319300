---------------------------------- MODULE Poly ----------------------------------
(* Polynomials over a small field in the three forms the prover keeps them in:       *)
(* coefficients, values on the domain {w^i}, values on the coset of the extended     *)
(* domain {zeta * ew^i}. A state is a choice of operands; the state is printed with  *)
(* the result every operation has to give, each written as its definition (a value   *)
(* is the value of the polynomial at the point), not as an algorithm.                *)
EXTENDS Field

CONSTANTS K,          \* the domain has 2^K rows
          J,          \* degree of the constraint system: the quotient has J - 1 pieces
          Polys, Seconds, \* coefficient vectors to try
          Points,     \* evaluation points
          Rots,       \* rotations
          Sets,       \* sequences of distinct interpolation points
          Emit

N == TwoTo(K)
EK == CHOOSE e \in K..S : TwoTo(e) >= N * (J - 1) /\ \A d \in K..e-1 : TwoTo(d) < N * (J - 1)
EN == TwoTo(EK)
W == Pow(Root, TwoTo(S - K))
EW == Pow(Root, TwoTo(S - EK))
\* powers of a root of unity, by repeated multiplication
PowersOf(r, n) == TLCEval(FoldLeft(LAMBDA s, i : Append(s, Mul(s[Len(s)], r)), <<1>>, [i \in 1..n-1 |-> i]))
WTab == PowersOf(W, N)
EWTab == PowersOf(EW, EN)
WI(i) == WTab[(i % N) + 1]
Coset(i) == Mul(Zeta, EWTab[(i % EN) + 1])

Eval(c, x) == FoldLeft(LAMBDA acc, a : Add(Mul(acc, x), a), 0, Reverse(c))
\* values on the domain (row i is sequence index i + 1)
OnDomain(c) == [i \in 1..N |-> Eval(c, WI(i - 1))]
OnCoset(c) == [i \in 1..EN |-> Eval(c, Coset(i - 1))]
\* value of the Lagrange polynomial of point number i of xs at x
Lag(xs, i, x) == Prod([j \in 1..Len(xs) |-> IF j = i THEN 1 ELSE Div(Sub(x, xs[j]), Sub(xs[i], xs[j]))])
PMulLin(c, r) == [i \in 1..Len(c)+1 |-> Sub(IF i = 1 THEN 0 ELSE c[i-1], IF i > Len(c) THEN 0 ELSE Mul(r, c[i]))]   \* c * (X - r)
Interp(xs, ys) ==
  LET base(i) == FoldLeft(LAMBDA c, j : IF j = i THEN c ELSE PMulLin(c, xs[j]), <<1>>, [k \in 1..Len(xs) |-> k])
      den(i) == Prod([j \in 1..Len(xs) |-> IF j = i THEN 1 ELSE Sub(xs[i], xs[j])])
      term(i) == LET b == base(i)  k == Div(ys[i], den(i)) IN [m \in 1..Len(b) |-> Mul(k, b[m])]
  IN FoldLeft(LAMBDA acc, i : [m \in 1..Len(xs) |-> Add(acc[m], term(i)[m])], [m \in 1..Len(xs) |-> 0], [k \in 1..Len(xs) |-> k])
\* coefficients from the values on the domain: the inverse of the Vandermonde matrix of a subgroup
FromDomain(v) == [m \in 1..N |-> Mul(Inv(N % P), Sum([i \in 1..N |-> Mul(v[i], WI(N - (((i - 1) * (m - 1)) % N)))]))]
\* q with c = q * (X - b) + c(b)
KateQ(c, b) == [i \in 1..Len(c)-1 |-> Eval(SubSeq(c, i + 1, Len(c)), b)]
Scale(c, k) == [i \in 1..Len(c) |-> Mul(k, c[i])]
PAdd(a, b) == [i \in 1..Len(a) |-> Add(a[i], b[i])]
PSub(a, b) == [i \in 1..Len(a) |-> Sub(a[i], b[i])]
RotSeq(s, r) == [i \in 1..Len(s) |-> s[((i - 1 + r) % Len(s)) + 1]]
\* t(X) = X^N - 1 at coset point i
T(i) == Sub(Pow(Coset(i), N), 1)
RotPoint(x, r) == Mul(x, WI(r % N))
LagAt(r, x) == Lag([j \in 1..N |-> WI(j - 1)], (r % N) + 1, x)
\* pad a vector of coefficients, cut a vector to a length
Pad(c, n) == [i \in 1..n |-> IF i <= Len(c) THEN c[i] ELSE 0]

VARIABLES a, b, x, pts
vars == <<a, b, x, pts>>
Init == /\ a \in Polys /\ x \in Points /\ pts \in Sets
        /\ b \in Seconds
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* what the definitions satisfy, checked on the way
RoundTrip == FromDomain(OnDomain(a)) = a
Unique == Interp([j \in 1..N |-> WI(j-1)], OnDomain(a)) = a
DivRight == LET q == KateQ(a, x) IN PAdd(Pad(PMulLin(q, x), N), Pad(<<Eval(a, x)>>, N)) = a
Barycentric == x \notin {WI(i) : i \in 0..N-1} =>
                  LET v == TLCEval(OnDomain(a)) IN Eval(a, x) = Sum([i \in 1..N |-> Mul(v[i], LagAt(i - 1, x))])
Export == Emit => PrintT(ToJson([
   a |-> a, b |-> b, x |-> x, k |-> K, j |-> J, p |-> P, ek |-> EK, w |-> W, ew |-> EW,
   dom |-> OnDomain(a), coset |-> OnCoset(a), bcoset |-> OnCoset(b),
   coeff |-> FromDomain(a),                 \* a read as values on the domain
   parts |-> [m \in 1..(EN \div N) |-> [i \in 1..N |-> Eval(a, Mul(Coset(m - 1), WI(i - 1)))]],
   add |-> PAdd(a, b), sub |-> PSub(a, b), scale |-> Scale(a, x), minus |-> [a EXCEPT ![1] = Sub(a[1], x)],
   rots |-> SetToSeq({[r |-> r, dom |-> RotSeq(a, r), ext |-> RotSeq(OnCoset(a), r * (EN \div N)), pt |-> RotPoint(x, r),
             li |-> IF x \in {WI(i) : i \in 0..N-1} THEN -1 ELSE LagAt(r, x)] : r \in Rots}),
   xn |-> Pow(x, N),
   eval |-> Eval(a, x), inner |-> Sum([i \in 1..N |-> Mul(a[i], b[i])]), kate |-> KateQ(a, x),
   quot |-> LET v == TLCEval(OnCoset(a)) IN [i \in 1..EN |-> Div(v[i], T(i - 1))],
   pts |-> pts, ys |-> [i \in 1..Len(pts) |-> a[((i - 1) % N) + 1]],
   interp |-> Interp(pts, [i \in 1..Len(pts) |-> a[((i - 1) % N) + 1]]),
   fftx |-> [i \in 1..N |-> Eval(a, WI(N - (i - 1)))]
 ]))
=============================================================================
