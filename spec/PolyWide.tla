-------------------------------- MODULE PolyWide --------------------------------
(* The operations of Poly.tla on domains of thousands of rows. The polynomials are    *)
(* sparse, given as sequences of <<exponent, coefficient>>, so that every definition  *)
(* takes time linear in the domain; rotations go far beyond one byte and beyond the   *)
(* domain itself, in both directions.                                                 *)
EXTENDS Poly

Dense(c) == TLCEval([i \in 1..N |-> FoldLeft(LAMBDA s, t : IF t[1] = i - 1 THEN Add(s, t[2]) ELSE s, 0, c)])
SOnDomain(c) == LET tab == TLCEval(WTab) IN [i \in 1..N |-> FoldLeft(LAMBDA s, t : Add(s, Mul(t[2], tab[(((i - 1) * t[1]) % N) + 1])), 0, c)]
SOnCoset(c) == LET tab == TLCEval(EWTab)  z == TLCEval(<<1, Zeta, Mul(Zeta, Zeta)>>) IN [i \in 1..EN |-> FoldLeft(LAMBDA s, t : Add(s, Mul(Mul(t[2], z[(t[1] % 3) + 1]), tab[(((i - 1) * t[1]) % EN) + 1])), 0, c)]
SEval(c, y) == FoldLeft(LAMBDA s, t : Add(s, Mul(t[2], Pow(y, t[1]))), 0, c)
\* the Lagrange polynomial of a subgroup in closed form (equal to Poly!LagAt on the small domains: law LagClosed)
LagShort(r, y) == Div(Mul(WI(r % N), Sub(Pow(y, N), 1)), Mul(N % P, Sub(y, WI(r % N))))
\* q of q * (X - y) = a - a(y), coefficients from the top down
SKate(d, y) == Reverse(FoldLeft(LAMBDA s, i : Append(s, Add(d[N + 1 - i], IF s = <<>> THEN 0 ELSE Mul(y, s[Len(s)]))), <<>>, [i \in 1..N-1 |-> i]))
Outside(y) == Pow(y, N) # 1

LagClosed == \A r \in Rots : Outside(x) /\ N <= 16 => LagShort(r, x) = LagAt(r, x)
DivWide == LET d == Dense(a)  q == TLCEval(SKate(d, x)) IN
             /\ SEval(a, x) = Add(d[1], Mul(x, q[1]))
             /\ \A i \in 2..N-1 : d[i] = Sub(q[i-1], Mul(x, q[i]))
             /\ d[N] = q[N-1]
SparseIsDense == N <= 16 => LET d == Dense(a) IN /\ SOnDomain(a) = OnDomain(d) /\ SOnCoset(a) = OnCoset(d)
                                                /\ SEval(a, x) = Eval(d, x) /\ SKate(d, x) = KateQ(d, x)
ExportWide == Emit => PrintT(ToJson([
   a |-> Dense(a), b |-> Dense(b), x |-> x, k |-> K, j |-> J, p |-> P, ek |-> EK, w |-> W, ew |-> EW,
   dom |-> SOnDomain(a), bdom |-> SOnDomain(b), coset |-> SOnCoset(a), eval |-> SEval(a, x), kate |-> SKate(Dense(a), x), xn |-> Pow(x, N),
   rots |-> SetToSeq({[r |-> r, pt |-> RotPoint(x, r), li |-> IF Outside(x) THEN LagShort(r, x) ELSE -1] : r \in Rots})
 ]))
=============================================================================
