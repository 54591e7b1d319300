-------------------------------- MODULE Rational --------------------------------
(* Field elements whose division is put off (n / d, where x / 0 is 0), and values    *)
(* that may be unknown. A state is a pair of operands, printed with the value every  *)
(* operation must have.                                                              *)
EXTENDS Field
CONSTANTS Nums, Dens, Emit
\* an element is <<"z">>, <<"t", v>> or <<"r", n, d>>; a value is <<>> (unknown) or <<element>>
Elems == {<<"z">>} \cup {<<"t", v>> : v \in Nums} \cup {<<"r", n, d>> : n \in Nums, d \in Dens}
Val(e) == CASE e[1] = "z" -> 0 [] e[1] = "t" -> e[2] [] e[1] = "r" -> Div(e[2], e[3])
VARIABLES l, r
vars == <<l, r>>
Init == l \in Elems /\ r \in Elems
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* the field laws carry over to the values
Laws == LET x == Val(l)  y == Val(r) IN
        /\ Add(x, y) = Add(y, x) /\ Sub(Add(x, y), y) = x /\ Mul(x, y) = Mul(y, x)
        /\ (y # 0 => Mul(Div(x, y), y) = x) /\ Mul(x, Add(x, y)) = Add(Mul(x, x), Mul(x, y))
Export == Emit => LET x == Val(l)  y == Val(r) IN
  PrintT(ToJson([p |-> P, l |-> l, r |-> r, x |-> x, y |-> y, add |-> Add(x, y), sub |-> Sub(x, y), mul |-> Mul(x, y), neg |-> Neg(x), dbl |-> Add(x, x),
                 sq |-> Mul(x, x), cube |-> Mul(x, Mul(x, x)), inv |-> Inv(x), eq |-> (x = y), zero |-> (x = 0)]))
=============================================================================
