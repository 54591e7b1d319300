---------------------------- MODULE FieldOperands ----------------------------
(* Numbers of four 64-bit limbs that sit next to the places where carries,          *)
(* borrows and the final reduction of a field implementation change their mind:     *)
(* every limb is 0, 1, all ones, the top bit, or within one of the modulus's limb.  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Kinds, Emit
VARIABLES limbs
Init == limbs = <<>>
Next == Len(limbs) < 4 /\ \E k \in Kinds : limbs' = Append(limbs, k)
Spec == Init /\ [][Next]_limbs
Export == (Emit /\ Len(limbs) = 4) => PrintT(ToJson([limbs |-> limbs]))
=============================================================================
