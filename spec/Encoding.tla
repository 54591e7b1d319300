-------------------------------- MODULE Encoding --------------------------------
(* Reading an encoded object. The encoding is a sequence of slots (points, field   *)
(* elements) between other bytes; some of them have been tampered with, or the      *)
(* encoding ends early. The reader goes through the slots and stops with an error   *)
(* at the first that it must refuse; otherwise the object it returns has the         *)
(* contents of the slots, and writing it again gives the bytes that were read.      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS Object, Format, Slots,   \* Slots: sequence of kinds "point", "field"
          MaxFaults, Emit
VARIABLES faults, cut, pos, result, contents
vars == <<faults, cut, pos, result, contents>>
N == Len(Slots)
\* tamperings of a slot: what is put there
Point == IF Format = "processed" THEN {"negated", "identity", "nonreduced", "nonresidue", "padding"}
         ELSE {"negated", "identity", "nonreduced-x", "nonreduced-y", "off curve", "half identity"}
\* projective points are scaled
Scaled == {"negated", "rescaled", "identity", "nonreduced-x", "nonreduced-y", "nonreduced-z", "off curve"}
Elem == {"other", "zero", "max", "modulus", "modulus+1", "all ones"}
Menu(k) == CASE k = "point" -> Point [] k = "scaled" -> Scaled [] OTHER -> Elem
\* those that are encodings of something
Valid == {"negated", "identity", "rescaled", "other", "zero", "max"}
None == [i \in 1..N |-> "none"]
\* where the encoding ends: -1: in full; 2i: just before slot i; 2i+1: inside slot i
Cuts == {-1} \cup {2 * i : i \in 1..N} \cup {2 * i + 1 : i \in 1..N}
Init == /\ \E f \in SUBSET (1..N) : Cardinality(f) <= MaxFaults /\ faults \in [1..N -> {"none"} \cup UNION {Menu(k) : k \in {Slots[i] : i \in 1..N}}]
             /\ \A i \in 1..N : (i \in f <=> faults[i] # "none") /\ (i \in f => faults[i] \in Menu(Slots[i]))
        /\ cut \in Cuts
        /\ pos = 1 /\ result = "reading" /\ contents = <<>>
Missing(i) == cut # -1 /\ i >= cut \div 2
Read == /\ result = "reading" /\ pos <= N
        /\ IF Missing(pos) \/ (faults[pos] # "none" /\ faults[pos] \notin Valid)
           THEN result' = "refused" /\ UNCHANGED <<pos, contents>>
           ELSE /\ pos' = pos + 1 /\ contents' = Append(contents, faults[pos])
                /\ result' = IF pos = N THEN "read" ELSE "reading"
        /\ UNCHANGED <<faults, cut>>
Next == Read
Spec == Init /\ [][Next]_vars
Done == result # "reading"
\* a reader that returns has seen every slot, and every slot holds something
Total == result = "read" => cut = -1 /\ contents = faults /\ \A i \in 1..N : faults[i] = "none" \/ faults[i] \in Valid
\* distinct tamperings give distinct objects: nothing has two encodings
Canonical == result = "read" => (contents = None <=> faults = None)
Export == (Emit /\ Done) => PrintT(ToJson([object |-> Object, format |-> Format, faults |-> faults, cut |-> cut, ok |-> (result = "read")]))
=============================================================================
