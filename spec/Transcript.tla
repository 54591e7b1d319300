------------------------------- MODULE Transcript -------------------------------
(* Fiat-Shamir transcripts. A prover absorbs common values, writes values to the    *)
(* proof and draws challenges; a verifier reads the proof back. A challenge is the  *)
(* hash of everything absorbed before it, so it is represented by that history. An  *)
(* adversary may replace the encoding of one written item.                          *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS Points,   \* names of points; "O" is the identity
          Scalars, MaxOps, WithFaults,
          IdentityRefused,  \* some curves' transcripts refuse the identity, others give it the coordinates (0, 0)
          Emit
VARIABLES ops,      \* what prover and verifier do, in order
          fault     \* <<>>, or <<index into ops, kind>>
vars == <<ops, fault>>

PointOps == {"cp", "wp"}
Op == {[o |-> o, v |-> v] : o \in PointOps, v \in Points} \cup {[o |-> o, v |-> v] : o \in {"cs", "ws"}, v \in Scalars} \cup {[o |-> "sq", v |-> ""]}
IsPoint(op) == op.o \in PointOps
Written(op) == op.o \in {"wp", "ws"}
Refused(op) == IdentityRefused /\ IsPoint(op) /\ op.v = "O"
Dead == ops # <<>> /\ Refused(Last(ops))

PointFaults == {"cut", "empty", "identity", "unreduced", "offcurve", "other", "negated"}
ScalarFaults == {"cut", "empty", "unreduced", "max", "other"}
Invalid == {"cut", "empty", "unreduced", "offcurve", "max"} \cup (IF IdentityRefused THEN {"identity"} ELSE {})

Init == ops = <<>> /\ fault = <<>>
Do == /\ Len(ops) < MaxOps /\ ~Dead /\ fault = <<>>
      /\ \E op \in Op : ops' = Append(ops, op)
      /\ UNCHANGED fault
Tamper == /\ WithFaults /\ fault = <<>> /\ ~Dead /\ Len(ops) = MaxOps
          /\ \E i \in DOMAIN ops : /\ Written(ops[i])
                                   /\ \E f \in IF IsPoint(ops[i]) THEN PointFaults ELSE ScalarFaults :
                                        /\ ~(ops[i].v = "O" /\ f \in {"identity", "negated", "unreduced"})   \* would be the same point
                                        /\ fault' = <<i, f>>
          /\ UNCHANGED ops
Next == Do \/ Tamper
Spec == Init /\ [][Next]_vars

\* what the verifier sees: the value of each op, after tampering; the verifier stops at the first invalid item
Seen(i) == IF fault # <<>> /\ fault[1] = i THEN ops[i].v \o "/" \o fault[2] ELSE ops[i].v
Stop == IF fault # <<>> /\ fault[2] \in Invalid THEN fault[1] ELSE 0
\* byte-string encoding of a history (domain separated): tag, then the value's parts
Tok(op, v) == CASE op.o = "sq" -> <<"#0">>
                [] IsPoint(op) -> <<"#1", "x:" \o v, "y:" \o v>>
                [] OTHER -> <<"#2", "s:" \o v>>
\* algebraic encoding: field elements only, a mark where the sponge is squeezed
Elt(op, v) == CASE op.o = "sq" -> <<"!">>
                [] IsPoint(op) -> <<"x:" \o v, "y:" \o v>>
                [] OTHER -> <<"s:" \o v>>
Bytes(seen, n) == FlattenSeq([i \in 1..n |-> Tok(ops[i], IF seen THEN Seen(i) ELSE ops[i].v)])
Elements(seen, n) == FlattenSeq([i \in 1..n |-> Elt(ops[i], IF seen THEN Seen(i) ELSE ops[i].v)])
Squeezes == {i \in DOMAIN ops : ops[i].o = "sq"}

\* the byte encoding can be taken apart again: different histories are different strings
RECURSIVE Decode(_)
Decode(ts) == IF ts = <<>> THEN <<>>
              ELSE CASE ts[1] = "#0" -> <<<<"sq">>>> \o Decode(Tail(ts))
                     [] ts[1] = "#1" -> <<<<"p", ts[2], ts[3]>>>> \o Decode(SubSeq(ts, 4, Len(ts)))
                     [] ts[1] = "#2" -> <<<<"s", ts[2]>>>> \o Decode(SubSeq(ts, 3, Len(ts)))
Injective == Decode(Bytes(FALSE, Len(ops))) =
             [i \in DOMAIN ops |-> CASE ops[i].o = "sq" -> <<"sq">> [] IsPoint(ops[i]) -> <<"p", "x:" \o ops[i].v, "y:" \o ops[i].v>> [] OTHER -> <<"s", "s:" \o ops[i].v>>]
\* a challenge drawn after a replaced item differs, one drawn before does not
Bound == fault # <<>> => \A i \in Squeezes : (Bytes(TRUE, i) = Bytes(FALSE, i)) <=> (i < fault[1])
Interesting == Dead \/ fault # <<>> \/ (Len(ops) > 0 /\ Last(ops).o = "sq") \/ Len(ops) = MaxOps
Export == (Emit /\ Interesting) =>
  PrintT(ToJson([ops |-> ops, fault |-> fault, refused |-> Dead, stop |-> Stop,
                 chals |-> [i \in 1..Len(ops) |-> IF i \in Squeezes THEN [w |-> Bytes(FALSE, i), r |-> Bytes(TRUE, i), we |-> Elements(FALSE, i), re |-> Elements(TRUE, i)]
                                                  ELSE [w |-> <<>>, r |-> <<>>, we |-> <<>>, re |-> <<>>]]]))
=============================================================================
