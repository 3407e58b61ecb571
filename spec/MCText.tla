------------------------------- MODULE MCText -------------------------------
(* What the definitions of strings and of the text formats have to satisfy,   *)
(* for all strings of a few bytes.                                            *)
EXTENDS Formats, TLC
CONSTANT MaxLen
VARIABLES a, b, c
vars == <<a, b, c>>
Upto(A, n) == UNION {[1..k -> A] : k \in 0..n}
Letters == {32, 65, 97, 98}
Init == a \in Upto(Letters, MaxLen) /\ b = <<>> /\ c = <<0>>
Next == c = <<0>> /\ UNCHANGED a /\ b' \in Upto(Letters, MaxLen) /\ c' \in Upto({65, 97, 98}, 2)
Spec == Init /\ [][Next]_vars
(* the order of strings is a total order of their lower case forms *)
Ordered ==
  /\ TextOrder(a, b) = 0 - TextOrder(b, a)
  /\ (TextOrder(a, b) = 0) = SameText(a, b)
  /\ TextOrder(a, b) <= 0 /\ TextOrder(b, c) <= 0 => TextOrder(a, c) <= 0
(* a sub string is found at the first place it is at *)
Found == LET i == SubAt(a, b) IN
  IF i >= 0 THEN /\ SameText(SubSeq(a, i + 1, i + Len(b)), b)
                 /\ \A j \in 0..(i - 1) : ~SameText(SubSeq(a, j + 1, j + Len(b)), b)
  ELSE b = <<>> \/ \A x \in Upto(Letters, 1), y \in Upto(Letters, 1) : ~SameText(a, x \o b \o y)
(* pieces: nothing but separators is lost *)
Splits == /\ JoinWith(Split(a, {32}), 32) = a
          /\ \A i \in 1..Len(Pieces(a, {32})) : Pieces(a, {32})[i] # <<>> /\ \A k \in 1..Len(Pieces(a, {32})[i]) : Pieces(a, {32})[i][k] # 32
          /\ Pieces(a \o <<32>> \o b, {32}) = Pieces(a, {32}) \o Pieces(b, {32})
=============================================================================
