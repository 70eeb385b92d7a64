------------------------------- MODULE BigNat -------------------------------
(* Fixed-width naturals as sequences of limbs, most significant first.       *)
EXTENDS Integers, Sequences
CONSTANTS Base, Limbs
BZero == [i \in 1..Limbs |-> 0]
BOne == [i \in 1..Limbs |-> IF i = Limbs THEN 1 ELSE 0]
RECURSIVE CarryInto(_, _, _)
\* the carry that limb i receives from the limbs to its right when adding x and y
CarryInto(x, y, i) == IF i = Limbs THEN 0
                      ELSE IF x[i + 1] + y[i + 1] + CarryInto(x, y, i + 1) >= Base THEN 1 ELSE 0
BPlus(x, y) == [i \in 1..Limbs |-> (x[i] + y[i] + CarryInto(x, y, i)) % Base]
RECURSIVE BorrowFrom(_, _, _)
BorrowFrom(x, y, i) == IF i = Limbs THEN 0
                       ELSE IF x[i + 1] - y[i + 1] - BorrowFrom(x, y, i + 1) < 0 THEN 1 ELSE 0
BMinus(x, y) == [i \in 1..Limbs |-> (x[i] - y[i] - BorrowFrom(x, y, i) + Base) % Base]
BLeq(x, y) == x = y \/ \E i \in 1..Limbs : x[i] < y[i] /\ \A j \in 1..(i - 1) : x[j] = y[j]
RECURSIVE ValUpTo(_, _)
ValUpTo(x, i) == IF i = 0 THEN 0 ELSE Base * ValUpTo(x, i - 1) + x[i]
Val(x) == ValUpTo(x, Limbs)
=============================================================================
