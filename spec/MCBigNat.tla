------------------------------ MODULE MCBigNat ------------------------------
(* BigNat agrees with the naturals, exhaustively for a small base. *)
EXTENDS BigNat
VARIABLES x, y
N == [1..Limbs -> 0..(Base - 1)]
Init == x \in N /\ y \in N
Next == FALSE /\ UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_<<x, y>>
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
Agree == /\ Val(BPlus(x, y)) = (Val(x) + Val(y)) % Pow(Base, Limbs)
         /\ BLeq(x, y) <=> Val(x) <= Val(y)
         /\ BLeq(y, x) => Val(BMinus(x, y)) = Val(x) - Val(y)
         /\ Val(BZero) = 0 /\ Val(BOne) = 1
         /\ (Val(x) = Val(y)) => x = y
=============================================================================
