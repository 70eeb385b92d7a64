--------------------------- MODULE MCIntervalMath ---------------------------
(***************************************************************************)
(* Arithmetic on every interval over a set of values with every operand.   *)
(* Dom "int": integers, division towards zero.  "exact": the interval's     *)
(* values are multiples of 12 and division is exact.  "wrap": arithmetic    *)
(* modulo 256 (so that adding may reverse the order of the bounds).         *)
(***************************************************************************)
EXTENDS Interval, TLC, Json
CONSTANTS Dom, Lo, Hi, Args, Emit
MinusFour == -4
MinusSix == -6
WrapVals == {0, 1, 2, 100, 127, 128, 200, 254, 255}
ArgsInt == {-7, -3, -2, -1, 0, 1, 2, 3, 5}
ArgsExact == {-4, -3, -2, -1, 1, 2, 3, 4}
ArgsWrap == {0, 1, 2, 3, 127, 128, 200, 255}
ArgsPos == {0, 1, 2, 3, 5, 7}
Vals == CASE Dom = "wrap" -> WrapVals [] Dom = "exact" -> {12 * x : x \in Lo..Hi} [] OTHER -> Lo..Hi
Ns == IF Dom = "exact" THEN {"div"} ELSE IF Dom = "wrap" THEN {"add", "sub", "mul"} ELSE {"add", "sub", "mul", "div"}
Apply(n, x, c) == IF Dom = "wrap" THEN Fun(n, x, c) % 256 ELSE Fun(n, x, c)
MapD(n, a, c) == IF IsEmpty(a) THEN EmptyI ELSE Put(Apply(n, a[1], c), a[2], Apply(n, a[3], c), a[4])
Intervals == {q \in {<<l, lc, u, uc>> : l, u \in Vals, lc, uc \in {0, 1}} : WellFormed(q)} \cup {EmptyI}
VARIABLES a, n, c
vars == <<a, n, c>>
Init == /\ a \in Intervals
        /\ \/ n \in Ns /\ c \in Args /\ (n = "div" => c # 0)
           \/ n = "neg" /\ c = 0
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
r == MapD(n, a, c)
Formed == WellFormed(r)
\* the values between the bounds are mapped to points between the new bounds, except that
\* flat places of the map (truncation, multiplying by zero) may reach an open bound
Sound == (~IsEmpty(a) /\ Dom # "wrap") =>
           \A x \in Vals : HasVal(a, x) =>
             LET y == Apply(n, x, c) IN
             IF IsEmpty(r) THEN Apply(n, a[1], c) = Apply(n, a[3], c)
             ELSE HasVal(r, y) \/ y \in {Apply(n, a[1], c), Apply(n, a[3], c)}
\* strictly monotone maps (adding, multiplying by something else than zero) are exact
Exact == (~IsEmpty(a) /\ (Dom = "int" \/ Dom = "exact") /\ (n \in {"add", "sub", "neg"} \/ (n = "mul" /\ c # 0) \/ Dom = "exact")) =>
           /\ ~IsEmpty(r)
           /\ \A x \in Vals : HasVal(a, x) = HasVal(r, Apply(n, x, c))
Inverse == Dom = "int" => /\ (n = "add" => MapD("sub", r, c) = a)
                          /\ (n = "neg" => MapD("neg", r, 0) = a /\ r = MapD("mul", a, -1))
EmitM == Emit => PrintT(ToJson([k |-> "M", d |-> Dom, a |-> a, n |-> n, c |-> c, r |-> r,
                                w |-> IF IsEmpty(a) THEN <<>> ELSE <<Apply(n, a[1], c), Apply(n, a[3], c)>>]))
=============================================================================
