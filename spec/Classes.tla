------------------------------ MODULE Classes ------------------------------
(***************************************************************************)
(* Long scripts of operations on elements 1..m whose outcome is known in   *)
(* closed form, so that the code can be judged at sizes no explicit        *)
(* partition could be kept for.  TLC runs every script on the partition    *)
(* for small m and shows that the closed form describes exactly its        *)
(* blocks; the scripts are printed and the harness, which generates them   *)
(* at any size, must generate the same ones.                               *)
(*                                                                         *)
(* Step by s: elements s apart are joined; the blocks are the residues.    *)
(* Two steps: the blocks are the residues modulo the greatest common       *)
(* divisor (for every m at least as long as both steps together).          *)
(* Runs of b: neighbours are joined unless a multiple of b lies between.   *)
(* Fold: x is joined with its mirror image.                                *)
(***************************************************************************)
EXTENDS TLC, Json, Partition
CONSTANTS Sizes, Steps, Emit

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

\* a script is a sequence of operations <<code, a, b>>: 0 = add a, 1 = join a and b, 2 = clear
Adds(m) == [j \in 1..m |-> <<0, j, 0>>]
Joins(m, s) == [j \in 1..(IF m > s THEN m - s ELSE 0) |-> <<1, j, j + s>>]
Back(q) == [j \in 1..Len(q) |-> q[Len(q) + 1 - j]]
\* every second one first, then the others
Odd(q) == [j \in 1..Len(q) |-> LET h == (Len(q) + 1) \div 2 IN IF j <= h THEN q[2 * j - 1] ELSE q[2 * (j - h)]]
Turn(q) == [j \in 1..Len(q) |-> <<q[j][1], q[j][3], q[j][2]>>]
InRuns(m, b) == SelectSeq(Joins(m, 1), LAMBDA o : o[2] % b # 0)
Folds(m) == [j \in 1..(m \div 2) |-> <<1, j, m + 1 - j>>]

\* w names the order, s and t the steps
Script(w, m, s, t) ==
  CASE w = "step"   -> Adds(m) \o Joins(m, s)
    [] w = "back"   -> Adds(m) \o Back(Joins(m, s))
    [] w = "odd"    -> Adds(m) \o Odd(Turn(Joins(m, s)))
    [] w = "new"    -> Joins(m, s) \o Adds(m)
    [] w = "two"    -> Joins(m, s) \o Turn(Back(Joins(m, t))) \o Adds(m)
    [] w = "runs"   -> Adds(m) \o Odd(InRuns(m, s + 1))
    [] w = "fold"   -> Folds(m) \o Adds(m)
    [] w = "again"  -> Joins(m, t) \o <<<<2, 0, 0>>>> \o Back(Adds(m)) \o Joins(m, s)
    [] w = "after"  -> Joins(m, 1) \o <<<<2, 0, 0>>>> \o Adds(m)
Orders == {"step", "back", "odd", "new", "two", "runs", "fold", "again", "after"}

\* the closed form: x and y are in one block iff they have the same class
Class(w, m, s, t, x) ==
  CASE w \in {"step", "back", "odd", "new", "again"} -> x % s
    [] w = "two"  -> x % Gcd(s, t)
    [] w = "runs" -> (x - 1) \div (s + 1)
    [] w = "fold" -> IF 2 * x <= m THEN x ELSE m + 1 - x
    [] w = "after" -> x
Sensible(w, m, s, t) == w = "two" => m >= s + t

Do(p, o) == CASE o[1] = 0 -> Make(p, o[2]) [] o[1] = 1 -> Union(p, o[2], o[3]) [] o[1] = 2 -> None

VARIABLES w, m, s, t, j, p
vars == <<w, m, s, t, j, p>>
Init == /\ w \in Orders /\ m \in Sizes /\ s \in Steps /\ t \in Steps /\ Sensible(w, m, s, t)
        /\ (w \in {"step", "back", "odd", "new", "runs", "fold", "after"} => t = 1)
        /\ (w \in {"fold", "after"} => s = 1)
        /\ j = 0 /\ p = None
Next == /\ j < Len(Script(w, m, s, t))
        /\ p' = Do(p, Script(w, m, s, t)[j + 1]) /\ j' = j + 1 /\ UNCHANGED <<w, m, s, t>>
Spec == Init /\ [][Next]_vars
Done == j = Len(Script(w, m, s, t))
ClosedForm == Done => /\ DOMAIN p = 1..m
                      /\ \A x, y \in 1..m : Joined(p, x, y) <=> Class(w, m, s, t, x) = Class(w, m, s, t, y)
EmitT == IF Emit
         THEN (IF j = 0 THEN PrintT(ToJson([k |-> "S", w |-> w, m |-> m, s |-> s, t |-> t, u |-> Script(w, m, s, t),
                                            c |-> [x \in 1..m |-> Class(w, m, s, t, x)]])) ELSE TRUE) /\ FALSE
         ELSE TRUE
=============================================================================
