-------------------------- MODULE MCIntervalFault --------------------------
(***************************************************************************)
(* The in-place operations of an interval, one call into the value type at *)
(* a time.  Every such call may panic; an arithmetic operator always does  *)
(* when the result is out of range.  The interval left behind has to be    *)
(* one (well formed) and one MayLeave of Interval.tla allows.  The design  *)
(* "bounds" changes the bounds where they are, as plausible as it is       *)
(* wrong, and shows that the requirement can fail.                         *)
(***************************************************************************)
EXTENDS Interval, TLC
CONSTANTS Range, Operands, Designs
Values == -3..3
Factors == -3..3
VARIABLES design, a, b,   \* the interval and the other operand (an interval or a number)
          n,              \* the operation
          reg,            \* the interval as it is stored now
          tmp,            \* the copy the design "code" works on
          at              \* next step; 0 when finished, -1 when abandoned
vars == <<design, a, b, n, reg, tmp, at>>
All == {<<>>} \cup {q \in Range \X {0, 1} \X Range \X {0, 1} : WellFormed(q)}
Arith == {"add", "sub", "mul", "div"}
Init == /\ design \in Designs /\ a \in All /\ reg = a /\ tmp = <<>> /\ at = 1
        /\ \/ n \in Arith /\ b \in Operands /\ ~(n = "div" /\ b = 0)
           \/ n \in {"span", "merge", "intersection"} /\ b \in All
Meant == CASE n \in Arith -> Map(n, a, b)
           [] n = "span" -> Span(a, b)
           [] n = "intersection" -> Intersection(a, b)
           [] n = "merge" -> IF Mergeable(a, b) THEN Span(a, b) ELSE a
Same == UNCHANGED <<design, a, b, n>>
Stop(r) == at' = -1 /\ reg' = r /\ UNCHANGED tmp
Finish(r) == at' = 0 /\ reg' = r /\ UNCHANGED tmp
Fits(x) == x \in Range
Lo(q, v) == <<v, q[2], q[3], q[4]>>
Up(q, v) == <<q[1], q[2], v, q[4]>>
\* lower bound, upper bound, then putting them in order; "code" takes the interval out meanwhile
Compute ==
  LET w == IF design = "bounds" THEN reg ELSE tmp
      keep(q) == IF design = "bounds" THEN reg' = q /\ UNCHANGED tmp ELSE tmp' = q /\ UNCHANGED reg
  IN CASE at = 1 -> IF IsEmpty(reg) THEN Finish(reg)
                    ELSE at' = 2 /\ IF design = "bounds" THEN UNCHANGED <<reg, tmp>> ELSE tmp' = reg /\ reg' = EmptyI
       [] at = 2 -> LET v == Fun(n, w[1], b) IN IF Fits(v) THEN at' = 3 /\ keep(Lo(w, v)) ELSE Stop(reg)
       [] at = 3 -> LET v == Fun(n, w[3], b) IN IF Fits(v) THEN at' = 4 /\ keep(Up(w, v)) ELSE Stop(reg)
       [] at = 4 -> Finish(Put(w[1], w[2], w[3], w[4]))
\* span, merge and intersection compare first and then replace one bound after the other
Replace ==
  CASE at = 1 -> IF IsEmpty(a) \/ IsEmpty(b) \/ Meant = a \/ IsEmpty(Meant) THEN Finish(Meant) ELSE at' = 2 /\ UNCHANGED <<reg, tmp>>
    [] at = 2 -> at' = 3 /\ reg' = <<Meant[1], Meant[2], reg[3], reg[4]>> /\ UNCHANGED tmp
    [] at = 3 -> Finish(<<reg[1], reg[2], Meant[3], Meant[4]>>)
Next == /\ at > 0 /\ Same
        /\ \/ IF n \in Arith THEN Compute ELSE Replace
           \/ Stop(reg)
Spec == Init /\ [][Next]_vars

Right == at = 0 => reg = Meant
Good == WellFormed(reg) /\ MayLeave(a, Meant, n, reg)
Safe == at <= 0 /\ design = "code" => Good
Follow == IF at = -1 /\ ~Good THEN TLCSet(7, TLCGet(7) \cup {design}) ELSE TRUE
ASSUME TLCSet(7, {})
MistakesShow == TLCGet(7) = Designs \ {"code"}
=============================================================================
