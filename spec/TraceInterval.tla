--------------------------- MODULE TraceInterval ---------------------------
(***************************************************************************)
(* Accepts a recorded history of interval registers exactly if every event  *)
(* under judgement is an outcome Interval.tla allows.  OP_<name> = 1 in the *)
(* environment puts the operation <name> under judgement; the observed      *)
(* outcome of every other operation is adopted, so that each property is    *)
(* judged by itself.  FORM = 1 additionally demands that every register is  *)
(* well formed after every operation.                                       *)
(* A register is observed as <<quadruple, is_empty>>.                        *)
(***************************************************************************)
EXTENDS Interval, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Aspect(a) == a \in DOMAIN IOEnv /\ IOEnv[a] = "1"
Form == Aspect("FORM")
Names == {"new", "single", "empty", "copy_to", "intersection", "span", "merge", "add", "sub", "mul", "div", "neg",
          "has_val", "has_interval", "intersects", "mergeable", "rel", "rel_val", "access"}
Judged == {n \in Names : Aspect("OP_" \o n)}
None == -1000000

VARIABLES i, regs
vars == <<i, regs>>

Seen(post) == [k \in 1..Len(post) |-> post[k][1]]
Panics(ev) == ev.n = "new" /\ ~NewOk(ev.x[1], ev.x[2], ev.x[3], ev.x[4])
\* register ev.r after the operation
After(ev) ==
  LET a == regs[ev.r] b == regs[ev.q] IN
  CASE ev.n = "new" -> ev.x
    [] ev.n = "single" -> Single(ev.x[1])
    [] ev.n = "empty" -> EmptyI
    [] ev.n = "intersection" -> Intersection(a, b)
    [] ev.n = "span" -> Span(a, b)
    [] ev.n = "merge" -> IF Mergeable(a, b) THEN Span(a, b) ELSE a
    [] ev.n = "neg" -> Map("neg", a, 0)
    [] ev.n \in {"add", "sub", "mul", "div"} -> Map(ev.n, a, ev.x[1])
    [] OTHER -> a
Expected(ev) == IF Panics(ev) THEN regs
                ELSE IF ev.n = "copy_to" THEN [regs EXCEPT ![ev.q] = regs[ev.r]]
                ELSE [regs EXCEPT ![ev.r] = After(ev)]
Access(a) == IF IsEmpty(a) THEN <<1, 0>> \o [k \in 1..8 |-> None]
             ELSE <<0, B(a[1] = a[3]), a[2], a[4], a[1], a[3]>> \o a \o <<1>>
Result(ev) ==
  LET a == regs[ev.r] b == regs[ev.q] IN
  CASE ev.n = "merge" -> IF Mergeable(a, b) THEN <<1>> ELSE <<0, 1>>
    [] ev.n = "has_val" -> <<B(HasVal(a, ev.x[1]))>>
    [] ev.n = "has_interval" -> <<B(HasInterval(a, b))>>
    [] ev.n = "intersects" -> <<B(Intersects(a, b))>>
    [] ev.n = "mergeable" -> <<B(Mergeable(a, b))>>
    [] ev.n = "rel" -> Rel(a, b)
    [] ev.n = "rel_val" -> Rel(a, Single(ev.x[1]))
    [] ev.n = "access" -> Access(a) \o (IF a = b THEN <<1>> ELSE <<>>)
    [] OTHER -> <<>>
Sane(q) == Len(q) \in {0, 4} /\ WellFormed(q)
\* an operation abandoned by a panic of the value type (p = 2)
FaultOk(ev) == \A k \in 1..Len(regs) :
                 LET q == ev.post[k][1] IN IF k = ev.r THEN MayLeave(regs[k], After(ev), ev.n, q) ELSE q = regs[k]
Verdict(ev) ==
  IF ev.e = "end" THEN ""
  ELSE IF Form /\ \E k \in 1..Len(ev.post) : ~Sane(ev.post[k][1]) \/ ev.post[k][2] # B(ev.post[k][1] = <<>>) THEN "not a well-formed interval"
  ELSE IF ev.e = "op" /\ ev.p = 2 THEN IF FaultOk(ev) THEN "" ELSE "what a panic leaves"
  ELSE IF ev.e = "start" \/ ev.n \notin Judged \/ ~Sane(regs[ev.r]) \/ ~Sane(regs[ev.q]) THEN ""
  ELSE IF (ev.p # 0) # Panics(ev) THEN (IF ev.p # 0 THEN "panic" ELSE "accepted")
  ELSE IF Seen(ev.post) # Expected(ev) THEN "outcome"
  ELSE IF ev.p = 0 /\ ev.res # Result(ev) THEN "result"
  ELSE ""

Init == i = 1 /\ regs = <<>>
Next ==
  /\ i <= Len(Trace)
  /\ LET ev == Trace[i] w == Verdict(ev) IN
     /\ IF w = "" THEN TRUE ELSE PrintT(<<"FAIL", i, w>>) /\ FALSE
     /\ i' = i + 1
     /\ regs' = IF ev.e = "end" THEN <<>> ELSE Seen(ev.post)
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
