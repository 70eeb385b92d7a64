------------------------------ MODULE TraceCB ------------------------------
(***************************************************************************)
(* Accepts a recorded history of circular buffers (one JSON event per      *)
(* line) exactly if every event is an outcome Deque.tla allows.            *)
(*                                                                         *)
(* Besides the values this tracks ownership: every tracked element has a   *)
(* number; st[r] are the numbers stored in buffer r, limbo those leaked by *)
(* an earlier fault (the only elements that may be neither stored nor      *)
(* handed out, and that may still be destroyed, once).                     *)
(***************************************************************************)
EXTENDS Deque, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Aspect(a) == a \in DOMAIN IOEnv /\ IOEnv[a] = "1"
Value == Aspect("VALUE")     \* contents, results and panics are those of Deque
Views == Aspect("VIEWS")     \* all views agree, nothing outside the live range is accessible
Owner == Aspect("OWNER")     \* every element is in exactly one place or destroyed once

VARIABLES i, regs, st, limbo
vars == <<i, regs, st, limbo>>

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
RECURSIVE Subseq(_, _)
Subseq(s, t) == IF s = <<>> THEN TRUE
                ELSE IF t = <<>> THEN FALSE
                ELSE IF Head(s) = Head(t) THEN Subseq(Tail(s), Tail(t)) ELSE Subseq(s, Tail(t))
Zip(s, t) == [k \in 1..Min2(Len(s), Len(t)) |-> <<s[k], t[k]>>]

O(ev) == [n |-> ev.n, a |-> ev.a, x |-> ev.x]
IsLeak(ev) == ev.n \in {"leak_drain", "leak_into_iter"}
IsFault(ev) == ev.p = 2 \/ IsLeak(ev)

-----------------------------------------------------------------------------
(* What the operation must do. *)
Expected(ev) ==
  LET r == ev.r q == ev.q IN
  CASE ev.n = "move" ->
         LET d == Apply(regs[r], [n |-> "extend", a |-> <<>>, x |-> regs[q].s])
         IN [regs |-> [regs EXCEPT ![r] = d.q, ![q].s = <<>>], res |-> <<>>, p |-> 0]
    [] ev.n = "clone_to" -> [regs |-> [regs EXCEPT ![q] = regs[r]], res |-> <<>>, p |-> 0]
    [] ev.n = "cmp" -> [regs |-> regs, res |-> Compare(regs[r].s, regs[q].s), p |-> 0]
    [] ev.n = "cmps" -> [regs |-> regs, res |-> <<B(SeqEq(regs[r].s, ev.x)), B(~SeqEq(regs[r].s, ev.x))>>, p |-> 0]
    [] OTHER -> LET d == Apply(regs[r], O(ev)) IN [regs |-> [regs EXCEPT ![r] = d.q], res |-> d.res, p |-> d.p]

Shows(ob, q) == \E k \in 1..Len(ob.vw) : ob.vw[k] = q.s
FlagsOk(ob) == ob.em = B(ob.len = 0) /\ ob.fu = B(ob.len = ob.cap) /\ ob.len <= ob.cap
ValueVerdict(ev, ex) ==
  IF ev.p # ex.p THEN "panic behaviour"
  ELSE IF ev.p = 0 /\ ev.res # ex.res THEN "result"
  ELSE IF \E k \in 1..Len(regs) : ~Shows(ev.post[k], ex.regs[k]) THEN "content"
  ELSE IF \E k \in 1..Len(regs) : ev.post[k].cap # ex.regs[k].cap THEN "capacity"
  ELSE IF \E k \in 1..Len(regs) : ev.post[k].len # Len(ex.regs[k].s) \/ ~FlagsOk(ev.post[k]) THEN "length or flags"
  ELSE IF ev.n = "append" /\ ev.ot # <<Len(ev.x) + ev.a[2], 0>> THEN "source of append"
  ELSE ""
ViewsVerdict(post) ==
  IF \E k \in 1..Len(post) : Len(post[k].vw) # 1 \/ Len(post[k].vw[1]) # post[k].len THEN "views disagree"
  ELSE IF \E k \in 1..Len(post) : post[k].oob # 1 THEN "access outside the live range"
  ELSE ""

-----------------------------------------------------------------------------
(* What is allowed when user code panicked in the operation (or an iterator was leaked). *)
Touched(ev) == IF ev.n = "move" THEN {ev.r, ev.q}
               ELSE IF ev.n = "clone_to" THEN {ev.q}
               ELSE IF ev.n \in {"cmp", "cmps"} THEN {}
               ELSE {ev.r}
\* number and value of everything the operation could put into buffer k, in order
Sources(ev, k) ==
  LET pre == Zip(st[k], regs[k].s)
      \* the elements handed in: number xu[j] carries value x[j]
      inc == Zip(ev.xu, ev.x)
      mv  == IF ev.n = "move" /\ k = ev.r THEN Zip(st[ev.q], regs[ev.q].s) ELSE <<>>
      known == Flat([j \in 1..Len(regs) |-> Zip(st[j], regs[j].s)]) \o inc
      val(u) == IF \E j \in 1..Len(known) : known[j][1] = u
                THEN known[CHOOSE j \in 1..Len(known) : known[j][1] = u][2] ELSE -1000
      cl  == [j \in 1..Len(ev.cl) |-> <<ev.cl[j][2], val(ev.cl[j][1])>>]
  IN IF ev.n = "push_front" THEN inc \o pre ELSE pre \o inc \o mv \o cl
CapsAllowed(ev, k) ==
  {regs[k].cap}
  \cup (IF ev.n = "clone_to" THEN {regs[ev.r].cap}
        ELSE IF ev.n = "leak_into_iter" THEN {ev.a[2]}
        ELSE IF ev.n \in Names THEN {Apply(regs[k], O(ev)).q.cap} ELSE {})
FaultVerdict(ev) ==
  IF \E k \in (1..Len(regs)) \ Touched(ev) :
       ~Shows(ev.post[k], regs[k]) \/ ev.post[k].cap # regs[k].cap THEN "fault changed an uninvolved buffer"
  ELSE IF \E k \in Touched(ev) : ev.post[k].cap \notin CapsAllowed(ev, k) THEN "capacity after fault"
  ELSE IF \E k \in 1..Len(regs) :
       \/ Len(ev.post[k].vw) # 1
       \/ Len(ev.post[k].vw[1]) # ev.post[k].len
       \/ ~FlagsOk(ev.post[k]) THEN "inconsistent after fault"
  ELSE IF \E k \in Touched(ev) :
       \/ Len(ev.post[k].u) # ev.post[k].len
       \/ ~Subseq(Zip(ev.post[k].u, ev.post[k].vw[1]), Sources(ev, k)) THEN "content after fault"
  ELSE ""

-----------------------------------------------------------------------------
(* Ownership. *)
Live == UNION {Range(st[k]) : k \in 1..Len(st)} \cup limbo
Created(ev) == Range(ev.mk) \cup {ev.cl[k][2] : k \in 1..Len(ev.cl)}
Placed(ev) == Flat([k \in 1..Len(ev.post) |-> ev.post[k].u]) \o ev.ru \o ev.tu
Handed(ev) == Range(ev.ru) \cup Range(ev.tu)
RECURSIVE Stored(_, _)
Stored(post, k) == IF k = 0 THEN 0 ELSE post[k].len + Stored(post, k - 1)
\* elements without size cannot be told apart, only counted (live is Uncounted for other types)
Uncounted == -1000000000
CountVerdict(ev) ==
  IF ev.live = Uncounted \/ IsFault(ev) THEN ""
  ELSE IF ev.live > Stored(ev.post, Len(ev.post)) THEN "leaked (sizeless elements)"
  ELSE IF ev.live < Stored(ev.post, Len(ev.post)) THEN "destroyed while stored (sizeless elements)"
  ELSE ""
OwnerVerdict(ev) ==
  LET l0 == Live \cup Created(ev)
      l1 == l0 \ Range(ev.dr)
      pl == Placed(ev)
  IN IF ev.bad # 0 THEN "garbage cloned, destroyed or shown"
     ELSE IF ~IsDistinct(ev.dr) \/ ~(Range(ev.dr) \subseteq l0) THEN "destroyed twice"
     ELSE IF ~IsDistinct(pl) THEN "in two places"
     ELSE IF ~(Range(pl) \subseteq l1) THEN "a dead element is stored or handed out"
     ELSE IF ~IsDistinct(ev.d2) \/ ~(Range(ev.d2) \subseteq Handed(ev) \cup limbo) THEN "destroyed twice (handed out)"
     ELSE IF ~IsFault(ev) /\ ~((l1 \ Range(pl)) \subseteq limbo) THEN "leaked"
     ELSE IF ~IsFault(ev) /\ ~(Handed(ev) \subseteq Range(ev.d2)) THEN "leaked (handed out)"
     ELSE CountVerdict(ev)
LimboAfter(ev) ==
  ((((Live \cup Created(ev)) \ Range(ev.dr)) \ Range(Placed(ev))) \cup Handed(ev)) \ Range(ev.d2)

-----------------------------------------------------------------------------
Seen(post) == [k \in 1..Len(post) |-> [cap |-> post[k].cap, s |-> post[k].vw[1]]]
Uids(post) == [k \in 1..Len(post) |-> post[k].u]

Verdict(ev) ==
  CASE ev.e = "start" ->
         IF Value /\ \E k \in 1..Len(ev.post) : ~FlagsOk(ev.post[k]) THEN "length or flags at the start"
         ELSE IF Views THEN ViewsVerdict(ev.post)
         ELSE ""
    [] ev.e = "newcap" -> IF Value /\ ev.want # ev.got THEN "capacity of a new buffer" ELSE ""
    [] ev.e = "end" ->
         IF ev.p # 0 THEN "panic while dropping the buffers"
         ELSE IF Owner /\ ev.bad # 0 THEN "garbage destroyed at the end"
         ELSE IF Owner /\ (~IsDistinct(ev.dr) \/ ~(Range(ev.dr) \subseteq Live)) THEN "destroyed twice at the end"
         ELSE IF Owner /\ ev.live > 0 THEN "leaked at the end (sizeless elements)"
         ELSE IF Owner /\ ev.live < 0 /\ ev.live # Uncounted THEN "destroyed twice at the end (sizeless elements)"
         ELSE IF Owner /\ ~((Live \ limbo) \subseteq Range(ev.dr)) THEN "leaked at the end"
         ELSE ""
    [] ev.e = "op" ->
         LET f == IsFault(ev)
             v1 == IF f THEN (IF Views THEN FaultVerdict(ev) ELSE "")
                   ELSE IF Value THEN ValueVerdict(ev, Expected(ev)) ELSE ""
             v2 == IF Views THEN ViewsVerdict(ev.post) ELSE ""
             v3 == IF Owner THEN OwnerVerdict(ev) ELSE ""
         IN IF v1 # "" THEN v1 ELSE IF v2 # "" THEN v2 ELSE v3
    [] OTHER -> "unknown event"

Init == i = 1 /\ regs = <<>> /\ st = <<>> /\ limbo = {}
Next ==
  /\ i <= Len(Trace)
  /\ LET ev == Trace[i] w == Verdict(ev) IN
     /\ IF w = "" THEN TRUE ELSE PrintT(<<"FAIL", i, w>>) /\ FALSE
     /\ i' = i + 1
     /\ CASE ev.e = "start" -> regs' = Seen(ev.post) /\ st' = Uids(ev.post) /\ limbo' = {}
          [] ev.e = "op" ->
               /\ regs' = IF Value /\ ~IsFault(ev) THEN Expected(ev).regs ELSE Seen(ev.post)
               /\ st' = Uids(ev.post)
               /\ limbo' = IF Owner THEN LimboAfter(ev) ELSE {}
          [] OTHER -> UNCHANGED <<regs, st, limbo>>
Spec == Init /\ [][Next]_vars

WellFormedRegs == \A k \in 1..Len(regs) : Value => WellFormed(regs[k])
\* every line of the trace was accepted
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
