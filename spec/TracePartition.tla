--------------------------- MODULE TracePartition ---------------------------
(* Accepts a recorded history of disjoint sets exactly if every event is an  *)
(* outcome Partition.tla allows.                                             *)
EXTENDS Partition, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Aspect(a) == a \in DOMAIN IOEnv /\ IOEnv[a] = "1"
Queries == Aspect("QUERY")
Members == Aspect("MEMBER")
Groups == Aspect("GROUPS")

VARIABLES i, regs
vars == <<i, regs>>

Expected(ev) ==
  IF ev.n = "clone_to" THEN [regs EXCEPT ![ev.q] = regs[ev.r]]
  ELSE [regs EXCEPT ![ev.r] = ApplyP(regs[ev.r], [n |-> ev.n, k |-> ev.k]).p]
\* an operation abandoned by a panic in user code (p = 2) leaves something MayLeave allows;
\* what it is can be seen from the groups
FromGroups(gs) == LET D == UNION {Set(gs[j]) : j \in 1..Len(gs)}
                  IN [x \in D |-> LET S == UNION {Set(gs[j]) : j \in {m \in 1..Len(gs) : x \in Set(gs[m])}} IN CHOOSE m \in S : \A y \in S : m <= y]
Left(ev) == [k \in DOMAIN regs |-> FromGroups(ev.post[k].gs)]
FaultOk(ev, k, q) ==
  IF ev.n = "clone_to" THEN q = regs[k] \/ (k = ev.q /\ q = regs[ev.r])
  ELSE IF k = ev.r THEN MayLeave(regs[k], ev, q) ELSE q = regs[k]
ResultOk(ev) ==
  LET p == regs[ev.r] IN
  CASE ev.n = "clone_to" -> TRUE
    [] ev.n = "in_union" -> ~Queries \/ ev.res = ApplyP(p, ev).res
    [] ev.n \in {"contains", "len", "is_empty"} -> ~Members \/ ev.res = ApplyP(p, ev).res
    [] ev.n = "iter" -> ~Groups \/ AllBlocks(p, ev.gs)
    [] ev.n = "iter_part" -> ~Groups \/ (SomeBlocks(p, ev.gs) /\ Len(ev.gs) = (IF ev.k[1] < Cardinality(Blocks(p)) THEN ev.k[1] ELSE Cardinality(Blocks(p))))
    [] OTHER -> ev.res = <<>>
\* what is wrong with an observation of partition p, or ""
Wrong(ob, p) ==
  IF ob.bad = 1 THEN "observing panics"
  ELSE IF Queries /\ \E k \in 1..Len(ob.prs) : ob.prs[k][3] # B(Joined(p, ob.prs[k][1], ob.prs[k][2])) THEN "queries"
  ELSE IF Members /\ (Set(ob.mem) # DOMAIN p \/ ob.len # Cardinality(DOMAIN p) \/ ob.em # B(DOMAIN p = {})) THEN "membership"
  ELSE IF Groups /\ ~AllBlocks(p, ob.gs) THEN "iteration"
  ELSE ""
AnyWrong(post, rs) == LET W == {k \in 1..Len(post) : Wrong(post[k], rs[post[k].r]) # ""}
                      IN IF W = {} THEN "" ELSE LET k == CHOOSE k \in W : TRUE IN Wrong(post[k], rs[post[k].r])
Verdict(ev) ==
  CASE ev.e = "start" -> AnyWrong(ev.post, [k \in 1..ev.regs |-> None])
    [] ev.e = "op" /\ ev.p = 2 -> LET w == AnyWrong(ev.post, Left(ev)) IN
                      IF w # "" THEN "after a panic: " \o w
                      ELSE IF \E k \in DOMAIN regs : ~FaultOk(ev, k, Left(ev)[k]) THEN "what a panic leaves"
                      ELSE ""
    [] ev.e = "op" -> IF ev.p # 0 THEN "panic"
                      ELSE IF ~ResultOk(ev) THEN "result"
                      ELSE AnyWrong(ev.post, Expected(ev))
    [] ev.e = "look" -> AnyWrong(ev.post, regs)
    [] ev.e = "end" -> ""
    [] OTHER -> "unknown event"

Init == i = 1 /\ regs = <<>>
Next ==
  /\ i <= Len(Trace)
  /\ LET ev == Trace[i] w == Verdict(ev) IN
     /\ IF w = "" THEN TRUE ELSE PrintT(<<"FAIL", i, w>>) /\ FALSE
     /\ i' = i + 1
     /\ CASE ev.e = "start" -> regs' = [k \in 1..ev.regs |-> None]
          [] ev.e = "op" -> regs' = IF ev.p = 2 THEN Left(ev) ELSE Expected(ev)
          [] OTHER -> UNCHANGED regs
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
