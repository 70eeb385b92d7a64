---------------------------- MODULE TraceCounter ----------------------------
(* Accepts a recorded history of counters exactly if every event is an       *)
(* outcome Counter.tla allows.  Counts are machine words (BigNat).           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

BN == INSTANCE BigNat WITH Base <- 10000, Limbs <- 5
ZeroB == BN!BZero
OneB == BN!BOne
PlusB(x, y) == BN!BPlus(x, y)
MinusB(x, y) == BN!BMinus(x, y)
LeqB(x, y) == BN!BLeq(x, y)
INSTANCE Counter WITH Zero <- ZeroB, One <- OneB, Plus <- PlusB, Minus <- MinusB, Leq <- LeqB

Trace == ndJsonDeserialize(IOEnv.TRACE)
Aspect(a) == a \in DOMAIN IOEnv /\ IOEnv[a] = "1"
Views == Aspect("VIEWS")

VARIABLES i, regs
vars == <<i, regs>>

FromList(l) == [k \in {l[j][1] : j \in 1..Len(l)} |-> l[CHOOSE j \in 1..Len(l) : l[j][1] = k][2]]
\* a listing without duplicates that says exactly c
Says(l, c) == IsListing(c, l)
Shows(ob, c) == (\E j \in 1..Len(ob.vw) : Says(ob.vw[j], c))
O(ev) == [n |-> ev.n, k |-> ev.k, c |-> ev.c]

\* the right-hand side of an owned form is consumed; a fresh counter takes its place
Expected(ev) ==
  LET r == ev.r q == ev.q IN
  IF ev.n = "clone_to" THEN [regs |-> [regs EXCEPT ![q] = regs[r]], p |-> 0]
  ELSE LET y == ApplyC(regs[r], regs[q], O(ev))
           one == [regs EXCEPT ![r] = y.s]
       IN [regs |-> IF ev.n \in {"add", "sub"} /\ ev.v \in {0, 2} THEN [one EXCEPT ![q] = Empty] ELSE one,
           p |-> y.p]
ResultOk(ev) == IF ev.n = "clone_to" THEN TRUE ELSE ResOk(regs[ev.r], regs[ev.q], O(ev), ev.res)

\* an operation abandoned by a panic in user code (p = 2)
Fresh(ob) == FromList(ob.vw[1])
Left(ev) == [k \in DOMAIN regs |-> Fresh(ev.post[k])]
Coherent(ob) == /\ \A j \in 1..Len(ob.vw) : Says(ob.vw[j], Fresh(ob))
                /\ ob.len = Cardinality(DOMAIN Fresh(ob)) /\ ob.em = B(DOMAIN Fresh(ob) = {})
FaultOk(ev, k, c) ==
  CASE ev.n = "clone_to" -> c = regs[k] \/ (k = ev.q /\ c = regs[ev.r])
    [] k = ev.r -> MayLeave(regs[k], regs[ev.q], O(ev), c, ev.f = "hash") \/ (ev.n \in {"add", "sub"} /\ ev.v \in {2, 3} /\ c = Empty)
    [] OTHER -> c = regs[k] \/ (k = ev.q /\ ev.n \in {"add", "sub"} /\ ev.v \in {0, 2} /\ c = Empty)

Verdict(ev) ==
  CASE ev.e = "start" -> IF \A k \in 1..Len(ev.post) : Shows(ev.post[k], Empty) THEN "" ELSE "a new counter is not empty"
    [] ev.e = "op" /\ ev.p = 2 ->
         IF \E k \in DOMAIN regs : ~Coherent(ev.post[k]) THEN "incoherent after a panic"
         ELSE IF \E k \in DOMAIN regs : ~FaultOk(ev, k, Left(ev)[k]) THEN "what a panic leaves"
         ELSE ""
    [] ev.e = "op" ->
         LET ex == Expected(ev) IN
         IF ev.p # ex.p THEN "panic behaviour"
         ELSE IF ev.p = 0 /\ ~ResultOk(ev) THEN "result"
         ELSE IF \E k \in 1..Len(regs) : ~Shows(ev.post[k], ex.regs[k]) THEN "content"
         ELSE IF \E k \in 1..Len(regs) : ev.post[k].len # Cardinality(DOMAIN ex.regs[k])
                                          \/ ev.post[k].em # B(DOMAIN ex.regs[k] = {}) THEN "length"
         ELSE IF Views /\ \E k \in 1..Len(regs) : Len(ev.post[k].vw) # 1 THEN "views disagree"
         ELSE ""
    [] ev.e = "end" -> ""
    [] OTHER -> "unknown event"

Init == i = 1 /\ regs = <<>>
Next ==
  /\ i <= Len(Trace)
  /\ LET ev == Trace[i] w == Verdict(ev) IN
     /\ IF w = "" THEN TRUE ELSE PrintT(<<"FAIL", i, w>>) /\ FALSE
     /\ i' = i + 1
     /\ CASE ev.e = "start" -> regs' = [k \in 1..Len(ev.post) |-> Empty]
          [] ev.e = "op" -> regs' = IF ev.p = 2 THEN Left(ev) ELSE Expected(ev).regs
          [] OTHER -> UNCHANGED regs
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
