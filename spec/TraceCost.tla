------------------------------ MODULE TraceCost ------------------------------
(* Accepts a file of measurements exactly if each keeps the laws of Cost.tla *)
(* and each series costs the same per call at every size.                    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
C == INSTANCE Cost WITH s <- 0
Trace == ndJsonDeserialize(IOEnv.TRACE)
Aspect(a) == a \in DOMAIN IOEnv /\ IOEnv[a] = "1"
VARIABLES i, small
Verdict(ev) ==
  IF ev.e # "m" THEN ""
  ELSE IF ev.p # 0 THEN "panic"
  ELSE IF Aspect("MEM") /\ ~C!MemoryOk(ev) THEN "memory"
  ELSE IF Aspect("TIME") /\ ev.step > 1 /\ ~C!TimeOk(small, ev) THEN "time"
  ELSE ""
Init == i = 1 /\ small = [n |-> "", ns |-> 0]
Next == /\ i <= Len(Trace)
        /\ LET ev == Trace[i] w == Verdict(ev) IN
           /\ IF w = "" THEN TRUE ELSE PrintT(<<"FAIL", i, w>>) /\ FALSE
           /\ i' = i + 1
           /\ small' = IF ev.e = "m" /\ ev.step = 1 THEN ev ELSE small
Spec == Init /\ [][Next]_<<i, small>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
