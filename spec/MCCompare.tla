----------------------------- MODULE MCCompare -----------------------------
(* All pairs of short sequences, NaN included: the comparison laws hold and *)
(* every pair is printed with its verdict, for replay on real buffers.      *)
EXTENDS Deque, TLC, Json
CONSTANTS MaxLen, Vals, Emit
VARIABLES s, t
WithNaN == {-1, 0, 1}
Seqs == UNION {[1..n -> Vals] : n \in 0..MaxLen}
Init == s \in Seqs /\ t \in Seqs
Next == FALSE /\ UNCHANGED <<s, t>>
Spec == Init /\ [][Next]_<<s, t>>

Clean(u) == \A k \in 1..Len(u) : u[k] # NaN
Sign(c) == IF c = 2 THEN 2 ELSE 0 - c
Laws ==
  LET c == Compare(s, t) d == Compare(t, s) IN
  /\ c[1] = d[1] /\ c[2] = 1 - c[1]
  /\ c[3] = d[5] /\ c[4] = d[6]                        \* s<t iff t>s, s<=t iff t>=s
  /\ c[4] = B(c[3] = 1 \/ (c[7] = 0))
  /\ c[7] = Sign(d[7])
  /\ (c[7] = 0) <=> (c[1] = 1)                          \* equal iff ordered Equal
  /\ (Clean(s) /\ Clean(t)) => (c[7] # 2 /\ ((c[1] = 1) <=> (s = t)))
\* transitivity, against every third sequence of at most two elements
Transitive ==
  \A u \in UNION {[1..n -> Vals] : n \in 0..(IF MaxLen < 2 THEN MaxLen ELSE 2)} :
    (LexCmp(s, t) = -1 /\ LexCmp(t, u) \in {-1, 0}) => LexCmp(s, u) = -1
EmitC == IF Emit THEN PrintT(ToJson([k |-> "C", s |-> s, t |-> t, r |-> Compare(s, t)])) ELSE TRUE
=============================================================================
