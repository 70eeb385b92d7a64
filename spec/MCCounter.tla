----------------------------- MODULE MCCounter -----------------------------
(***************************************************************************)
(* All small counters and pairs of counters.  The pointwise meaning of     *)
(* adding and subtracting (Counter.tla) is compared with the loops the     *)
(* code runs - one right-hand entry after the other, in any order a hash   *)
(* map may produce - and every operation is printed for replay.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Keys, Max, Emit
NPlus(x, y) == x + y
NMinus(x, y) == x - y
NLeq(x, y) == x <= y
C == INSTANCE Counter WITH Zero <- 0, One <- 1, Plus <- NPlus, Minus <- NMinus, Leq <- NLeq

VARIABLES a, b,   \* the operands as they were
          cur,    \* the left operand while the loop runs
          todo,   \* right-hand entries not processed yet
          op      \* the operation in progress or done
vars == <<a, b, cur, todo, op>>

Counters == UNION {[D -> 0..Max] : D \in SUBSET Keys}
NoOp == [n |-> "none", k |-> <<>>, c |-> <<>>]
Init == a \in Counters /\ b \in Counters /\ cur = a /\ todo = {} /\ op = NoOp

Op(n, k, c) == [n |-> n, k |-> k, c |-> c]
Lists(n) == UNION {[1..m -> Keys] : m \in 0..n}
Pairs(s) == UNION {{<<k, v>> : v \in [1..m -> 0..Max]} : k \in {l \in Lists(s) : \A i, j \in 1..Len(l) : l[i] = l[j] => i = j}, m \in 0..s}
Unary ==
  {Op(n, <<>>, <<>>) : n \in {"renew", "clear", "reserve", "reclone", "clone_away", "most_common", "drain_common", "drain_iter", "iter"}}
  \cup {Op(n, <<k>>, <<>>) : n \in {"push", "remove", "get", "index"}, k \in Keys}
  \cup {Op(n, <<k>>, <<v>>) : n \in {"insert", "get_mut", "entry"}, k \in Keys, v \in 0..Max}
  \cup {Op(n, <<>>, <<v>>) : n \in {"add_all", "retain"}, v \in 0..Max}
  \cup {Op(n, l, <<>>) : n \in {"extend", "from_iter"}, l \in Lists(3)}
  \cup {Op("from_map", p[1], p[2]) : p \in {q \in Pairs(2) : Len(q[1]) = Len(q[2])}}
Binary == {Op(n, <<>>, <<>>) : n \in {"add", "sub", "eq"}}

\* operations that are one step in the code
Direct == /\ op.n = "none"
          /\ \/ b = C!Empty /\ op' \in Unary
             \/ op' = Op("eq", <<>>, <<>>)
          /\ cur' = C!ApplyC(a, b, op').s
          /\ UNCHANGED <<a, b, todo>>
\* adding and subtracting visit the right-hand entries one by one
Start == /\ op.n = "none" /\ op' \in {Op("add", <<>>, <<>>), Op("sub", <<>>, <<>>)}
         /\ todo' = DOMAIN b /\ UNCHANGED <<a, b, cur>>
AddStep(k) == cur' = C!Set(cur, k, C!Get(cur, k) + b[k])
SubStep(k) == cur' = IF k \notin DOMAIN cur THEN cur
                     ELSE IF cur[k] <= b[k] THEN C!Del(cur, k)
                     ELSE C!Set(cur, k, cur[k] - b[k])
Loop == \E k \in todo : /\ IF op.n = "add" THEN AddStep(k) ELSE SubStep(k)
                        /\ todo' = todo \ {k} /\ UNCHANGED <<a, b, op>>
Next == Direct \/ Start \/ Loop
Spec == Init /\ [][Next]_vars

Done == op.n # "none" /\ todo = {}
\* the loop computes the pointwise result whatever the order of the entries
LoopIsPointwise == (Done /\ op.n \in {"add", "sub"}) => cur = C!ApplyC(a, b, op).s
\* abandoned anywhere, the loop leaves what a panic may leave; and what may be left is never
\* outside of what was there and what was to come
InterruptedIsSafe == op.n \in {"add", "sub"} => C!MayLeave(a, b, op, cur, FALSE)
LeftIsBetween == (Done /\ op.n \in {"add", "sub", "extend", "push", "clear"}) =>
  \A c \in Counters : C!MayLeave(a, b, op, c, FALSE) =>
    LET f == C!ApplyC(a, b, op).s IN
    \A k \in Keys : /\ C!Get(c, k) <= (IF C!Get(a, k) >= C!Get(f, k) THEN C!Get(a, k) ELSE C!Get(f, k))
                    /\ C!Get(c, k) >= (IF C!Get(a, k) <= C!Get(f, k) THEN C!Get(a, k) ELSE C!Get(f, k))
Laws ==
  /\ C!Add(a, b) = C!Add(b, a)
  /\ DOMAIN C!Sub(a, b) \subseteq DOMAIN a
  /\ (\A k \in DOMAIN a : a[k] > 0) /\ (\A k \in DOMAIN b : b[k] > 0) => C!Sub(C!Add(a, b), b) = a
  /\ \A k \in DOMAIN b : k \in DOMAIN C!Sub(a, b) => C!Sub(a, b)[k] > 0
  /\ \A k \in Keys : C!Get(C!Add(a, b), k) = C!Get(a, k) + C!Get(b, k)
  /\ \A k \in DOMAIN a \cap DOMAIN b : C!Get(C!Sub(a, b), k) = IF a[k] > b[k] THEN a[k] - b[k] ELSE 0
CountLaw == \A k \in Keys : op.n = "extend" /\ Done =>
              C!Get(cur, k) = C!Get(a, k) + Cardinality({i \in 1..Len(op.k) : op.k[i] = k})

\* sequences of <<element, count>>
Entries(c) == LET D == DOMAIN c
                  RECURSIVE L(_)
                  L(s) == IF s = {} THEN <<>> ELSE LET k == CHOOSE k \in s : \A j \in s : k <= j IN <<<<k, c[k]>>>> \o L(s \ {k})
              IN L(D)
\* prints the operation and explores no further
EmitT == IF Emit
         THEN LET y == C!ApplyC(a, b, op')
              IN /\ PrintT(ToJson([k |-> "K", a |-> Entries(a), b |-> Entries(b), n |-> op'.n, x |-> op'.k, c |-> op'.c,
                                   s |-> Entries(y.s), res |-> y.res, p |-> y.p]))
                 /\ FALSE
         ELSE TRUE
=============================================================================
