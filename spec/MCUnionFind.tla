---------------------------- MODULE MCUnionFind ----------------------------
(* Every forest the design can reach with up to N elements: it refines the  *)
(* partition of Partition.tla, and no path is longer than log2 of its size. *)
(* Prints every transition for replay.                                      *)
EXTENDS TLC, Json, Partition
CONSTANTS N, Emit
U == INSTANCE UnionFind
VARIABLES f, p, op
vars == <<f, p, op>>
n == U!Size(f)
Op(name, k) == [n |-> name, k |-> k]
Init == f = U!Empty /\ p = None /\ op = Op("none", <<>>)
Lim(m) == IF m <= N THEN m ELSE N
Pairs == UNION {{<<a, b>> : b \in 1..Lim(IF a > n THEN n + 2 ELSE n + 1)} : a \in 1..Lim(n + 1)}
Known == {q \in Pairs : q[1] <= n /\ q[2] <= n}
Step(o, g) == f' = g /\ op' = o /\ p' = ApplyP(p, o).p
Next == \/ n < N /\ Step(Op("make_set", <<n + 1>>), U!AddOne(f))
        \/ \E q \in Pairs : Step(Op("union", q), U!Join(f, q[1], q[2], "rank"))
        \/ \E q \in Known : Step(Op("in_union", q), U!Compress(U!Compress(f, q[1]), q[2]))
        \/ n > 0 /\ Step(Op("iter", <<>>), U!CompressAll(f, n))
        \/ Emit /\ n > 0 /\ Step(Op("make_set", <<n>>), f)
        \/ Emit /\ n > 0 /\ Step(Op("extend", <<1, n>>), f)
        \/ Emit /\ Step(Op("reclone", <<>>), f)
        \/ Emit /\ Step(Op("clone_away", <<>>), f)
Spec == Init /\ [][Next]_vars
View == <<f>>
Refines == p = U!LabelsOf(f)
Shallow == U!RankGrows(f) /\ U!Logarithmic(f)
\* a node per element, none for elements mentioned again
OneNodeEach == n = Cardinality(DOMAIN p)
QueryNeutral == [][op'.n \in {"in_union", "iter"} => p' = p]_vars
Labels(q) == [i \in 1..N |-> IF i \in DOMAIN q THEN q[i] ELSE 0]
EmitT == IF Emit
         THEN PrintT(ToJson([k |-> "U", s |-> <<f.parent, f.rank>>, n |-> op'.n, x |-> op'.k, t |-> <<f'.parent, f'.rank>>,
                             r |-> ApplyP(p, op').res, p |-> Labels(p')]))
         ELSE TRUE
=============================================================================
