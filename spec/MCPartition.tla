---------------------------- MODULE MCPartition ----------------------------
(***************************************************************************)
(* Every history of disjoint-set operations up to a depth, with new        *)
(* elements named in order of appearance (any other naming is the same     *)
(* history up to renaming).  Checked: the partition is exactly the         *)
(* connectivity of the performed unions.  Printed: every history with all  *)
(* results, for replay.                                                    *)
(***************************************************************************)
EXTENDS Partition, TLC, Json
CONSTANTS Depth, Keys, Emit
VARIABLES p, h, r, top, edges, added
vars == <<p, h, r, top, edges, added>>

Op(n, k) == [n |-> n, k |-> k]
\* elements that may be mentioned: the known ones and the next new one
Next1 == IF top < Keys THEN 1..(top + 1) ELSE 1..Keys
After(x) == IF x > top THEN x ELSE top
Next2(x) == IF After(x) < Keys THEN 1..(After(x) + 1) ELSE 1..Keys
Pairs == UNION {{<<x, y>> : y \in Next2(x)} : x \in Next1}
Triples == UNION {{<<q[1], q[2], z>> : z \in IF After(q[1]) > After(q[2]) THEN Next2(q[1]) ELSE Next2(q[2])} : q \in Pairs}
Ops == {Op("make_set", <<x>>) : x \in Next1} \cup {Op("union", q) : q \in Pairs} \cup {Op("in_union", q) : q \in Pairs}
       \cup {Op(n, <<>>) : n \in {"clear", "iter", "reclone", "clone_away"}}
       \cup {Op("extend", q) : q \in Pairs \cup {t \in Triples : t[1] = 1}} \cup {Op("from_iter", q) : q \in {t \in Pairs \cup Triples \cup {<<>>} : t # <<>> => t[1] = 1}}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

Init == p = None /\ h = <<>> /\ r = <<>> /\ top = 0 /\ edges = {} /\ added = {}
Do(o) == LET y == ApplyP(p, o) IN
  /\ p' = y.p /\ h' = Append(h, o) /\ r' = Append(r, y.res)
  /\ top' = MaxOf({top} \cup Set(o.k))
  /\ edges' = IF o.n \in {"clear", "from_iter"} THEN {} ELSE IF o.n = "union" THEN edges \cup {<<o.k[1], o.k[2]>>} ELSE edges
  /\ added' = IF o.n = "clear" THEN {} ELSE IF o.n = "from_iter" THEN Set(o.k)
              ELSE IF o.n \in {"make_set", "union", "extend"} THEN added \cup Set(o.k) ELSE added
Next == Len(h) < Depth /\ \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars

\* reachability over the performed unions, in either direction
RECURSIVE Reach(_)
Reach(S) == LET T == S \cup {e[2] : e \in {d \in edges : d[1] \in S}} \cup {e[1] : e \in {d \in edges : d[2] \in S}}
            IN IF T = S THEN S ELSE Reach(T)
Connectivity == /\ Added(p) = added
                /\ \A x \in added : {y \in added : Joined(p, x, y)} = Reach({x})
Canonical == \A x \in DOMAIN p : p[x] \in DOMAIN p /\ p[p[x]] = p[x] /\ p[x] <= x

Labels(q) == [i \in 1..Keys |-> IF i \in DOMAIN q THEN q[i] ELSE 0]
EmitT == IF Emit
         THEN PrintT(ToJson([k |-> "P", h |-> [i \in 1..Len(h') |-> <<h'[i].n, h'[i].k>>], r |-> r', p |-> Labels(p')]))
         ELSE TRUE
=============================================================================
