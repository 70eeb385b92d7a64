-------------------------- MODULE MCPartitionFault --------------------------
(***************************************************************************)
(* The disjoint set as the code keeps it - a map from elements to numbers  *)
(* and a forest over the numbers - taken through its operations one call   *)
(* into user code at a time.  Every such call may panic, which abandons    *)
(* the operation where it is.  The set is usable afterwards if the map and *)
(* the forest still match; it has to be a partition MayLeave of Partition.tla *)
(* allows.  Two plausible mistakes (Designs other than       *)
(* "code") are carried along to show that the requirement can fail.        *)
(***************************************************************************)
EXTENDS Partition, TLC
CONSTANTS Keys, Depth, Designs
U == INSTANCE UnionFind

VARIABLES design, ids, f,   \* the map and the forest
          p,                \* the partition before the operation in progress
          op, at, left      \* operation, next step of it, operations to go
vars == <<design, ids, f, p, op, at, left>>
Idle == [n |-> "none", k |-> <<>>]
Lists == {<<>>} \cup UNION {[1..m -> Keys] : m \in 1..3}
Ops == {[n |-> "make_set", k |-> <<a>>] : a \in Keys} \cup {[n |-> n, k |-> <<a, b>>] : n \in {"union", "in_union"}, a, b \in Keys}
       \cup {[n |-> "extend", k |-> l] : l \in {l \in Lists : Len(l) = 3 /\ l[1] # l[2]}} \cup {[n |-> "clear", k |-> <<>>]}

Init == design \in Designs /\ ids = None /\ f = U!Empty /\ p = None /\ op = Idle /\ at = 0 /\ left = Depth

Matching(i, g) == /\ {i[x] : x \in DOMAIN i} = 1..U!Size(g)
                  /\ Cardinality(DOMAIN i) = U!Size(g)
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Meaning(i, g) == [x \in DOMAIN i |-> Least({y \in DOMAIN i : U!Root(g, i[y]) = U!Root(g, i[x])})]

Begin == /\ op.n = "none" /\ left > 0
         /\ \E o \in Ops : op' = o
         /\ at' = 1 /\ left' = left - 1 /\ UNCHANGED <<design, ids, f, p>>
\* finishing and panicking both leave the operation; what it means then is what the data say
Leave == op' = Idle /\ at' = 0 /\ UNCHANGED <<design, left>>
Done(i, g) == Leave /\ ids' = i /\ f' = g /\ p' = IF Matching(i, g) THEN Meaning(i, g) ELSE None
Go(i, g) == at' = at + 1 /\ ids' = i /\ f' = g /\ UNCHANGED <<design, p, op, left>>

\* the elements an operation makes sure of, one after the other; each lookup calls user code
Wants == op.n \in {"make_set", "union", "extend"}
Absent(x) == x \notin DOMAIN ids
Number(x) == [y \in DOMAIN ids \cup {x} |-> IF y = x THEN Cardinality(DOMAIN ids) + 1 ELSE ids[y]]
\* "forest-first" grows the forest before it looks the element up
Supply ==
  /\ Wants /\ at <= (IF design = "forest-first" THEN 2 * Len(op.k) ELSE Len(op.k))
  /\ LET x == op.k[IF design = "forest-first" THEN (at + 1) \div 2 ELSE at] IN
     IF design = "forest-first"
     THEN IF at % 2 = 1 THEN Go(ids, IF Absent(x) THEN U!AddOne(f) ELSE f) ELSE Go(IF Absent(x) THEN Number(x) ELSE ids, f)
     ELSE IF Absent(x) THEN Go(Number(x), U!AddOne(f)) ELSE Go(ids, f)
AllThere == Wants /\ at > (IF design = "forest-first" THEN 2 * Len(op.k) ELSE Len(op.k))
Conclude == /\ AllThere
            /\ Done(ids, IF op.n = "union" THEN U!Join(f, ids[op.k[1]], ids[op.k[2]], "rank") ELSE f)
Look == /\ op.n = "in_union"
        /\ IF at <= 2 THEN Go(ids, f)
           ELSE Done(ids, IF Absent(op.k[1]) \/ Absent(op.k[2]) THEN f ELSE U!Compress(U!Compress(f, ids[op.k[1]]), ids[op.k[2]]))
\* emptying the map drops the elements: it is empty afterwards even if that panics
Wipe == /\ op.n = "clear"
        /\ CASE at = 1 -> IF design = "map-first" THEN Go(None, f) ELSE Go(ids, U!Empty)
             [] at = 2 -> IF design = "map-first" THEN Go(ids, U!Empty) ELSE Go(None, f)
             [] OTHER -> Done(ids, f)
\* the calls into user code that can panic, and what the panic leaves
Calls == \/ (Wants /\ ~AllThere /\ (design = "forest-first" => at % 2 = 0))
         \/ (op.n = "in_union" /\ at <= 2)
Panic == \/ (Calls /\ Done(ids, f))
         \/ (op.n = "clear" /\ at = (IF design = "map-first" THEN 1 ELSE 2) /\ Done(None, f))
Next == Begin \/ (op.n # "none" /\ (Supply \/ Conclude \/ Look \/ Wipe \/ Panic))
Spec == Init /\ [][Next]_vars

\* a mistaken design is not followed any further once it has done its damage
Broken == op.n = "none" /\ ~Matching(ids, f)
Sound == Matching(ids, f) \/ op.n # "none" \/ design # "code"
\* what an operation leaves, finished or abandoned, is one of its parts
LeavesAPart == [][op.n # "none" /\ op'.n = "none" /\ design = "code" => MayLeave(p, op, p')]_vars
Follow == IF Broken THEN TLCSet(7, TLCGet(7) \cup {design}) /\ FALSE ELSE TRUE
ASSUME TLCSet(7, {})
MistakesShow == TLCGet(7) = Designs \ {"code"}
=============================================================================
