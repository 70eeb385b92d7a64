----------------------------- MODULE Partition -----------------------------
(***************************************************************************)
(* The abstract meaning of a disjoint set: a partition of the elements     *)
(* added so far, kept as a function from each element to the least element *)
(* of its block (so that equal partitions are equal functions).            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

None == [x \in {} |-> 0]
Added(p) == DOMAIN p
Make(p, x) == IF x \in DOMAIN p THEN p ELSE [y \in DOMAIN p \cup {x} |-> IF y = x THEN x ELSE p[y]]
RECURSIVE MakeAll(_, _)
MakeAll(p, xs) == IF xs = <<>> THEN p ELSE MakeAll(Make(p, Head(xs)), Tail(xs))
Union(p, a, b) ==
  LET q == Make(Make(p, a), b)
      m == IF q[a] <= q[b] THEN q[a] ELSE q[b]
  IN [x \in DOMAIN q |-> IF q[x] = q[a] \/ q[x] = q[b] THEN m ELSE q[x]]
Joined(p, a, b) == a \in DOMAIN p /\ b \in DOMAIN p /\ p[a] = p[b]
Blocks(p) == {{x \in DOMAIN p : p[x] = r} : r \in {p[x] : x \in DOMAIN p}}

B(b) == IF b THEN 1 ELSE 0
(* Operation o = [n, k (elements)]: the partition afterwards and the number
   returned, as a sequence.  Iteration returns groups; see GroupsOk. *)
OutP(p, res) == [p |-> p, res |-> res]
ApplyP(p, o) ==
  CASE o.n = "make_set"   -> OutP(Make(p, o.k[1]), <<>>)
    [] o.n = "union"      -> OutP(Union(p, o.k[1], o.k[2]), <<>>)
    [] o.n = "in_union"   -> OutP(p, <<B(Joined(p, o.k[1], o.k[2]))>>)
    [] o.n = "contains"   -> OutP(p, <<B(o.k[1] \in DOMAIN p)>>)
    [] o.n = "len"        -> OutP(p, <<Cardinality(DOMAIN p)>>)
    [] o.n = "is_empty"   -> OutP(p, <<B(DOMAIN p = {})>>)
    [] o.n = "extend"     -> OutP(MakeAll(p, o.k), <<>>)
    [] o.n = "from_iter"  -> OutP(MakeAll(None, o.k), <<>>)
    [] o.n = "renew"      -> OutP(None, <<>>)
    [] o.n = "clear"      -> OutP(None, <<>>)
    [] o.n = "reserve"    -> OutP(p, <<>>)
    [] o.n = "reclone"    -> OutP(p, <<>>)
    [] o.n = "clone_away" -> OutP(p, <<>>)   \* a clone is made, changed in every way and dropped
    [] o.n = "iter"       -> OutP(p, <<>>)
    [] o.n = "iter_part"  -> OutP(p, <<>>)   \* iteration abandoned after some groups

(* What a panic in user code (hashing, comparing, cloning or dropping an
   element, a source iterator) during operation o may leave of p: the
   partition after some of the steps the operation consists of, never
   anything else.  An element is either added, alone, or not there. *)
Supplied(p, o, q) == /\ DOMAIN p \subseteq DOMAIN q
                     /\ \A x \in DOMAIN q : IF x \in DOMAIN p THEN q[x] = p[x]
                                             ELSE q[x] = x /\ \E i \in 1..Len(o.k) : o.k[i] = x
MayLeave(p, o, q) ==
  CASE o.n \in {"make_set", "extend"} -> Supplied(p, o, q)
    [] o.n = "union"                  -> Supplied(p, o, q) \/ q = Union(p, o.k[1], o.k[2])
    [] o.n \in {"clear", "renew"}     -> q \in {p, None}
    [] o.n = "from_iter"              -> q \in {p, MakeAll(None, o.k)}   \* replaces the set only when done
    [] OTHER                          -> q = p

\* groups: a sequence of sequences of elements
Set(g) == {g[i] : i \in 1..Len(g)}
IsBlock(p, g) == g # <<>> /\ Len(g) = Cardinality(Set(g)) /\ Set(g) \in Blocks(p)
SomeBlocks(p, gs) == /\ \A i \in 1..Len(gs) : IsBlock(p, gs[i])
                     /\ \A i, j \in 1..Len(gs) : i # j => gs[i][1] # gs[j][1] /\ Set(gs[i]) \cap Set(gs[j]) = {}
AllBlocks(p, gs) == SomeBlocks(p, gs) /\ Len(gs) = Cardinality(Blocks(p))
=============================================================================
