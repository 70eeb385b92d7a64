----------------------------- MODULE UnionFind -----------------------------
(***************************************************************************)
(* The design behind the disjoint set: a forest with union by rank and     *)
(* path compression.  Elements are numbered in the order they were added.  *)
(* Design selects the linking rule: "rank" is the right one, the others    *)
(* are plausible mistakes used to show that the merge orders of Merges.tla *)
(* would expose them.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Empty == [parent |-> <<>>, rank |-> <<>>]
Size(f) == Len(f.parent)
AddOne(f) == [parent |-> Append(f.parent, Size(f) + 1), rank |-> Append(f.rank, 0)]
RECURSIVE AddTo(_, _)
AddTo(f, n) == IF Size(f) >= n THEN f ELSE AddTo(AddOne(f), n)
RECURSIVE Root(_, _)
Root(f, x) == IF f.parent[x] = x THEN x ELSE Root(f, f.parent[x])
RECURSIVE DepthOf(_, _)
DepthOf(f, x) == IF f.parent[x] = x THEN 0 ELSE 1 + DepthOf(f, f.parent[x])
\* find compresses the whole path
RECURSIVE Path(_, _)
Path(f, x) == IF f.parent[x] = x THEN {x} ELSE {x} \cup Path(f, f.parent[x])
Compress(f, x) == LET r == Root(f, x) on == Path(f, x)
                  IN [f EXCEPT !.parent = [y \in 1..Size(f) |-> IF y \in on THEN r ELSE f.parent[y]]]
RECURSIVE CompressAll(_, _)
CompressAll(f, n) == IF n = 0 THEN f ELSE CompressAll(Compress(f, n), n - 1)

Hang(f, child, root, bump) == [parent |-> [f.parent EXCEPT ![child] = root], rank |-> [f.rank EXCEPT ![root] = @ + bump]]
Link(f, a, b, design) ==   \* a, b: distinct roots; a wins ties
  LET ra == f.rank[a] rb == f.rank[b] IN
  CASE design = "rank"     -> IF ra < rb THEN Hang(f, a, b, 0) ELSE Hang(f, b, a, IF ra = rb THEN 1 ELSE 0)
    [] design = "norank"   -> Hang(f, b, a, 0)
    [] design = "noranb"   -> Hang(f, a, b, 0)
    [] design = "nobump"   -> IF ra < rb THEN Hang(f, a, b, 0) ELSE Hang(f, b, a, 0)
    [] design = "always"   -> IF ra < rb THEN Hang(f, a, b, 1) ELSE Hang(f, b, a, 1)
    [] design = "inverted" -> IF ra > rb THEN Hang(f, a, b, 0) ELSE Hang(f, b, a, IF ra = rb THEN 1 ELSE 0)
    [] design = "loser"    -> LET w == IF ra < rb THEN b ELSE a l == IF ra < rb THEN a ELSE b
                              IN [Hang(f, l, w, 0) EXCEPT !.rank = [f.rank EXCEPT ![l] = @ + (IF ra = rb THEN 1 ELSE 0)]]
Join(f, a, b, design) ==
  LET g == Compress(Compress(AddTo(AddTo(f, a), b), a), b) ra == Root(g, a) rb == Root(g, b)
  IN IF ra = rb THEN g ELSE Link(g, ra, rb, design)

\* least element of the block
LabelsOf(f) == [x \in 1..Size(f) |-> CHOOSE m \in 1..Size(f) : Root(f, m) = Root(f, x) /\ \A y \in 1..(m - 1) : Root(f, y) # Root(f, x)]
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
BlockSize(f, r) == Cardinality({y \in 1..Size(f) : Root(f, y) = r})
MaxDepth(f) == IF Size(f) = 0 THEN 0 ELSE LET D == {DepthOf(f, x) : x \in 1..Size(f)} IN CHOOSE d \in D : \A e \in D : e <= d
RankGrows(f) == \A x \in 1..Size(f) : f.parent[x] # x => f.rank[x] < f.rank[f.parent[x]]
Logarithmic(f) == \A x \in 1..Size(f) : LET r == Root(f, x) IN Pow2(f.rank[r]) <= BlockSize(f, r) /\ DepthOf(f, x) <= f.rank[r]
=============================================================================
