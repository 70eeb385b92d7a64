------------------------------- MODULE Merges -------------------------------
(***************************************************************************)
(* Orders of unions over elements 1..m that are meant to grow deep trees.  *)
(* The design of UnionFind stays logarithmic on all of them, and every     *)
(* wrong linking rule considered is driven deeper than that by at least    *)
(* one of them - so running these orders on the code, at any size, is a    *)
(* meaningful test of its linking rule.  Prints the orders for small m;    *)
(* the harness must generate the same ones.                                *)
(***************************************************************************)
EXTENDS TLC, Json, SequencesExt, Partition
CONSTANTS Sizes, Emit
U == INSTANCE UnionFind

FlipIf(fl, q) == IF fl = 1 THEN <<q[2], q[1]>> ELSE q
\* star with centre c and members c+1 .. c+s
StarAt(c, s, fl) == [j \in 1..s |-> FlipIf(fl, <<c, c + j>>)]
Chain(m, fl) == [j \in 1..(m - 1) |-> FlipIf(fl, <<j, j + 1>>)]
\* like Chain, the other end first
Back(m, fl) == [j \in 1..(m - 1) |-> FlipIf(fl, <<m - j, m - j + 1>>)]
\* balanced merging of lo..lo+len-1, always naming the first (fl=0) or last element of the parts
RECURSIVE Tour(_, _, _)
Tour(lo, len, fl) == IF len <= 1 THEN <<>>
  ELSE LET l == len \div 2 IN Tour(lo, l, fl) \o Tour(lo + l, len - l, fl)
         \o <<IF fl = 0 THEN <<lo, lo + l>> ELSE <<lo + len - 1, lo + l - 1>>>>
\* blocks of size b, each merged in a balanced way, then chained
RECURSIVE Blocks2(_, _, _, _)
Blocks2(lo, m, b, fl) ==
  IF lo > m THEN <<>>
  ELSE LET len == IF lo + b - 1 <= m THEN b ELSE m - lo + 1
           hi == lo + len - 1
           link == IF lo = 1 THEN <<>>
                   ELSE CASE fl = 0 -> <<<<lo, lo - b>>>>       \* first elements, new block named first
                          [] fl = 1 -> <<<<lo - 1, hi>>>>       \* last elements, new block named second
                          [] fl = 2 -> <<<<lo - b, lo>>>>
                          [] fl = 3 -> <<<<hi, lo - 1>>>>
       IN Tour(lo, len, IF fl \in {0, 2} THEN 0 ELSE 1) \o link \o Blocks2(lo + len, m, b, fl)
\* stars that grow by g, each put on top of (named before or after) the previous ones
RECURSIVE Stars(_, _, _, _, _)
Stars(lo, s, m, g, fl) ==
  IF lo + s > m THEN (IF lo > m \/ lo = 1 THEN <<>> ELSE [j \in 1..(m - lo + 1) |-> FlipIf(fl, <<lo - (s - g) - 1, lo + j - 1>>)])
  ELSE StarAt(lo, s, fl) \o (IF lo = 1 THEN <<>> ELSE <<FlipIf(fl, <<lo, lo - (s - g) - 1>>)>>) \o Stars(lo + s + 1, s + g, m, g, fl)
\* pairs joined again and again, each put on top of the previous ones
Bump(m, fl) ==
  LET RECURSIVE G(_)
      G(lo) == IF lo + 1 > m THEN (IF lo = m /\ m > 1 THEN <<FlipIf(fl, <<m - 2, m>>)>> ELSE <<>>)
               ELSE [j \in 1..((lo + 1) \div 2 + 1) |-> FlipIf(fl, <<lo, lo + 1>>)]
                    \o (IF lo > 1 THEN <<FlipIf(fl, <<lo, lo - 2>>)>> ELSE <<>>) \o G(lo + 2)
  IN G(1)
\* elements joined with themselves again and again, each put on top of the previous ones
Own(m, fl) ==
  LET RECURSIVE G(_)
      G(lo) == IF lo > m THEN <<>>
               ELSE [j \in 1..(lo + 1) |-> <<lo, lo>>] \o (IF lo > 1 THEN <<FlipIf(fl, <<lo, lo - 1>>)>> ELSE <<>>) \o G(lo + 1)
  IN G(1)
\* both halves chained towards the middle
Both(m, fl) == [j \in 1..(m - 1) |-> FlipIf(fl, IF j % 2 = 1 THEN <<j, j + 1>> ELSE <<j - 1, j + 1>>)]

Families == {"chain0", "chain1", "back0", "back1", "star0", "star1", "tour0", "tour1", "zip0", "zip1",
             "blk4-0", "blk4-1", "blk4-2", "blk4-3", "grow1-0", "grow1-1", "grow2-0", "grow2-1", "bump-0", "bump-1", "own-0", "own-1"}
Family(w, m) ==
  CASE w = "chain0" -> Chain(m, 0) [] w = "chain1" -> Chain(m, 1)
    [] w = "back0" -> Back(m, 0) [] w = "back1" -> Back(m, 1)
    [] w = "star0" -> StarAt(1, m - 1, 0) [] w = "star1" -> StarAt(1, m - 1, 1)
    [] w = "tour0" -> Tour(1, m, 0) [] w = "tour1" -> Tour(1, m, 1)
    [] w = "zip0" -> Both(m, 0) [] w = "zip1" -> Both(m, 1)
    [] w = "blk4-0" -> Blocks2(1, m, 4, 0) [] w = "blk4-1" -> Blocks2(1, m, 4, 1)
    [] w = "blk4-2" -> Blocks2(1, m, 4, 2) [] w = "blk4-3" -> Blocks2(1, m, 4, 3)
    [] w = "grow1-0" -> Stars(1, 1, m, 1, 0) [] w = "grow1-1" -> Stars(1, 1, m, 1, 1)
    [] w = "grow2-0" -> Stars(1, 1, m, 2, 0) [] w = "grow2-1" -> Stars(1, 1, m, 2, 1)
    [] w = "bump-0" -> Bump(m, 0) [] w = "bump-1" -> Bump(m, 1)
    [] w = "own-0" -> Own(m, 0) [] w = "own-1" -> Own(m, 1)

(* What else is done after every union.  None of it may change how the      *)
(* following unions link; looking elements up may shorten paths.            *)
Interludes == {"clone", "clone_from", "reserve", "remake", "extend", "extend_ref", "ask", "self_union", "part_iter"}

VARIABLES w, m, design, aside, j, f, p, deep
vars == <<w, m, design, aside, j, f, p, deep>>
Designs == {"rank", "norank", "noranb", "nobump", "always", "inverted", "loser", "cap1", "again", "own", "forget"}
\* "cap1": ranks never exceed one; "again": joining within one set raises the rank;
\* "own": joining an element with itself raises the rank; "forget": what is done in between resets the ranks
LinkAs(g, a, b, d) == IF d \in {"again", "own", "forget"} THEN U!Link(g, a, b, "rank") ELSE IF d # "cap1" THEN U!Link(g, a, b, d)
                      ELSE LET x == U!Link(g, a, b, "rank") IN [x EXCEPT !.rank = [y \in 1..Len(x.rank) |-> IF x.rank[y] > 1 THEN 1 ELSE x.rank[y]]]
Join(g0, a, b, d) == LET g == U!Compress(U!Compress(g0, a), b) ra == U!Root(g, a) rb == U!Root(g, b)
                     IN IF ra = rb THEN (IF d = "again" \/ (d = "own" /\ a = b) THEN [g EXCEPT !.rank[ra] = @ + 1] ELSE g) ELSE LinkAs(g, ra, rb, d)
Beside(g, x, d) == CASE x = "none" -> g
                     [] x # "none" /\ d = "forget" -> [g EXCEPT !.rank = [y \in 1..U!Size(g) |-> 0]]
                     [] x = "ask" /\ U!Size(g) > 1 -> U!Compress(U!Compress(g, 1), 2)
                     [] x = "part_iter" -> U!CompressAll(g, U!Size(g))
                     [] OTHER -> g
\* the elements the harness asks about once an order is complete
Probes(g) == LET s == U!Size(g) IN {1, 2, s, s - 1, s \div 2, s \div 2 + 1, s \div 3}
ProbeDepth(g) == LET D == {U!DepthOf(g, x) : x \in Probes(g) \cap 1..U!Size(g)} IN CHOOSE d \in D : \A e \in D : e <= d
Init == w \in Families /\ m \in Sizes /\ design \in Designs /\ j = 0
        /\ aside \in (CASE design = "rank" -> {"none", "ask", "part_iter", "clone"} [] design = "forget" -> {"clone"} [] OTHER -> {"none"})
        /\ f = U!AddTo(U!Empty, m) /\ p = MakeAll(None, [k \in 1..m |-> k]) /\ deep = 0
Next == /\ j < Len(Family(w, m))
        /\ LET q == Family(w, m)[j + 1] IN f' = Beside(Join(f, q[1], q[2], design), aside, design) /\ p' = Union(p, q[1], q[2])
        /\ j' = j + 1 /\ deep' = ProbeDepth(f') /\ UNCHANGED <<w, m, design, aside>>
Spec == Init /\ [][Next]_vars

Done == j = Len(Family(w, m))
RightIsShallow == design = "rank" => U!Logarithmic(f) /\ U!RankGrows(f)
AllMerged == Done => p = [x \in 1..m |-> 1]
\* collect the depth each design was driven to (TLC registers; one worker)
Ix(d) == CASE d = "rank" -> 1 [] d = "norank" -> 2 [] d = "noranb" -> 3 [] d = "nobump" -> 4 [] d = "always" -> 5
           [] d = "inverted" -> 6 [] d = "loser" -> 7 [] d = "cap1" -> 8 [] d = "again" -> 9 [] d = "own" -> 10 [] d = "forget" -> 11
ASSUME \A k \in 1..11 : TLCSet(k, 0)
MaxSize == CHOOSE s \in Sizes : \A t \in Sizes : t <= s
Collect == IF m = MaxSize /\ Done /\ deep > TLCGet(Ix(design)) THEN TLCSet(Ix(design), deep) ELSE TRUE
Discriminating == \A d \in Designs : IF d = "rank" THEN U!Pow2(TLCGet(1)) <= MaxSize
                                     ELSE U!Pow2(TLCGet(Ix(d))) > MaxSize \/ (PrintT(<<"not driven deep", d, TLCGet(Ix(d))>>) /\ FALSE)
EmitT == IF Emit THEN (IF design = "rank" /\ aside = "none" /\ j = 0 THEN PrintT(ToJson([k |-> "F", w |-> w, m |-> m, u |-> Family(w, m)])) ELSE TRUE)
                 /\ (IF w = "chain0" /\ m = 2 /\ design = "rank" /\ aside = "none" THEN PrintT(ToJson([k |-> "A", w |-> SetToSeq(Interludes)])) ELSE TRUE) /\ FALSE ELSE TRUE
=============================================================================
