------------------------------ MODULE Interval ------------------------------
(***************************************************************************)
(* The meaning of intervals.  A value v is the point 2v; the open gap       *)
(* between neighbouring values v and w used anywhere is the odd points      *)
(* between 2v and 2w (on a dense order a gap is never empty).  An interval  *)
(* is <<>> (empty) or <<lo, lc, up, uc>>, lc and uc telling whether the     *)
(* bounds are closed, and stands for all points from its first to its last. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

EmptyI == <<>>
IsEmpty(a) == a = <<>>
WellFormed(a) == a = <<>> \/ (Len(a) = 4 /\ a[2] \in {0, 1} /\ a[4] \in {0, 1}
                              /\ (a[1] < a[3] \/ (a[1] = a[3] /\ a[2] = 1 /\ a[4] = 1)))
First(a) == 2 * a[1] + 1 - a[2]
Last(a) == 2 * a[3] - 1 + a[4]
Points(a) == IF IsEmpty(a) THEN {} ELSE First(a)..Last(a)
Min(x, y) == IF x <= y THEN x ELSE y
Max(x, y) == IF x >= y THEN x ELSE y
B(b) == IF b THEN 1 ELSE 0

\* the interval that consists of the points f..l (f odd: open at the value below, ...)
FromPoints(f, l) == IF f > l THEN EmptyI
                    ELSE <<IF f % 2 = 0 THEN f \div 2 ELSE (f - 1) \div 2, B(f % 2 = 0),
                           IF l % 2 = 0 THEN l \div 2 ELSE (l + 1) \div 2, B(l % 2 = 0)>>
Single(v) == <<v, 1, v, 1>>

(* construction *)
NewOk(lo, lc, up, uc) == WellFormed(<<lo, lc, up, uc>>)

(* relations, stated on first and last points; MCInterval shows they are the set relations *)
HasVal(a, v) == ~IsEmpty(a) /\ First(a) <= 2 * v /\ 2 * v <= Last(a)
HasInterval(a, b) == IsEmpty(b) \/ (~IsEmpty(a) /\ First(a) <= First(b) /\ Last(b) <= Last(a))
Intersects(a, b) == ~IsEmpty(a) /\ ~IsEmpty(b) /\ Max(First(a), First(b)) <= Min(Last(a), Last(b))
Intersection(a, b) == IF Intersects(a, b) THEN FromPoints(Max(First(a), First(b)), Min(Last(a), Last(b))) ELSE EmptyI
Mergeable(a, b) == IsEmpty(a) \/ IsEmpty(b) \/ (First(b) <= Last(a) + 1 /\ First(a) <= Last(b) + 1)
Span(a, b) == IF IsEmpty(a) THEN b ELSE IF IsEmpty(b) THEN a
              ELSE FromPoints(Min(First(a), First(b)), Max(Last(a), Last(b)))
Lt(a, b) == ~IsEmpty(a) /\ ~IsEmpty(b) /\ Last(a) < First(b)
Le(a, b) == Lt(a, b) \/ (~IsEmpty(a) /\ ~IsEmpty(b) /\ Last(a) = First(b) /\ Last(a) % 2 = 0)
Gt(a, b) == Lt(b, a)
Ge(a, b) == Le(b, a)
\* -1 less, 0 equal, 1 greater, 2 none
Cmp(a, b) == IF Gt(a, b) THEN 1 ELSE IF Lt(a, b) THEN -1 ELSE IF a = b THEN 0 ELSE 2
Rel(a, b) == <<B(Lt(a, b)), B(Le(a, b)), B(Gt(a, b)), B(Ge(a, b)), B(a = b), B(a # b), Cmp(a, b)>>

(* bounds: <<value, closed>> *)
LoPoint(l) == 2 * l[1] + 1 - l[2]
UpPoint(u) == 2 * u[1] - 1 + u[2]
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
\* bounds of one kind and values are points
PointRel(p, q) == <<B(p < q), B(p <= q), B(p > q), B(p >= q), B(p = q), B(p # q), Sign(p - q)>>
\* bounds of different kinds: strict comparison of equal values holds unless both are closed
MixLt(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ (x[2] = 0 \/ y[2] = 0))
MixRel(x, y) == <<B(MixLt(x, y)), B(x[1] <= y[1]), B(MixLt(y, x)), B(x[1] >= y[1]), 0, 1,
                  IF MixLt(x, y) THEN -1 ELSE IF MixLt(y, x) THEN 1 ELSE 2>>
\* the bound (as a point) within two limits that is nearest to p
Clamp(p, lo, hi) == IF p < lo THEN lo ELSE IF p > hi THEN hi ELSE p
\* nothing at or above l and at or below u meets, and there is a point between them
Separated(l, u) == LoPoint(l) > UpPoint(u) + 1

(* arithmetic: f(value) for both bounds, closedness travels with its bound *)
Put(l, lc, u, uc) == IF l > u THEN (IF u = l /\ ~(lc = 1 /\ uc = 1) THEN EmptyI ELSE <<u, uc, l, lc>>)
                     ELSE IF l = u /\ ~(lc = 1 /\ uc = 1) THEN EmptyI ELSE <<l, lc, u, uc>>
\* division of integers as in Rust: towards zero
TDiv(x, y) == LET q == (IF x < 0 THEN -x ELSE x) \div (IF y < 0 THEN -y ELSE y)
              IN IF (x < 0) = (y < 0) THEN q ELSE -q
Fun(n, x, c) == CASE n = "add" -> x + c [] n = "sub" -> x - c [] n = "mul" -> x * c
                  [] n = "div" -> TDiv(x, c) [] n = "neg" -> -x
Map(n, a, c) == IF IsEmpty(a) THEN EmptyI ELSE Put(Fun(n, a[1], c), a[2], Fun(n, a[3], c), a[4])

(* What a panic of the value type (comparing, cloning, computing) during the
   in-place operation n, meant to turn a into r, may leave: an interval, and
   one that has to do with a and r.  Arithmetic moves both bounds or none;
   the others may have replaced one bound only. *)
OneOf(x, y, q) == q = x \/ q = y
MayLeave(a, r, n, q) ==
  \/ q \in {a, r, EmptyI}
  \/ /\ n \in {"span", "merge", "intersection"} /\ ~IsEmpty(a) /\ ~IsEmpty(r)
     /\ Len(q) = 4 /\ WellFormed(q)
     /\ OneOf(SubSeq(a, 1, 2), SubSeq(r, 1, 2), SubSeq(q, 1, 2))
     /\ OneOf(SubSeq(a, 3, 4), SubSeq(r, 3, 4), SubSeq(q, 3, 4))
=============================================================================
