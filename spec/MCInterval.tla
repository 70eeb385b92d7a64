---------------------------- MODULE MCInterval ----------------------------
(***************************************************************************)
(* All pairs (and triples) of intervals over the values 0..N-1.  Four       *)
(* values are enough for a pair: only the relative order of its four bounds *)
(* matters.  Checked: the relations and operations of Interval.tla are the  *)
(* set relations and operations on points, and the rules the code follows   *)
(* (bound by bound) compute them.  Printed: every pair with every answer.   *)
(***************************************************************************)
EXTENDS Interval, TLC, Json
CONSTANTS N, Triples, Emit
Vals == 0..(N - 1)
Quads == {<<l, lc, u, uc>> : l, u \in Vals, lc, uc \in {0, 1}}
Intervals == {q \in Quads : WellFormed(q)} \cup {EmptyI}
Bounds == {<<v, c>> : v \in Vals, c \in {0, 1}}
AllPoints == -1..(2 * N - 1)

VARIABLES a, b, c, v, l, u
vars == <<a, b, c, v, l, u>>
Init == /\ a \in Intervals /\ b \in Intervals
        /\ c \in (IF Triples THEN Intervals ELSE {EmptyI})
        /\ v \in (IF Triples \/ b # EmptyI THEN {0} ELSE Vals)
        /\ l \in (IF Triples \/ a # EmptyI \/ v # 0 THEN {<<0, 1>>} ELSE Bounds)
        /\ u \in (IF Triples \/ a # EmptyI \/ b # EmptyI \/ v # 0 THEN {<<0, 1>>} ELSE Bounds)
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

P(x) == Points(x)
Contiguous(S) == \A p, q \in S : \A r \in AllPoints : p < r /\ r < q => r \in S

PointsFaithful == /\ P(a) \subseteq AllPoints
                  /\ (P(a) = P(b)) = (a = b)
                  /\ (P(a) = {}) = IsEmpty(a)
                  /\ ~IsEmpty(a) => FromPoints(First(a), Last(a)) = a
SetMeaning ==
  /\ HasVal(a, v) = (2 * v \in P(a))
  /\ HasInterval(a, b) = (P(b) \subseteq P(a))
  /\ Intersects(a, b) = (P(a) \cap P(b) # {})
  /\ P(Intersection(a, b)) = P(a) \cap P(b)
  /\ Mergeable(a, b) = Contiguous(P(a) \cup P(b))
  /\ Mergeable(a, b) => P(Span(a, b)) = P(a) \cup P(b)
  /\ P(a) \cup P(b) \subseteq P(Span(a, b))
  /\ \A i \in Intervals : P(a) \cup P(b) \subseteq P(i) => P(Span(a, b)) \subseteq P(i)
  /\ Lt(a, b) = (P(a) # {} /\ P(b) # {} /\ \A p \in P(a), q \in P(b) : p < q)
  /\ Le(a, b) = (P(a) # {} /\ P(b) # {} /\ \E w \in Vals \cup {-1} : (P(a) \cap P(b)) \subseteq {2 * w}
                   /\ \A p \in P(a), q \in P(b) : p < q \/ (p = 2 * w /\ q = 2 * w))
  /\ WellFormed(Intersection(a, b)) /\ WellFormed(Span(a, b))
\* the rules of the implementation: lower and upper bounds as ordered points
Rules ==
  LET nonempty == ~IsEmpty(a) /\ ~IsEmpty(b)
      la == <<a[1], a[2]>> ua == <<a[3], a[4]>> lb == <<b[1], b[2]>> ub == <<b[3], b[4]>>
      MaxLo(x, y) == IF LoPoint(x) >= LoPoint(y) THEN x ELSE y
      MinUp(x, y) == IF UpPoint(x) <= UpPoint(y) THEN x ELSE y
      MinLo(x, y) == IF LoPoint(x) <= LoPoint(y) THEN x ELSE y
      MaxUp(x, y) == IF UpPoint(x) >= UpPoint(y) THEN x ELSE y
  IN nonempty =>
     /\ Lt(a, b) = MixLt(ua, lb) /\ Gt(a, b) = MixLt(ub, la)
     /\ Le(a, b) = (ua[1] <= lb[1])
     /\ Intersects(a, b) = ~(MixLt(ua, lb) \/ MixLt(ub, la))
     /\ Intersects(a, b) => Intersection(a, b) = MaxLo(la, lb) \o MinUp(ua, ub)
     /\ Mergeable(a, b) = ~(Separated(lb, ua) \/ Separated(la, ub))
     /\ Span(a, b) = MinLo(la, lb) \o MaxUp(ua, ub)
     /\ HasInterval(a, b) = (LoPoint(la) <= LoPoint(lb) /\ UpPoint(ua) >= UpPoint(ub))
BoundMeaning == /\ Separated(l, u) = (l[1] > u[1] \/ (l[1] = u[1] /\ l[2] = 0 /\ u[2] = 0))
                /\ (LoPoint(l) <= 2 * v) = (l[1] < v \/ (l[1] = v /\ l[2] = 1))
                /\ (UpPoint(u) < 2 * v) = (u[1] < v \/ (u[1] = v /\ u[2] = 0))
Laws ==
  /\ Intersection(a, b) = Intersection(b, a) /\ Span(a, b) = Span(b, a)
  /\ Span(a, EmptyI) = a /\ Intersection(a, EmptyI) = EmptyI /\ HasInterval(a, a)
  /\ ~(Lt(a, b) /\ Gt(a, b)) /\ (HasInterval(a, b) /\ HasInterval(b, a) => a = b)
  /\ Span(Span(a, b), c) = Span(a, Span(b, c))
  /\ Intersection(Intersection(a, b), c) = Intersection(a, Intersection(b, c))
  /\ (HasInterval(a, b) /\ HasInterval(b, c) => HasInterval(a, c))
  /\ (Lt(a, b) /\ Lt(b, c) => Lt(a, c))

Nth(k) == <<(k - 1) \div 2, (k - 1) % 2>>
ClampMeaning == \A x \in Bounds : LoPoint(l) <= LoPoint(u) =>
                  LET m == Clamp(LoPoint(x), LoPoint(l), LoPoint(u)) IN
                  /\ LoPoint(l) <= m /\ m <= LoPoint(u) /\ m \in {LoPoint(y) : y \in {x, l, u}}
                  /\ (LoPoint(l) <= LoPoint(x) /\ LoPoint(x) <= LoPoint(u)) => m = LoPoint(x)
Show(x) == PrintT(ToJson(x))
PairRow == [k |-> "I", a |-> a, b |-> b, hi |-> B(HasInterval(a, b)), is |-> B(Intersects(a, b)), in |-> Intersection(a, b),
            cm |-> B(Mergeable(a, b)), sp |-> Span(a, b), rel |-> Rel(a, b)]
ValRow == [k |-> "V", a |-> a, v |-> v, has |-> B(HasVal(a, v)), rel |-> Rel(a, Single(v))]
BoundRow == [k |-> "B", l |-> l, u |-> u, ll |-> PointRel(LoPoint(l), LoPoint(u)), uu |-> PointRel(UpPoint(l), UpPoint(u)),
             lu |-> MixRel(l, u), ul |-> MixRel(u, l), sep |-> B(Separated(l, u)),
             lv |-> PointRel(LoPoint(l), 2 * u[1]), uv |-> PointRel(UpPoint(l), 2 * u[1]),
             \* every bound clamped to the limits l and u, if they are in order
             lcl |-> IF LoPoint(l) > LoPoint(u) THEN <<>>
                     ELSE [k \in 1..2 * N |-> Clamp(LoPoint(Nth(k)), LoPoint(l), LoPoint(u))],
             ucl |-> IF UpPoint(l) > UpPoint(u) THEN <<>>
                     ELSE [k \in 1..2 * N |-> Clamp(UpPoint(Nth(k)), UpPoint(l), UpPoint(u))]]
NewRow == [k |-> "N", q |-> <<l[1], l[2], u[1], u[2]>>, ok |-> B(NewOk(l[1], l[2], u[1], u[2]))]
EmitI == Emit =>
  /\ (v = 0 /\ l = <<0, 1>> /\ u = <<0, 1>>) => Show(PairRow)
  /\ (b = EmptyI /\ l = <<0, 1>> /\ u = <<0, 1>>) => Show(ValRow)
  /\ (a = EmptyI /\ b = EmptyI /\ v = 0) => (Show(BoundRow) /\ Show(NewRow))
=============================================================================
