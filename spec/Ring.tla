-------------------------------- MODULE Ring --------------------------------
(***************************************************************************)
(* The circular buffer as it is implemented: cap+1 slots used as a ring,   *)
(* the live elements are the slots from start up to (not including) end.   *)
(* A free slot holds Hole: it must never be read, cloned or destroyed.     *)
(* Each operation is written the way the code performs it; the model       *)
(* checker shows that it refines Deque (RingRefinesDeque), which is what   *)
(* the implementation is then compared with.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
LOCAL INSTANCE Deque

CONSTANTS CapMax,      \* initial and resized capacities are 0..CapMax
          ExtMax,      \* how many elements bulk operations bring at most
          Emit         \* print every transition as JSON

VARIABLES r,           \* [b |-> slots (a function on 0..n-1), st |-> start, en |-> end]
          last         \* the operation that led here and its outcome (hidden by the VIEW)

Hole == 0
vars == <<r, last>>

NSlots(x) == Cardinality(DOMAIN x.b)
RCap(x) == NSlots(x) - 1
RLen(x) == IF x.st <= x.en THEN x.en - x.st ELSE NSlots(x) + x.en - x.st
RFull(x) == RLen(x) = RCap(x)
REmpty(x) == x.st = x.en
\* physical slot of a logical index
Phys(x, i) == IF x.st + i < NSlots(x) THEN x.st + i ELSE i + x.st - NSlots(x)
Content(x) == [i \in 1..RLen(x) |-> x.b[Phys(x, i - 1)]]
Abs(x) == [cap |-> RCap(x), s |-> Content(x)]

NewRing(c) == [b |-> [i \in 0..c |-> Hole], st |-> 0, en |-> 0]
RingOf(s, c) == [b |-> [i \in 0..c |-> IF i < Len(s) THEN s[i + 1] ELSE Hole], st |-> 0, en |-> Len(s)]

IncEnd(x)   == [x EXCEPT !.en = IF x.en + 1 = NSlots(x) THEN 0 ELSE x.en + 1]
DecEnd(x)   == [x EXCEPT !.en = IF x.en = 0 THEN NSlots(x) - 1 ELSE x.en - 1]
IncStart(x) == [x EXCEPT !.st = IF x.st + 1 = NSlots(x) THEN 0 ELSE x.st + 1]
DecStart(x) == [x EXCEPT !.st = IF x.st = 0 THEN NSlots(x) - 1 ELSE x.st - 1]

ROut(x, res, drop) == [r |-> x, res |-> res, p |-> 0, drop |-> drop]
RPanic(x, drop) == [r |-> x, res |-> <<>>, p |-> 1, drop |-> drop]

PopFrontR(x) ==
  IF REmpty(x) THEN ROut(x, <<>>, <<>>)
  ELSE LET v == x.b[x.st] IN ROut(IncStart([x EXCEPT !.b[x.st] = Hole]), <<v>>, <<>>)
PopBackR(x) ==
  IF REmpty(x) THEN ROut(x, <<>>, <<>>)
  ELSE LET y == DecEnd(x) v == y.b[y.en] IN ROut([y EXCEPT !.b[y.en] = Hole], <<v>>, <<>>)
PushBackR(x, e) ==
  IF RFull(x) /\ RCap(x) = 0 THEN ROut(x, <<>>, <<e>>)
  ELSE LET y == IF RFull(x) THEN PopFrontR(x) ELSE ROut(x, <<>>, <<>>)
           z == IncEnd([y.r EXCEPT !.b[y.r.en] = e])
       IN ROut(z, <<>>, y.res)
PushFrontR(x, e) ==
  IF RFull(x) /\ RCap(x) = 0 THEN ROut(x, <<>>, <<e>>)
  ELSE LET y == IF RFull(x) THEN PopBackR(x) ELSE ROut(x, <<>>, <<>>)
           w == DecStart(y.r)
       IN ROut([w EXCEPT !.b[w.st] = e], <<>>, y.res)
RECURSIVE ExtendR(_, _, _)
ExtendR(x, xs, drop) ==
  IF xs = <<>> THEN ROut(x, <<>>, drop)
  ELSE LET y == PushBackR(x, Head(xs)) IN ExtendR(y.r, Tail(xs), drop \o y.drop)
RECURSIVE DrainR(_, _, _)
DrainR(x, k, acc) ==
  IF k = 0 \/ REmpty(x) THEN ROut(x, acc, <<>>)
  ELSE LET y == PopFrontR(x) IN DrainR(y.r, k - 1, acc \o y.res)
RECURSIVE ClearR(_, _)
ClearR(x, drop) ==
  IF REmpty(x) THEN ROut(x, <<>>, drop)
  ELSE LET y == PopBackR(x) IN ClearR(y.r, drop \o y.res)
ResizeR(x, c) ==
  LET skip == IF RLen(x) > c THEN RLen(x) - c ELSE 0
      d == DrainR(x, RLen(x), <<>>)
  IN ROut(RingOf(Rest(d.res, skip), c), <<>>, First(d.res, skip))
SwapR(x, i, j) ==
  IF i >= RLen(x) \/ j >= RLen(x) THEN RPanic(x, <<>>)
  ELSE LET a == Phys(x, i) b == Phys(x, j)
       IN ROut([x EXCEPT !.b[a] = x.b[b], !.b[b] = x.b[a]], <<>>, <<>>)
RECURSIVE ReverseR(_, _)
ReverseR(x, i) ==
  IF i >= RLen(x) \div 2 THEN ROut(x, <<>>, <<>>)
  ELSE ReverseR(SwapR(x, i, RLen(x) - i - 1).r, i + 1)
\* rotate all slots left by start
LinearizeR(x) ==
  LET n == NSlots(x)
      y == [b |-> [i \in 0..(n - 1) |-> x.b[(i + x.st) % n]], st |-> 0, en |-> RLen(x)]
  IN ROut(y, [i \in 1..y.en |-> y.b[i - 1]], <<>>)
WriteR(x, i, via, e) ==
  IF i >= RLen(x) THEN RPanic(x, <<e>>)
  ELSE LET y == IF via = 5 THEN LinearizeR(x).r ELSE x
           k == Phys(y, i)
       IN ROut([y EXCEPT !.b[k] = e], <<>>, <<y.b[k]>>)

ApplyR(x, o) ==
  CASE o.n = "push_back"  -> PushBackR(x, o.x[1])
    [] o.n = "push_front" -> PushFrontR(x, o.x[1])
    [] o.n = "pop_back"   -> PopBackR(x)
    [] o.n = "pop_front"  -> PopFrontR(x)
    [] o.n = "clear"      -> ClearR(x, <<>>)
    [] o.n = "resize"     -> ResizeR(x, o.a[1])
    [] o.n = "swap"       -> SwapR(x, o.a[1], o.a[2])
    [] o.n = "reverse"    -> ReverseR(x, 0)
    [] o.n = "linearize"  -> LinearizeR(x)
    [] o.n = "write"      -> WriteR(x, o.a[1], o.a[2], o.x[1])
    [] o.n = "extend"     -> ExtendR(x, o.x, <<>>)
    [] o.n = "append"     -> ExtendR(x, o.x, <<>>)
    [] o.n = "drain"      -> DrainR(x, o.a[1], <<>>)
    [] o.n = "drain_skip" -> LET d == DrainR(x, o.a[1], <<>>)
                                 e == DrainR(d.r, o.a[2], <<>>)
                             IN ROut(e.r, e.res, d.res)
    [] o.n = "into_iter"  -> LET d == DrainR(x, o.a[1], <<>>)
                             IN ROut(NewRing(o.a[2]), d.res, ClearR(d.r, <<>>).drop)
    [] o.n = "renew"      -> ROut(NewRing(o.a[1]), <<>>, ClearR(x, <<>>).drop)
    [] o.n = "from_vec"   -> ROut(RingOf(o.x, Len(o.x)), <<>>, ClearR(x, <<>>).drop)
    [] o.n = "from_iter"  -> ROut(RingOf(o.x, Len(o.x)), <<>>, ClearR(x, <<>>).drop)
    [] o.n = "reclone"    -> ROut(ExtendR(NewRing(RCap(x)), Content(x), <<>>).r, <<>>, <<>>)
    [] o.n = "clone_away" -> ROut(x, Content(x), <<>>)

-----------------------------------------------------------------------------
(* The operations explored from a state; k fresh elements are the k smallest unused numbers. *)
RECURSIVE FreshFrom(_, _, _)
FreshFrom(used, k, n) ==
  IF k = 0 THEN <<>> ELSE IF n \in used THEN FreshFrom(used, k, n + 1) ELSE <<n>> \o FreshFrom(used, k - 1, n + 1)
Fresh(x, k) == FreshFrom(Range(Content(x)), k, 1)

O(n, a, x) == [n |-> n, a |-> a, x |-> x]
Ops(x) ==
  LET len == RLen(x) cap == RCap(x) f(k) == Fresh(x, k) IN
  {O("push_back", <<>>, f(1)), O("push_front", <<>>, f(1)), O("pop_back", <<>>, <<>>), O("pop_front", <<>>, <<>>),
   O("clear", <<>>, <<>>), O("reverse", <<>>, <<>>), O("linearize", <<>>, <<>>), O("reclone", <<>>, <<>>),
   O("clone_away", <<>>, <<>>)}
  \cup {O("resize", <<c>>, <<>>) : c \in 0..CapMax}
  \cup {O("renew", <<c>>, <<>>) : c \in {0, cap}}
  \cup {O("swap", <<i, j>>, <<>>) : i, j \in 0..len}
  \cup {O("write", <<i, v>>, f(1)) : i \in 0..(len - 1), v \in 0..7}
  \cup {O("write", <<len, 0>>, f(1))}
  \cup {O("extend", <<>>, f(k)) : k \in 0..(cap + ExtMax)}
  \cup {O("append", <<off, extra>>, f(k)) : k \in 0..(cap + ExtMax), off \in 0..2, extra \in 0..1}
  \cup {O("drain", <<k>>, <<>>) : k \in 0..(len + 1)}
  \cup {O("drain_skip", <<j, k>>, <<>>) : j \in 1..(len + 1), k \in 0..2}
  \cup {O("into_iter", <<k, cap>>, <<>>) : k \in 0..(len + 1)}
  \cup {O("from_vec", <<>>, f(k)) : k \in 0..CapMax}
  \cup {O("from_iter", <<>>, f(k)) : k \in 0..CapMax}

Init == /\ \E c \in 0..CapMax : r = NewRing(c)
        /\ last = [o |-> O("new", <<>>, <<>>), res |-> <<>>, p |-> 0, drop |-> <<>>]
Next == \E o \in Ops(r) :
          LET y == ApplyR(r, o) IN
          /\ r' = y.r
          /\ last' = [o |-> o, res |-> y.res, p |-> y.p, drop |-> y.drop]
Spec == Init /\ [][Next]_vars

LayoutView == <<NSlots(r), r.st, r.en>>
FullView == r

-----------------------------------------------------------------------------
(* What is checked of the design. *)
LiveSlots(x) == {Phys(x, i) : i \in 0..(RLen(x) - 1)}
IndexInv == /\ NSlots(r) >= 1 /\ r.st \in DOMAIN r.b /\ r.en \in DOMAIN r.b
            /\ RLen(r) <= RCap(r)
            /\ Cardinality(LiveSlots(r)) = RLen(r)
\* an element sits in a slot exactly if the slot is live: nothing stale, nothing lost
SlotInv == \A i \in DOMAIN r.b : (i \in LiveSlots(r)) <=> (r.b[i] # Hole)
\* every element is stored at most once
UniqueInv == IsDistinct(Content(r))
AbsInv == WellFormed(Abs(r))

SameBag(s, t) == Len(s) = Len(t) /\ \A e \in Range(s) \cup Range(t) :
  Cardinality({i \in 1..Len(s) : s[i] = e}) = Cardinality({i \in 1..Len(t) : t[i] = e})

RingRefinesDeque ==
  [][ LET d == Apply(Abs(r), last'.o) IN
      /\ Abs(r') = d.q
      /\ last'.res = d.res
      /\ last'.p = d.p
      /\ SameBag(last'.drop, d.drop) ]_vars
\* every element handed in or stored before is afterwards stored, returned or destroyed, exactly once
Conservation ==
  [][ last'.o.n \notin {"linearize", "reclone", "clone_away"} =>
        SameBag(Content(r) \o last'.o.x, Content(r') \o last'.res \o last'.drop) ]_vars
LinearizeIsContiguous == [][ last'.o.n = "linearize" => r'.st + RLen(r') <= NSlots(r') /\ r'.st = 0 ]_vars
\* operations at the ends and on single elements are local, however many slots there are
EndsTouchFew ==
  [][ /\ last'.o.n \in {"push_back", "push_front", "pop_back", "pop_front"} =>
           Cardinality({i \in DOMAIN r.b : r'.b[i] # r.b[i]}) <= 2
      /\ (last'.o.n = "write" /\ last'.o.a[2] # 5) =>
           Cardinality({i \in DOMAIN r.b : r'.b[i] # r.b[i]}) <= 1 ]_vars

EmitT ==
  IF Emit
  THEN PrintT(ToJson([k |-> "T", s |-> <<RCap(r), r.st, r.en>>, sc |-> Content(r),
                      d |-> <<RCap(r'), r'.st, r'.en>>, dc |-> Content(r'),
                      n |-> last'.o.n, a |-> last'.o.a, x |-> last'.o.x,
                      res |-> last'.res, p |-> last'.p, drop |-> last'.drop]))
  ELSE TRUE
=============================================================================
