------------------------------- MODULE Deque -------------------------------
(***************************************************************************)
(* The abstract meaning of a circular buffer: a bounded double-ended queue *)
(* q = [cap |-> capacity, s |-> sequence of elements, front first].        *)
(*                                                                         *)
(* An operation is a record o = [n |-> name, a |-> integer arguments,      *)
(* x |-> elements handed in].  Apply(q, o) is the unique outcome:          *)
(*   q     the buffer afterwards                                           *)
(*   res   what the call yields (a sequence of elements or flags)          *)
(*   p     1 if the call panics (and then leaves q unchanged)              *)
(*   drop  the elements destroyed by the call, in no particular order      *)
(* Elements are integers; the operations never look at them except to      *)
(* compare, so distinct integers stand for arbitrary distinct values.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Min2(a, b) == IF a < b THEN a ELSE b
First(s, n) == SubSeq(s, 1, Min2(n, Len(s)))
Rest(s, n)  == SubSeq(s, Min2(n, Len(s)) + 1, Len(s))      \* all but the first n
Last(s, n)  == Rest(s, IF Len(s) > n THEN Len(s) - n ELSE 0)
AllBut(s, n) == First(s, IF Len(s) > n THEN Len(s) - n ELSE 0)  \* all but the last n
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Swap2(s, i, j) == [k \in 1..Len(s) |-> IF k = i THEN s[j] ELSE IF k = j THEN s[i] ELSE s[k]]
Range(s) == {s[i] : i \in 1..Len(s)}
IsDistinct(s) == Cardinality(Range(s)) = Len(s)

Out(cap, s, res, drop) == [q |-> [cap |-> cap, s |-> s], res |-> res, p |-> 0, drop |-> drop]
Panic(q, drop) == [q |-> q, res |-> <<>>, p |-> 1, drop |-> drop]

\* After putting xs at the back, only the newest (back-most) cap elements stay.
AtBack(cap, s, xs, res) == LET t == s \o xs IN Out(cap, Last(t, cap), res, AllBut(t, cap))
\* After putting x at the front, only the front-most cap elements stay.
AtFront(cap, s, x) == LET t == <<x>> \o s IN Out(cap, First(t, cap), <<>>, Rest(t, cap))

(* Lexicographic comparison; NaN (= -1) is equal to nothing and ordered with nothing. *)
NaN == -1
\* -1 less, 0 equal, 1 greater, 2 no ordering: decided at the first place that is not equal
LexCmp(s, t) ==
  LET n == Min2(Len(s), Len(t))
      D == {k \in 1..n : s[k] # t[k] \/ s[k] = NaN}
  IN IF D = {} THEN (IF Len(s) < Len(t) THEN -1 ELSE IF Len(s) > Len(t) THEN 1 ELSE 0)
     ELSE LET k == CHOOSE k \in D : \A j \in D : k <= j
              a == s[k] b == t[k]
          IN IF a = NaN \/ b = NaN THEN 2 ELSE IF a < b THEN -1 ELSE 1
SeqEq(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : s[i] = t[i] /\ s[i] # NaN
B(b) == IF b THEN 1 ELSE 0
\* <<eq, ne, lt, le, gt, ge, partial_cmp>>
Compare(s, t) == LET c == LexCmp(s, t) IN
  << B(SeqEq(s, t)), B(~SeqEq(s, t)), B(c = -1), B(c \in {-1, 0}), B(c = 1), B(c \in {0, 1}), c >>

Apply(q, o) ==
  LET cap == q.cap
      s == q.s
      len == Len(q.s)
  IN CASE o.n = "push_back"  -> AtBack(cap, s, <<o.x[1]>>, <<>>)
       [] o.n = "push_front" -> AtFront(cap, s, o.x[1])
       [] o.n = "pop_back"   -> IF len = 0 THEN Out(cap, s, <<>>, <<>>)
                                ELSE Out(cap, AllBut(s, 1), <<s[len]>>, <<>>)
       [] o.n = "pop_front"  -> IF len = 0 THEN Out(cap, s, <<>>, <<>>)
                                ELSE Out(cap, Rest(s, 1), <<s[1]>>, <<>>)
       [] o.n = "clear"      -> Out(cap, <<>>, <<>>, s)
       [] o.n = "resize"     -> LET c == o.a[1] IN Out(c, Last(s, c), <<>>, AllBut(s, c))
       [] o.n = "swap"       -> IF o.a[1] < len /\ o.a[2] < len
                                THEN Out(cap, Swap2(s, o.a[1] + 1, o.a[2] + 1), <<>>, <<>>)
                                ELSE Panic(q, <<>>)
       [] o.n = "reverse"    -> Out(cap, Rev(s), <<>>, <<>>)
       [] o.n = "linearize"  -> Out(cap, s, s, <<>>)
       \* overwrite the element a mutable view shows at index a[1]; a[2] names the view
       [] o.n = "write"      -> IF o.a[1] < len
                                THEN Out(cap, [s EXCEPT ![o.a[1] + 1] = o.x[1]], <<>>, <<s[o.a[1] + 1]>>)
                                ELSE Panic(q, o.x)
       [] o.n = "extend"     -> AtBack(cap, s, o.x, <<>>)
       \* append from another buffer holding o.x; the other one ends empty (checked by the binding)
       [] o.n = "append"     -> AtBack(cap, s, o.x, <<>>)
       \* take at most a[1] items from a draining iterator, then drop it: the rest stays
       [] o.n = "drain"      -> Out(cap, Rest(s, o.a[1]), First(s, o.a[1]), <<>>)
       \* skip a[1] items of a draining iterator (they are destroyed), then take a[2]
       [] o.n = "drain_skip" -> Out(cap, Rest(s, o.a[1] + o.a[2]), First(Rest(s, o.a[1]), o.a[2]), First(s, o.a[1]))
       \* consume the buffer, taking a[1] items; the rest is destroyed; a new one of capacity a[2] takes its place
       [] o.n = "into_iter"  -> Out(o.a[2], <<>>, First(s, o.a[1]), Rest(s, o.a[1]))
       \* destroy the buffer; a new one takes its place
       [] o.n = "renew"      -> Out(o.a[1], <<>>, <<>>, s)
       [] o.n = "from_vec"   -> Out(Len(o.x), o.x, <<>>, s)
       [] o.n = "from_iter"  -> Out(Len(o.x), o.x, <<>>, s)
       \* replace the buffer by a clone of it
       [] o.n = "reclone"    -> Out(cap, s, <<>>, <<>>)
       \* make a clone, change the clone, destroy it
       [] o.n = "clone_away" -> Out(cap, s, s, <<>>)

Names == {"push_back", "push_front", "pop_back", "pop_front", "clear", "resize", "swap", "reverse",
          "linearize", "write", "extend", "append", "drain", "drain_skip", "into_iter", "renew",
          "from_vec", "from_iter", "reclone", "clone_away"}

WellFormed(q) == q.cap >= 0 /\ Len(q.s) <= q.cap
=============================================================================
