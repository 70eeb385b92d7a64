-------------------------------- MODULE Cost --------------------------------
(* What the operations documented to take constant time, time in proportion  *)
(* to what they handle, or memory in proportion to what is stored, may use   *)
(* up.  A measurement m describes a series of m.ops calls of operation m.n   *)
(* on a structure holding m.size elements: m.allocs, how often memory was    *)
(* requested; m.live, how many bytes more are held afterwards than before;   *)
(* m.asked, how many bytes were requested altogether; m.ns, processor time   *)
(* per call in nanoseconds.  The series to be measured are enumerated here,  *)
(* too.                                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

\* rotation of the ring: 0 not at all, 1 halfway, 2 the elements wrap after the first one
Ends == {"push_back", "push_front", "pop_back", "pop_front"}
Access == {"read", "write"}
\* once around the ring forwards, backwards, backwards taking first; filling and emptying at one end: the dearest step counts
Laps == {"lap_on", "lap_back", "lap_stay", "lap_fill_back", "lap_fill_front"}
Fills == {"few", "half", "full"}
BufferSeries == {[t |-> "cb", n |-> n, fill |-> f, rot |-> r, at |-> 0] : n \in Ends, f \in Fills, r \in 0..2}
           \cup {[t |-> "cb", n |-> n, fill |-> f, rot |-> r, at |-> at] : n \in Access, f \in Fills, r \in 0..2, at \in 0..2}
           \cup {[t |-> "cb", n |-> n, fill |-> f, rot |-> 0, at |-> 0] : n \in Laps \ {"lap_fill_back", "lap_fill_front"}, f \in Fills}
           \cup {[t |-> "cb", n |-> n, fill |-> "few", rot |-> r, at |-> 0] : n \in {"lap_fill_back", "lap_fill_front"}, r \in 0..2}
CounterSeries == {[t |-> "ctr", n |-> n, fill |-> h, rot |-> r, at |-> at] : n \in {"push", "push_new"}, h \in {"std", "fnv"}, r \in 0..1, at \in 0..1}
            \cup {[t |-> "ctr", n |-> "push", fill |-> h, rot |-> 2, at |-> at] : h \in {"std", "fnv"}, at \in 0..1}
SetSeries == {[t |-> "dsu", n |-> n, fill |-> h, rot |-> r, at |-> at] :
                n \in {"make_set", "union", "in_union", "contains", "iter", "make_new"}, h \in {"std", "fnv"}, r \in 0..2, at \in 0..1}
        \cup {[t |-> "dsu", n |-> n, fill |-> h, rot |-> r, at |-> 2] : n \in {"make_set", "union", "contains"}, h \in {"std", "fnv"}, r \in 0..1}
\* counters: rot 1 = room for four times as many elements was asked for, 2 = no room is left, at = which elements are counted;
\* disjoint sets: rot = nothing joined, all joined, groups of eight; at 1 = room for four times as many, 2 = no room is left

(* Operations on whole collections.  Buffers: fill and rot as above, m.ops the
   capacity.  Counters and disjoint sets: rot 1 = the sequence has sixteen
   different elements only (m.held says how many different ones there are),
   at 1 = the same by reference, or through reserve instead of a constructor. *)
WholeBuffer == {"iterate", "iter_back", "write_all", "extend", "extend_over", "append", "drain", "into_iter", "from_vec", "from_iter",
                "clone", "grow", "shrink", "linearize", "reverse", "clear", "drop", "eq", "cmp"}
WholeCounter == {"from_iter", "extend", "add", "sub", "most_common", "clone", "from_map", "iterate"}
WholeSet == {"from_iter", "extend", "clone", "clear", "drop", "groups"}
Rooms == {"room", "none"}
BufferBulk == {[t |-> "cb", n |-> n, fill |-> f, rot |-> r, at |-> 0] : n \in WholeBuffer, f \in {"half", "full"}, r \in 0..2}
CounterBulk == {[t |-> "ctr", n |-> n, fill |-> h, rot |-> r, at |-> at] : n \in WholeCounter, h \in {"std", "fnv"}, r \in 0..1, at \in 0..1}
          \cup {[t |-> "ctr", n |-> n, fill |-> h, rot |-> 0, at |-> at] : n \in Rooms, h \in {"std", "fnv"}, at \in 0..1}
SetBulk == {[t |-> "dsu", n |-> n, fill |-> h, rot |-> r, at |-> at] : n \in WholeSet, h \in {"std", "fnv"}, r \in 0..1, at \in 0..1}
      \cup {[t |-> "dsu", n |-> "groups", fill |-> h, rot |-> 2, at |-> at] : h \in {"std", "fnv"}, at \in 0..1}   \* groups of eight
      \cup {[t |-> "dsu", n |-> n, fill |-> h, rot |-> 0, at |-> at] : n \in Rooms, h \in {"std", "fnv"}, at \in 0..1}
Bulk == WholeBuffer \cup WholeCounter \cup WholeSet
\* those that make a further collection
Making == {"from_vec", "from_iter", "clone", "grow", "from_map", "most_common", "add", "extend"}

\* operations after which exactly as much memory is held as before; those of buffers and counters do not even request any
Still == Ends \cup Access \cup Laps \cup {"push", "make_set", "union", "in_union", "contains"}
\* operations whose time does not depend on how much is stored
Flat == Still \cup {"push_new", "make_new"}
\* bytes per element that a growing structure may hold
PerElement(t) == CASE t = "ctr" -> 96 [] t = "dsu" -> 192 [] OTHER -> 0
Allowance == 8192
\* growing by a constant factor asks for a multiple of what is held in the end
Asked == 4

Max(a, b) == IF a > b THEN a ELSE b
MemoryOk(m) == CASE m.n \in Rooms -> m.allocs = 0
                 [] m.t = "cb" /\ m.n \in Bulk ->
                      IF m.n \in {"from_vec", "from_iter", "clone", "grow"} THEN m.live <= 8 * m.size + Allowance ELSE m.live <= 0
                 [] m.n \in Bulk -> IF m.n \in Making
                                    THEN /\ m.live <= PerElement(m.t) * m.held + Allowance
                                         /\ m.asked <= Asked * PerElement(m.t) * Max(m.held, m.size) + Allowance
                                    ELSE m.live <= 0
                 [] m.n \in Still -> m.live = 0 /\ (m.allocs = 0 \/ m.t = "dsu")
                 [] m.n = "iter"  -> m.live = 0
                 [] OTHER         -> /\ m.live <= PerElement(m.t) * m.size + Allowance
                                     /\ m.asked <= Asked * PerElement(m.t) * m.size + Allowance
\* a and b: the same series on a small and on a large structure
TimeOk(a, b) == CASE a.n \in Flat -> b.ns <= 40 * a.ns + 4000
                  [] a.n \in Bulk -> b.ns <= 10 * a.ns + 500    \* per element
                  [] OTHER        -> TRUE

(* The laws separate the cost classes: whatever the time c of one step up to
   50 ns and whatever the small size, a cost that grows with the size breaks
   TimeOk at the sizes measured, and one that does not keeps it even if every
   step of the large structure misses all caches (20 times slower). *)
Small == 64
Large == 1048576
M(n, ns) == [n |-> n, ns |-> ns]
ASSUME \A c \in 1..50, n \in {"push", "read"} :
  /\ TimeOk(M(n, c), M(n, 20 * c))
  /\ ~TimeOk(M(n, c * Small), M(n, (c * Large) \div 8))   \* even if the machine handles eight elements in the time of one
LargeBulk == 131072
ASSUME \A c \in 1..50 :
  /\ \A log \in 1..4 : TimeOk(M("clone", c), M("clone", log * 4 * c))   \* a logarithm more, and cache misses
  /\ ~TimeOk(M("clone", c * Small), M("clone", (c * LargeBulk) \div 32))

VARIABLE s
Init == s \in BufferSeries \cup CounterSeries \cup SetSeries \cup BufferBulk \cup CounterBulk \cup SetBulk
Next == FALSE /\ UNCHANGED s
Spec == Init /\ [][Next]_s
EmitS == PrintT(ToJson([k |-> IF s.n \in Flat \cup {"iter"} THEN "S" ELSE "B", t |-> s.t, n |-> s.n, fill |-> s.fill, rot |-> s.rot, at |-> s.at]))
Known == s.n \in Flat \cup Bulk \cup Rooms \cup {"iter"}
=============================================================================
