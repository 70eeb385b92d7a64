------------------------------ MODULE Counter ------------------------------
(***************************************************************************)
(* The abstract meaning of a counter: a finite function from elements to   *)
(* counts.  An element may be present with count zero (only the map        *)
(* interface can do that).  The arithmetic of counts is a parameter, so    *)
(* that the exhaustive models use small naturals and the traces use        *)
(* machine words (BigNat).                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS Zero, One, Plus(_, _), Minus(_, _), Leq(_, _)

Empty == [k \in {} |-> Zero]
Get(c, k) == IF k \in DOMAIN c THEN c[k] ELSE Zero
Set(c, k, v) == [j \in DOMAIN c \cup {k} |-> IF j = k THEN v ELSE c[j]]
Del(c, k) == [j \in DOMAIN c \ {k} |-> c[j]]
Push(c, k) == Set(c, k, Plus(Get(c, k), One))
Count(c, xs) == FoldLeft(Push, c, xs)
Add(a, b) == [k \in DOMAIN a \cup DOMAIN b |-> Plus(Get(a, k), Get(b, k))]
\* what is left of a[k]: nothing unless it exceeds b[k]; elements b lacks are untouched
Sub(a, b) == [k \in {j \in DOMAIN a : j \notin DOMAIN b \/ ~Leq(a[j], b[j])} |->
                IF k \in DOMAIN b THEN Minus(a[k], b[k]) ELSE a[k]]
AddToAll(c, v) == [k \in DOMAIN c |-> Plus(c[k], v)]
KeepAbove(c, v) == [k \in {j \in DOMAIN c : ~Leq(c[j], v)} |-> c[k]]

\* a list of <<element, count>> pairs
IsListing(c, l) == /\ Len(l) = Cardinality(DOMAIN c)
                   /\ {l[i][1] : i \in 1..Len(l)} = DOMAIN c
                   /\ \A i \in 1..Len(l) : l[i][1] \in DOMAIN c /\ l[i][2] = c[l[i][1]]
IsDescending(l) == \A i \in 1..(Len(l) - 1) : Leq(l[i + 1][2], l[i][2])

B(b) == IF b THEN 1 ELSE 0
(* One operation o = [n, k (elements), c (counts)] on counter s with operand t
   (used by the binary operations): the counter afterwards, what is returned
   (a sequence), whether it panics.  most_common returns a listing, any order
   among equal counts; see Listed. *)
Out(s, res) == [s |-> s, res |-> res, p |-> 0]
Opt(s, k) == IF k \in DOMAIN s THEN <<s[k]>> ELSE <<>>
ApplyC(s, t, o) ==
  CASE o.n = "push"      -> Out(Push(s, o.k[1]), <<>>)
    [] o.n = "extend"    -> Out(Count(s, o.k), <<>>)
    [] o.n = "from_iter" -> Out(Count(Empty, o.k), <<>>)
    [] o.n = "renew"     -> Out(Empty, <<>>)
    [] o.n = "clear"     -> Out(Empty, <<>>)
    [] o.n = "insert"    -> Out(Set(s, o.k[1], o.c[1]), Opt(s, o.k[1]))
    [] o.n = "remove"    -> Out(Del(s, o.k[1]), Opt(s, o.k[1]))
    [] o.n = "get"       -> Out(s, Opt(s, o.k[1]))
    [] o.n = "index"     -> IF o.k[1] \in DOMAIN s THEN Out(s, <<s[o.k[1]]>>) ELSE [s |-> s, res |-> <<>>, p |-> 1]
    [] o.n = "get_mut"   -> IF o.k[1] \in DOMAIN s THEN Out(Set(s, o.k[1], o.c[1]), <<s[o.k[1]]>>) ELSE Out(s, <<>>)
    [] o.n = "entry"     -> IF o.k[1] \in DOMAIN s THEN Out(s, <<s[o.k[1]]>>) ELSE Out(Set(s, o.k[1], o.c[1]), <<o.c[1]>>)
    [] o.n = "add_all"   -> Out(AddToAll(s, o.c[1]), <<>>)
    [] o.n = "retain"    -> Out(KeepAbove(s, o.c[1]), <<>>)
    [] o.n = "reserve"   -> Out(s, <<>>)
    [] o.n = "from_map"  -> Out([k \in {o.k[i] : i \in 1..Len(o.k)} |-> o.c[CHOOSE i \in 1..Len(o.k) : o.k[i] = k]], <<>>)
    [] o.n = "reclone"   -> Out(s, <<>>)
    [] o.n = "clone_away"-> Out(s, <<>>)
    [] o.n = "add"       -> Out(Add(s, t), <<>>)
    [] o.n = "sub"       -> Out(Sub(s, t), <<>>)
    [] o.n = "eq"        -> Out(s, <<B(s = t), B(s # t)>>)
    [] o.n = "most_common"  -> Out(s, <<>>)
    [] o.n = "drain_common" -> Out(Empty, <<>>)      \* consuming form; an empty counter takes its place
    [] o.n = "drain_iter"   -> Out(Empty, <<>>)      \* consuming iteration, any order
    [] o.n = "iter"         -> Out(s, <<>>)          \* borrowed iteration, any order
(* What a panic in user code (hashing, comparing, cloning or dropping an
   element, a source iterator) during operation o may leave of s: every
   element has the count it had or the one it was to get.  Counting a
   sequence may be interrupted anywhere in between.  lossy: hashing panicked;
   the hash map under the counter may forget elements then, but only while it
   makes room, that is in operations that may add elements. *)
Growing == {"push", "extend", "insert", "entry", "reserve", "add"}
Replacing == {"renew", "from_iter", "from_map", "drain_common", "drain_iter"}
MayLeave(s, t, o, c, lossy) ==
  LET f == ApplyC(s, t, o).s
      kept == (lossy /\ o.n \in Growing) \/ (DOMAIN s \cap DOMAIN f) \subseteq DOMAIN c
  IN CASE o.n \in Replacing -> c \in {s, f}
       [] o.n = "extend" -> /\ kept /\ DOMAIN c \subseteq DOMAIN f
                            /\ \A k \in DOMAIN c : Leq(Get(s, k), c[k]) /\ Leq(c[k], f[k]) /\ (k \in DOMAIN s \/ c[k] # Zero)
       [] OTHER -> kept /\ \A k \in DOMAIN c : (k \in DOMAIN s /\ c[k] = s[k]) \/ (k \in DOMAIN f /\ c[k] = f[k])
Listing == {"most_common", "drain_common", "drain_iter", "iter"}
ResOk(s, t, o, res) ==
  IF o.n \in Listing
  THEN IsListing(s, res) /\ (o.n \in {"most_common", "drain_common"} => IsDescending(res))
  ELSE res = ApplyC(s, t, o).res
=============================================================================
