#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run it after editing)."""
import json, os
CB="src/circular_buffer/circular.rs"; CI="src/circular_buffer/iter.rs"
CT="src/counter/counter.rs"; FC="src/counter/fast_counter.rs"
DS="src/disjoint_set/disjoint_set.rs"; FD="src/disjoint_set/fast_disjoint_set.rs"
IV="src/interval/interval.rs"; IC="src/interval/interval_cmp.rs"; IM="src/interval/interval_math.rs"; IB="src/interval/bounds.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
ring=[("buffer/start/end","ring of capacity+1 slots; live elements are the slots from start up to end, cyclically",CB)]

p("C01","Circular buffer is a bounded deque that evicts at the opposite end",
 "At every point of every history of pushes, pops and clears, the buffer holds exactly the elements a bounded double-ended queue would hold: a push adds at its end and, when the buffer is full, first evicts exactly one element at the opposite end; a pop removes and returns the element at its end, or returns nothing when empty; clear empties the buffer. The number of elements never exceeds the capacity, none of these operations changes the capacity, and a buffer of capacity zero stays empty.",
 ["histories","configurations"],"every capacity, every rotation and fill level of the ring, every finite history of operations",
 "The tests run a handful of fixed histories on capacities 3 to 7, mostly pushing and popping at one end; wrap-around positions reached by mixed-end histories are not sampled.",
 [CB],[("push_back/push_front evict through pop_front/pop_back when is_full",CB),("incr/decr of start and end wrap at the slot count",CB)],ring,["push/pop results","len, capacity, is_full, is_empty, iteration after every call"])
p("C02","Resizing keeps the newest elements in order, from any state",
 "Resizing a circular buffer to any capacity (smaller, equal, larger or zero), from any fill level and after any history, leaves exactly the last min(length, new capacity) elements in their original order. Afterwards the buffer reports the requested capacity and behaves exactly like a buffer of that capacity.",
 ["histories","configurations"],"every pair of old and new capacity, every rotation and fill level, every later history",
 "The tests resize one non-wrapped buffer twice; shrinking or growing a wrapped, full or empty buffer and using it afterwards is not covered.",
 [CB],[("resize drains into a fresh slot array, skipping the surplus at the front",CB)],ring,["capacity, len, iteration, later pushes and pops"])
p("C03","Every view of a circular buffer shows the same sequence",
 "In every reachable state, length, emptiness and fullness tests, first/last, indexing, shared and mutable iteration (forwards and backwards), the pair of slices and the linearised slice all describe one and the same sequence of elements, front to back. Writing through any mutable view changes exactly the element that view shows and nothing else. Accessing or swapping an index not below the length panics, leaving the buffer unchanged, and never exposes a stale or free slot.",
 ["histories","inputs"],"every reachable ring layout, every index, every view",
 "Views are tested on one or two wrapped states of capacity 3; nothing compares all views with each other across layouts, and out-of-range access is not tested.",
 [CB,CI],[("internal_index maps a logical index to a slot",CB),("slices/slices_mut split at the wrap",CB)],ring,["all accessors"])
p("C04","Swap, reverse and linearize rearrange exactly as stated",
 "In every reachable state, swapping two positions exchanges exactly those two elements, reversing yields exactly the reversed sequence, and linearising keeps the sequence while making it one contiguous slice (so that the slice pair then has everything in its first part). None of them loses, duplicates or adds an element, or changes capacity or length.",
 ["histories","inputs"],"every ring layout, every pair of indices",
 "Each of the three operations is tested on one or two layouts of a 3-element buffer.",
 [CB],[("swap and reverse go through internal_index",CB),("linearize rotates the whole slot array",CB)],ring,["iteration and slices before and after"])
p("C05","Bulk construction, extension, append, drain and clone preserve order",
 "Building a buffer from a vector or an iterator holds all items in order with capacity equal to their number; extending by any iterator equals pushing the items one by one at the back; appending moves everything out of the source in order and leaves it empty with its capacity intact; a draining or consuming iterator yields the elements front to back exactly once, and elements not taken from a dropped draining iterator stay in the buffer. A clone has the same content and capacity, and from then on the two buffers do not influence each other.",
 ["histories","inputs"],"every source length relative to the capacity (also several times larger), every layout of source and target, every number of items taken, any iterator size hint",
 "The tests use three or four elements and non-wrapped sources; cloning is never tested at all.",
 [CB,CI],[("Extend is repeated push_back",CB),("Drain/IntoIter pop from the front",CI),("Clone re-inserts the stored elements",CB)],ring,["results of iterators, content of both buffers"])
p("C06","Every element is dropped or handed out exactly once",
 "Over every history of operations that do not panic, each element given to circular buffers (and each clone they make) is at any time either stored in exactly one place or has been handed out or dropped, exactly once: evicted, overwritten, cleared, skipped and remaining elements are dropped exactly once at the time of the operation, nothing is dropped while still stored, and nothing is leaked when the buffers and iterators are gone. Only elements actually stored are ever cloned or dropped, never the content of a free slot.",
 ["histories","inputs"],"every history over several buffers, element types with destructors, partially consumed iterators",
 "One test counts drops over a single seven-step history; eviction at the front, resize, partial iterators, writes, clone and append are not checked for ownership.",
 [CB,CI],[("free slots are uninitialised and never dropped; pop_at moves a value out",CB),("Drop clears the buffer",CB)],ring,["constructor, clone and destructor calls of the element type"])
p("C07","A panic in user code never causes a double drop or a stale element",
 "If an element's destructor, clone or comparison, or a source iterator, panics inside any circular buffer operation, or a draining or consuming iterator is leaked, then no element is ever dropped twice, and whatever the buffer still shows are live elements in their original relative order, no more than its capacity. The buffer remains usable: later operations behave exactly as on a healthy buffer with that content.",
 ["fault_sequences","histories"],"every operation, every ring layout, every single callback at which the user code panics",
 "No test injects a panic.",
 [CB,CI],[("indices are moved before or after the element so that no slot is owned twice when user code runs",CB),("ManuallyDrop/MaybeUninit slots",CB)],ring,["destructor calls and content after catch_unwind"])
p("C08","Buffer comparisons are lexicographic and ignore the physical layout",
 "Two circular buffers are equal exactly if their front-to-back sequences are equal (also against a slice), and ordering between them is the lexicographic order of those sequences, with an incomparable first difference giving no ordering. Capacity and the rotation of either ring never influence the result, and all comparison operators agree with each other.",
 ["inputs","histories"],"every pair of sequences, every layout and capacity of either side, partially ordered element types",
 "One test compares four small buffers of equal capacity.",
 [CB],[("eq/partial_cmp/cmp compare iterators",CB)],ring,["==, !=, <, <=, >, >=, partial_cmp, cmp"])
p("C09","Circular buffers work for every element type",
 "Everything above holds whatever the element type: integers, characters, booleans, references, boxes, strings, zero-sized types, types without any trait, types with niches or large alignment. In particular creating a buffer with free slots and moving elements through them never aborts and never needs or invents a value of the element type.",
 ["configurations","histories"],"element types of any size, alignment, validity range and ownership",
 "All tests use i32 and one Rc-holding type; element types with invalid bit patterns are never used.",
 [CB],[("free slots hold no value of the element type",CB)],ring,["all operations instantiated at many types"])

p("C10","End operations and indexing are local and allocate nothing",
 "Pushing or popping at either end of a circular buffer and reading or writing one element by index take time that does not depend on the capacity, on how many elements are stored, on the position or on the rotation of the ring (evicting pushes included), and none of them requests or releases memory of its own.",
 ["configurations","histories"],"every size of the buffer, every rotation and fill level, every index",
 "The documentation promises O(1), but no test measures anything, and functional tests on small buffers pass whatever an operation costs.",
 [CB],[("push and pop move one end of the ring",CB),("internal_index computes a slot",CB)],ring,["allocator calls and processor time per call"])

p("C11","Whole-buffer operations take linear time and hold no extra memory",
 "Iterating, extending, appending, draining, consuming, building, cloning, resizing, linearising, reversing, comparing, clearing and dropping a circular buffer take time at most proportional to the elements and slots involved, whatever the rotation and the fill level. A buffer holds memory for its capacity only, whatever has been done with it, and none when it is gone.",
 ["configurations","histories"],"every size of the buffer, every rotation and fill level",
 "No test uses more than seven elements; a quadratic bulk operation or memory kept behind passes all of them.",
 [CB,CI],[("bulk operations step an end per element",CB),("resize moves elements into a fresh slot array once",CB)],ring,["processor time per element, bytes held"])

cnt=[("counter","map from element to its count",CT)]
p("K01","A counter counts every occurrence exactly",
 "After any history, the count of an element equals the number of times it was pushed, collected or used to extend (by value or by reference), on top of what was set through the map interface, exactly, up to the largest machine-word count; the number of distinct elements and iteration agree with it, and elements never counted are absent. The result does not depend on the hasher, on hash collisions, on the iterator's size hint or on capacity.",
 ["histories","inputs","configurations"],"every history, element type, hasher (also colliding ones), iterator size hints, counts up to the machine word",
 "Tests count a few characters and integers once with the default hasher.",
 [CT,FC],[("push increments the entry, inserting zero first",CT),("FromIterator/Extend push each item",CT)],cnt,["get, index, len, iteration"])
p("K02","Adding counters is the pointwise sum, in all four forms",
 "For any two counters, with the same or different hashers, adding by value or by reference, in place or not, yields for every element the sum of the two counts, exactly, and no other elements. A right-hand side used by reference is unchanged, and all four forms give the same result.",
 ["inputs","histories"],"every pair of counters: disjoint, overlapping, empty, large counts, different hashers",
 "One documentation example adds two strings by one of the four forms.",
 [CT],[("AddAssign/Add for owned and borrowed right-hand sides",CT)],cnt,["resulting map, right-hand side"])
p("K03","Subtracting counters saturates and removes exhausted elements",
 "For any two counters, with the same or different hashers, subtracting by value or by reference, in place or not, leaves each element with its count minus the right-hand count if that is positive, removes it entirely otherwise, keeps elements the right-hand side lacks, and never adds elements. A right-hand side used by reference is unchanged, and all four forms give the same result.",
 ["inputs","histories"],"every pair of counters: smaller, equal and larger counts, absent elements, empty sides, large counts",
 "No test subtracts counters.",
 [CT],[("SubAssign/Sub remove the entry when the count is not larger than the subtrahend",CT)],cnt,["resulting map, right-hand side"])
p("K04","Most-common listing is complete and sorted by descending count",
 "The most-common listing, borrowed or consuming, contains every counted element exactly once with its exact count, ordered by non-increasing count over the whole machine-word range. The borrowed form leaves the counter unchanged and both forms list the same entries.",
 ["inputs","histories"],"every counter: many distinct elements, ties, zero and huge counts",
 "Documentation examples look only at the first entry of two small counters.",
 [CT],[("sort by usize::MAX - count",CT)],cnt,["most_common, into_most_common"])
p("K05","Counter conversions, copies and its map interface are faithful",
 "Converting a hash map into a counter (by value, by reference, with the same or another hasher) preserves exactly its elements and counts; a clone is equal and independent; two counters are equal exactly if they hold the same elements with the same counts. Reads, inserts, removals, in-place changes and the three iteration forms through the map interface act on exactly the data the counting operations use.",
 ["histories","inputs"],"every history mixing counting, arithmetic and map operations; every hasher pair",
 "Conversions are shown once with two entries; equality, cloning and map mutation are untested.",
 [CT,FC],[("Deref/DerefMut to the inner map",CT),("From<HashMap>, from_hashmap",CT)],cnt,["map interface, ==, clone"])

p("K06","A panic in user code leaves every count either old or new",
 "If hashing, comparing, cloning or dropping an element, or a source iterator, panics inside a counter operation, then every element is left with the count it had before or the count the operation was to give it (counting a sequence may stop anywhere in between, counting a prefix of it); construction and replacement are all or nothing. Apart from entries the standard map itself forgets when hashing panics, no element is lost, none is invented, and all later operations work exactly on the counts left.",
 ["fault_sequences","histories"],"every operation in every form, every counter, every single callback at which the user code panics, every later history",
 "No test injects a panic.",
 [CT,FC],[("each element is updated by one entry access",CT),("sub_counter/add_counter go element by element",CT)],cnt,["counts after catch_unwind and during later operations"])

p("K07","Counting present elements is constant time and needs no memory",
 "Counting one occurrence of an element takes time that does not depend on the number of distinct elements or on the counts; if the element is present already, no memory is requested. The memory a counter holds (room asked for in advance aside), and all it requests while growing to that, is proportional to the number of its distinct elements, however many occurrences were counted, one by one or from a sequence of any length.",
 ["configurations","histories"],"every number of distinct elements, every number of occurrences, every hasher",
 "The documentation promises O(1) insertion and O(k) memory; no test measures either.",
 [CT,FC],[("push is one entry access",CT)],cnt,["allocator calls, bytes held and processor time per call"])

p("K08","Counting sequences, arithmetic and listing scale; room asked for is there",
 "Counting a sequence, adding, subtracting, converting, cloning, iterating and listing the most common elements take time at most proportional (up to a logarithmic factor) to the items and elements involved. A counter created with a capacity, or asked to reserve, then takes that many new elements without requesting memory, and one of capacity zero requests none.",
 ["configurations","histories"],"every number of items and of distinct elements, every hasher, every form of the operations",
 "The documentation promises O(n) initialisation and capacities; no test measures either.",
 [CT,FC],[("operations visit each entry once",CT),("constructors pass the capacity on to the map",CT)],cnt,["allocator calls, bytes held and processor time per item"])

ds=[("ids","element to id","src/disjoint_set/disjoint_set.rs"),("data_by_id","parent and rank per id: the union-find forest","src/disjoint_set/disjoint_set.rs")]
p("D01","Two elements are joined exactly if a chain of unions connects them",
 "At every point of every history, two added elements are reported to be in the same set exactly if they are the same element or a chain of performed unions connects them; asking about an element never added gives false. Union adds missing elements, works for equal arguments and in either argument order, and asking questions or iterating never changes any later answer.",
 ["histories","inputs"],"every sequence of make-set, union, query and iteration, in every order",
 "One test performs three unions over four elements.",
 [DS],[("union by rank of the two roots",DS),("find with path compression",DS)],ds,["in_union for every pair, including on absent elements"])
p("D02","Membership, size and clearing of a disjoint set are exact",
 "An element is contained exactly if it was added by make-set, union, construction or extension since the last clear; the length counts the distinct added elements and emptiness agrees with it. Adding an existing element again changes nothing (in particular it does not detach it from its set), queries never add elements, and after clear the collection behaves like a new one.",
 ["histories","inputs"],"every history, including re-adding joined elements and reuse after clear",
 "Re-adding is tested once on a singleton; clear, len after unions and reuse are untested.",
 [DS],[("make_or_get_set does not override an existing id",DS),("clear empties both tables",DS)],ds,["contains, len, is_empty"])
p("D03","Iterating a disjoint set yields exactly its partition",
 "Iteration yields every added element exactly once, grouped so that two elements are in the same group exactly if they are in the same set, with no empty group. This holds after any history and repeatedly, and iterating changes nothing.",
 ["histories","inputs"],"every partition reachable by any history",
 "No test checks what iteration yields.",
 [DS],[("build_sets groups elements by root",DS)],ds,["groups yielded by iteration"])
p("D04","Disjoint-set operations stay shallow on every union order",
 "No order of unions makes the structure deep: after any history, over any number of elements, an operation follows at most a logarithmic number of links. So union, query and iteration neither exhaust the stack nor degrade to linear time per operation, also for adversarial histories over hundreds of thousands of elements.",
 ["histories"],"every merge order (chains in both directions and argument orders, balanced, random, adversarial), large sizes",
 "Tests have at most seven elements, where depth is irrelevant.",
 [DS],[("union by rank bounds the height by log2 of the size",DS),("path compression",DS)],ds,["stack use and completion of operations on large histories"])
p("D05","Disjoint-set construction, extension, clone and hasher are neutral",
 "Constructing from or extending by an iterator (by value or reference, any size hint) equals adding the items one by one as singletons, leaving existing sets untouched; constructors with capacity or hasher and reserve have no effect on behaviour. A clone answers like the original and from then on the two are independent; behaviour does not depend on the hasher or on hash collisions.",
 ["configurations","histories","inputs"],"every hasher, capacity, element type, iterator; clones of any state",
 "Construction is tested from one array; extension, clone and other hashers are untested.",
 [DS,FD],[("FromIterator/Extend call make_set",DS),("derived Clone",DS)],ds,["all queries on both collections"])

p("D06","A panic in user code leaves a disjoint set at one of its own steps",
 "If hashing, comparing, cloning or dropping an element, or a source iterator, panics inside a disjoint-set operation, the collection is left as a partition reached by some of that operation's own steps: adding leaves all sets as they were plus possibly some of the new elements as singletons, a union additionally may be complete, clearing leaves everything or nothing, and any other operation leaves everything as it was. No element ends up in a set nobody joined it to, and all later operations answer exactly as for a healthy collection with that partition.",
 ["fault_sequences","histories"],"every operation, every reachable forest, every single callback at which the user code panics, every later history",
 "No test injects a panic; the map of elements and the forest only disagree when user code runs between the two updates.",
 [DS],[("make_or_get_set inserts the element and its tree node together",DS),("clear empties the forest before the map",DS),("union resolves both elements before linking",DS)],ds,["all queries after catch_unwind and during later operations"])

p("D07","A disjoint set needs memory only for new elements",
 "Adding an element that is present, joining present elements and asking about elements take (almost) constant time and leave the memory held as it was; iterating releases all it requested once the iterator is gone. The memory a disjoint set holds (room asked for in advance or announced by an iterator aside), and all it requests while growing to that, is proportional to the number of its elements, however many operations were performed on them, and adding a new element takes constant time on average.",
 ["configurations","histories"],"every number of elements, every shape of the forest, every hasher",
 "The documentation promises O(n) memory and near-constant operations; no test measures either.",
 [DS,FD],[("one tree node per map entry",DS)],ds,["allocator calls, bytes held and processor time per call"])

p("D08","Disjoint-set bulk operations scale; room asked for is there",
 "Building or extending a disjoint set from a sequence, cloning, clearing and dropping it take time proportional to the elements involved, whatever has been joined. A disjoint set created with a capacity, or asked to reserve, then takes that many new elements without requesting memory, and one of capacity zero requests none.",
 ["configurations","histories"],"every number of elements, every shape of the forest, every hasher",
 "The documentation promises capacities and O(1) additions; no test measures either.",
 [DS,FD],[("constructors and reserve size both the map and the forest",DS)],ds,["allocator calls, bytes held and processor time per element"])

iv=[("imp","empty, or a lower and an upper bound (value, closedness)",IV)]
p("I01","Every interval is empty or has properly ordered bounds",
 "A constructor yields an interval with exactly the given bounds and closedness if the lower value is below the upper one, or the values are equal and both bounds closed; any other combination makes it panic. Every interval any history of non-panicking operations produces satisfies the same condition or is the empty interval, and only the empty interval reports to be empty.",
 ["inputs","histories"],"every bound combination, every constructor, every history of operations",
 "Four constructor failures are tested; results of operation chains are not checked for well-formedness.",
 [IV,IM],[("create_checked panics on invalid bounds",IV),("fix_after_modification restores the order or empties",IV)],iv,["bounds of every produced interval; panics of constructors"])
p("I02","An interval contains exactly the values between its bounds",
 "A value is contained exactly if it is above the lower bound (or equal to it and that bound is closed) and below the upper bound (or equal to it and that bound is closed). The empty interval contains no value, and the result is the same for every ordered type.",
 ["inputs"],"every interval, every value, every ordered type",
 "One interval is tested with five values; the empty interval is not tested (it used to contain everything).",
 [IV,IC],[("contains_val uses interval/value comparison",IV)],iv,["contains_val"])
p("I03","Interval containment is the subset relation",
 "One interval contains another exactly if every point of the second (values and the open gaps between values, as on a dense line) belongs to the first. The empty interval is contained in every interval and contains only itself; containment is reflexive, transitive and antisymmetric.",
 ["inputs"],"every pair of intervals with every combination of open, closed and coinciding bounds",
 "Ten pairs are tested, always against the same left-hand interval.",
 [IV,IB],[("bound order treats an open bound as strictly inside",IB)],iv,["contains_interval"])
p("I04","Intersection is exact and consistent with the intersection test",
 "The intersection of two intervals, in place or by value, contains exactly the points belonging to both, and is empty exactly if the intersection test says they do not intersect. Intersecting is commutative, never panics for any pair, and the empty interval intersects nothing.",
 ["inputs","histories"],"every pair of intervals, both forms, chains of intersections",
 "About eight pairs are tested; the intersection test on an empty interval used to be wrong.",
 [IV,IC],[("intersects/intersection/into_intersection compare the intervals, then take the tighter bounds",IV)],iv,["intersects, intersection, into_intersection"])
p("I05","Merging succeeds exactly if the union is an interval, and yields it",
 "Two intervals can be merged exactly if their union has no gap: they overlap, or touch at a value at least one of them includes, or one of them is empty. Then merging, in place or by value, yields exactly the union; otherwise it fails, returns the inputs and changes nothing.",
 ["inputs","histories"],"every pair of intervals, both forms, chains of merges",
 "About a dozen pairs are tested, several of them twice.",
 [IV,IB],[("is_separated_from decides whether there is a gap",IB),("merge/into_merged take the outer bounds",IV)],iv,["can_be_merged, merge, into_merged"])
p("I06","Span is the smallest interval covering both operands",
 "The span of two intervals, in place or by value, is the smallest interval containing both, with the closedness of the outermost bounds (closed if either interval includes that outermost value). The empty interval is neutral, and span is commutative and associative.",
 ["inputs","histories"],"every pair of intervals, both forms, chains of spans",
 "Four pairs are tested.",
 [IV,IB],[("span/into_span take the smaller lower and larger upper bound",IV)],iv,["span, into_span"])
p("I07","Interval order compares all points, against intervals and values",
 "An interval is less (greater) than another, or than a value, exactly if both are non-empty and every point of it is below (above) every point of the other; it is less-or-equal (greater-or-equal) exactly if they additionally may share the one boundary value. An interval equals another exactly if both have identical bounds or both are empty, and equals a value exactly if it is that single value; strict orders in both directions never hold at once, and partial comparison agrees with the strict operators and equality.",
 ["inputs"],"every pair of intervals and every value, every combination of open and closed bounds",
 "The tests compare one open and one closed interval with a few others; empty and single-value intervals are not covered.",
 [IC,IB],[("lt/le/gt/ge compare the facing bounds",IC)],iv,["<, <=, >, >=, ==, !=, partial_cmp"])
p("I08","Bounds are totally ordered and compare with values consistently",
 "Lower bounds (a closed one before an open one of the same value) and upper bounds (open before closed) are totally ordered consistently with equality and hashing, and comparing a bound with a value reflects whether the bound's first (last) included point lies below, at or above it. A lower and an upper bound are separated exactly if the lower value is larger, or equal with both open; they are never equal, compare strictly on equal values exactly if they are not both closed, and non-strictly by value alone.",
 ["inputs"],"every pair of bounds, every value, every ordered type",
 "A few equal-valued pairs are tested; the upper-bound/value test repeats the lower-bound one, so upper closed bounds are never compared with values.",
 [IB],[("Ord/PartialOrd impls of both bound types",IB),("are_separated",IB)],[("val,is_closed","bound value and whether it is included",IB)],["cmp, partial_cmp and operators, is_separated_from, hash"])
p("I09","Interval and bound arithmetic maps the bounds and keeps order",
 "Adding, subtracting, multiplying or dividing an interval by a value applies the operation to both bound values, each bound keeping its closedness; if this reverses their order the bounds (with their closedness) trade places, and if the values then coincide while not both are closed the result is empty. Negation mirrors the interval with closedness; the empty interval stays empty; in-place and by-value forms agree, for every numeric type and operand type, and bounds alone behave the same way.",
 ["inputs","histories"],"every interval, operand (negative, zero, one), operator form and numeric type; chains of operations",
 "The tests use one half-open interval and a few constants; negation, zero and bounds that collapse only after rounding in one form are hardly covered.",
 [IM,IB,IV],[("operators map both bounds, then fix_after_modification",IM),("Neg swaps bounds",IM)],iv,["resulting bounds"])
p("I10","Interval accessors, conversions, hash and display round-trip",
 "Bounds, closedness flags, single-value and emptiness tests, tuple and bound conversions all report the same data, and rebuilding an interval from its tuple or bounds gives an equal interval; for the empty interval all of them report nothing. Equal intervals have equal hashes, copies are equal and independent, and the display form shows exactly the bracket kinds and bound values.",
 ["inputs"],"every interval over every ordered type",
 "Each accessor is tested on one or two intervals; hashing and single-value display are untested.",
 [IV,IB],[("accessors over the stored bounds",IV),("derived Clone/Eq/Hash",IV),("Display",IV)],iv,["all accessors, Display, Hash"])
p("I11","In-place interval operations survive a panic of the value type",
 "If comparing, cloning or computing values panics (integer overflow or division by zero included) inside an in-place interval operation, the interval is left well-formed: it is as it was, or the result, or the empty interval; in-place span, intersection and merge may also have replaced one whole bound by that of the result, the bounds still in order. No mixture of an updated and a stale bound of the arithmetic is ever visible, and the interval can be used further like any interval with those bounds.",
 ["fault_sequences","inputs"],"every in-place operation, every pair of intervals, every single call of the value type that may panic, every overflow",
 "No test makes an in-place operation panic.",
 [IM,IV],[("assign operators work on bounds taken out of the interval",IM),("span/intersection/merge replace bounds by swapping",IV)],iv,["bounds after catch_unwind and during later operations"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
