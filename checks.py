"""One function per property: which specifications TLC checks, which of their transitions are
replayed on the code, and which recorded histories TLC has to accept."""

PUSHPOP = "push_back,push_front,pop_back,pop_front,clear,renew"
BULK = "extend,append,drain,drain_skip,into_iter,from_vec,from_iter,reclone,clone_away"
REARR = "swap,reverse,linearize"
CB_TRUST = [
    "TLC, the harness (/verif/harness) and rustc are trusted",
    "the refinement Ring => Deque is exhaustive for capacities up to the stated bound; larger capacities are sampled by recorded histories",
    "elements are arbitrary: the buffer never inspects them except through Clone, comparison and Drop",
]


def ring(c, cap_full, cap_graph, ext=2):
    """Refinement check of the ring design, then its transitions (one per layout and operation)."""
    c.model("Ring.tla", "MCRingFull.cfg", {"CapMax": cap_full})
    return c.model("Ring.tla", "MCRingGraph.cfg", {"CapMax": cap_graph, "ExtMax": ext}, emit=c.work + "/ring.ndjson")


def cb(focus, aspects, types, hist_types, flags, histories, length, big, few=0, extra=None):
    def run(c):
        c.build()
        g = ring(c, c.pick(3, 4), c.pick(5, 7))
        c.harness("cb", "replay", graph=g, focus=focus, aspects=aspects, types=c.pick(types[0], types[1]))
        m = c.pick(1, 12)
        hf = focus if focus == "all" else focus + ",push_back,pop_front"
        c.record("cb", "record", "TraceCB.tla", flags, seed=c.seed, histories=histories * m, len=length, big=big * m, few=few,
                 types=hist_types, aspects=aspects, focus=(hf + (",move,clone_to" if "append" in focus else "")))
        # a few histories over buffers beyond the sizes of narrow machine words
        own = "OWNER" in flags
        c.record("cb", "record", "TraceCB.tla", flags, seed=c.seed + 7, histories=0, huge=c.pick(6, 24 if own else 40), hugecap=c.pick(2000, 4100) if own else 80000,
                 types="tracked" if own else "i32", aspects=aspects, focus=hf)
        if extra:
            extra(c, g)
        return CB_TRUST
    return run


def c07(c):
    c.build()
    c.model("Ring.tla", "MCRingFull.cfg", {"CapMax": c.pick(3, 4)})
    g = c.model("Ring.tla", "MCRingGraph.cfg", {"CapMax": c.pick(3, 5), "ExtMax": 2}, emit=c.work + "/ring.ndjson")
    c.record("cb", "faults", "TraceCB.tla", ["VALUE", "VIEWS", "OWNER"], seed=c.seed, graph=g, stride=1, follow=c.pick(4, 8))
    return CB_TRUST + ["a fault is a panic in a destructor, clone, comparison or source iterator, or a leaked draining/consuming iterator"]


def c08(c):
    c.build()
    p = c.model("MCCompare.tla", "MCCompare.cfg", {"MaxLen": c.pick(3, 4)}, emit=c.work + "/pairs.ndjson")
    c.harness("cb", "compare", pairs=p, types="i32,f64,String,tracked,u8")
    c.record("cb", "record", "TraceCB.tla", ["VALUE"], seed=c.seed, histories=c.pick(60, 1500), len=60, big=c.pick(4, 60), few=1,
             types="i32,f64,String,char", focus="cmp,cmps,cmp,cmps,cmp,push_back,push_front,pop_front,extend,resize,clone_to,linearize,reverse")
    c.record("cb", "record", "TraceCB.tla", ["VALUE"], seed=c.seed + 7, histories=0, huge=c.pick(4, 30), few=1, types="i32",
             focus="cmp,cmps,cmp,cmps,cmp,clone_to,linearize,reverse")
    return CB_TRUST


ALL_TYPES = "i32,i64,u8,u128,bool,unit,char,String,Box,Rc,OptBox,array,Vec,NonZeroU8,&str,tuple,f64,plain,fn,tracked,token"


def c09(c):
    c.build()
    g = ring(c, c.pick(3, 4), c.pick(4, 6), 1)
    c.harness("cb", "replay", graph=g, focus="all", aspects="value,views,owner", types=ALL_TYPES)
    c.record("cb", "record", "TraceCB.tla", ["VALUE", "VIEWS", "OWNER"], seed=c.seed, histories=c.pick(20, 400), len=60, big=c.pick(2, 20),
             types=ALL_TYPES, focus="all")
    return CB_TRUST


COST_TRUST = [
    "TLC, the harness (/verif/harness), rustc and the processor-time clock are trusted",
    "time is compared between two sizes with a factor of 40 and four microseconds to spare: a cost that grows more slowly than about the fourth root of the size, or only in rare calls, is not seen",
]


def cost(area, design, kind="S", focus=""):
    """Series of operations enumerated by Cost.tla, measured on the code at two sizes and judged by TraceCost.tla."""
    def run(c):
        c.build(shipped=False)
        design(c)
        g = c.model("Cost.tla", "CostPrint.cfg", emit=c.work + "/series.ndjson")
        if kind == "S":
            c.record(area, "cost", "TraceCost.tla", ["MEM", "TIME"], graph=g, sizes=c.pick("64,1048576", "64,1000,16384,262144,1048576,1500000"), shards=1)
        else:
            c.record(area, "cost", "TraceCost.tla", ["MEM", "TIME"], graph=g, kind="B", sizes=c.pick("64,131072", "64,1000,16384,131072,600000"), shards=1)
        if focus:
            c.record(area, "cost", "TraceCost.tla", ["MEM"], graph=g, kind="B", focus=focus, sizes=c.pick("64,131072", "64,1000,16384,131072,600000"), shards=1)
        return COST_TRUST
    return run


CTR_TRUST = [
    "TLC, the harness (/verif/harness), rustc and the standard library's HashMap are trusted",
    "pairs of counters over three elements and counts 0..2 (also scaled to a quarter of the machine word) are exhaustive; larger counters are sampled by recorded histories",
    "an addition whose sum exceeds the machine word is out of scope (it panics in debug builds)",
]
MAPOPS = "insert,remove,get,index,get_mut,entry,add_all,retain,clear,iter,drain_iter"


def ctr(focus, setup, deep, types=("i32,String", "i32,char,tuple,String,blunt")):
    def run(c):
        c.build()
        c.model("MCBigNat.tla", "MCBigNat.cfg")
        c.model("MCCounter.tla", "MCCounter.cfg", {"Max": c.pick(2, 3)})
        g = c.model("MCCounter.tla", "MCCounterGraph.cfg", {"Max": c.pick(2, 3)}, emit=c.work + "/counter.ndjson")
        c.harness("ctr", "replay", graph=g, focus=focus, deep=deep, types=c.pick(types[0], types[1]))
        m = c.pick(1, 10)
        c.record("ctr", "record", "TraceCounter.tla", ["VIEWS"] if deep else [], seed=c.seed, histories=150 * m, len=60, big=12 * m,
                 focus=focus, setup=setup, deep=deep, types="i32,char,tuple,String,blunt")
        # a few histories over counters with many elements
        c.record("ctr", "record", "TraceCounter.tla", ["VIEWS"] if deep else [], seed=c.seed + 7, histories=0, huge=c.pick(3, 9),
                 hugekeys=c.pick(1500, 2000), focus=focus, setup=setup, deep=deep, types=c.pick("i32", "i32,String"))
        return CTR_TRUST
    return run


def k06(c):
    c.build()
    c.model("MCCounter.tla", "MCCounterFault.cfg", {"Max": c.pick(2, 3)})
    ops = "push,extend,extend,add,add,sub,sub,add,sub,most_common,clear,from_iter,from_map,reclone,clone_away,clone_to,renew,reserve,insert,remove,entry,retain,drain_common,drain_iter"
    c.record("ctr", "faults", "TraceCounter.tla", ["VIEWS"], seed=c.seed, histories=c.pick(300, 3000), tries=4, follow=4, types="brittle,brittlecopy", focus=ops)
    return CTR_TRUST + ["a fault is a panic in Hash, Eq, Clone or Drop of an element or in a source iterator, at every call of a sampled operation",
                        "the standard HashMap may lose elements when Hash panics while it makes room; in operations that may add elements that is not held against the counter"]


DSU_TRUST = [
    "TLC, the harness (/verif/harness), rustc and the standard library's HashMap and Vec are trusted",
    "histories over few elements are exhaustive up to the stated depth, forests up to the stated size; longer histories are sampled",
    "keys have a correct Hash/Eq and do not change while stored",
]


def dsu(what, flags, focus, setup, hist_focus="all", types=("i32,String", "i32,char,tuple,String,blunt")):
    def run(c):
        c.build()
        c.model("MCUnionFind.tla", "MCUnionFind.cfg", {"N": c.pick(5, 6)})
        g = c.model("MCUnionFind.tla", "MCUnionFindGraph.cfg", {"N": c.pick(4, 5)}, emit=c.work + "/forest.ndjson")
        c.harness("dsu", "replay", graph=g, focus="all", what=what, types=c.pick(types[0], types[1]))
        c.model("MCPartition.tla", "MCPartition.cfg", {"Depth": 3, "Keys": c.pick(4, 5)})
        h = c.model("MCPartition.tla", "MCPartitionHist.cfg", {"Depth": 3, "Keys": c.pick(4, 5)}, emit=c.work + "/hist.ndjson")
        c.harness("dsu", "hist", graph=h, focus=hist_focus, what=what, types=c.pick("i32", types[1]))
        m = c.pick(1, 12)
        c.record("dsu", "record", "TracePartition.tla", flags, seed=c.seed, histories=150 * m, len=60, big=12 * m, deep=20 * m, what=what,
                 focus=focus, setup=setup, types="i32,char,tuple,String,blunt")
        c.model("Classes.tla", "Classes.cfg")
        s = c.model("Classes.tla", "ClassesPrint.cfg", emit=c.work + "/scripts.ndjson")
        c.harness("dsu", "scale", graph=s, what=what, sizes=c.pick("300,5000,70000", "300,5000,66000,140000,300000"), types=c.pick("i32", "i32,String"), seed=c.seed)
        return DSU_TRUST
    return run


def d04(c):
    c.build(shipped=False)
    c.model("MCUnionFind.tla", "MCUnionFind.cfg", {"N": c.pick(6, 6)})
    c.model("Merges.tla", "Merges.cfg", {"Sizes": c.pick("{12,30}", "{12,30,40}")}, workers=1)
    f = c.model("Merges.tla", "MergesPrint.cfg", emit=c.work + "/families.ndjson")
    c.harness("dsu", "depth", graph=f, sizes=c.pick("33,1000,30000,200000", "33,1000,30000,65537,200000,500000"), between=c.pick(1200, 4000), seed=c.seed)
    return DSU_TRUST + ["the number of links an operation follows is observed through the stack it uses and its CPU time, not directly"]


def d06(c):
    c.build()
    c.model("MCPartitionFault.tla", "MCPartitionFault.cfg", {"Depth": c.pick(3, 4)}, workers=1)
    ops = "make_set,union,union,extend,clear,clear,in_union,contains,reserve,reclone,clone_away,clone_to,from_iter,renew"
    c.record("dsu", "faults", "TracePartition.tla", ["QUERY", "MEMBER", "GROUPS"], seed=c.seed, histories=c.pick(60, 1000), tries=4, follow=6, types="brittle,brittlecopy", focus=ops)
    return DSU_TRUST + ["a fault is a panic in Hash, Eq, Clone or Drop of an element or in a source iterator, at every call of a sampled operation"]


IV_TYPES = "i8,i32,i64,i128,u8,u64,usize,char,String,&str,Ipv4Addr,Reverse,Vec,tuple,Box,Option,Wrapping,Duration,Frac"
IV_HIST = IV_TYPES.replace("&str,", "")
IV_TRUST = [
    "TLC, the harness (/verif/harness) and rustc are trusted",
    "interval code sees values only through their total order (and arithmetic operators), so all placements of the bounds over four values cover every pair of intervals; each is run with values of many types drawn to the extremes of the type",
    "the order of the value type is total and dense reasoning is used for gaps: an interval between neighbouring integers with open bounds is not empty",
]
SETUP_OPS = "new,single,copy_to,span,intersection,merge"


def iv(whats, judged, form=False, focus=None, extra=None):
    def run(c):
        c.build()
        c.model("MCInterval.tla", "MCInterval.cfg", {"Triples": c.pick("FALSE", "TRUE"), "N": 4})
        g = c.model("MCInterval.tla", "MCIntervalRows.cfg", emit=c.work + "/rows.ndjson")
        for w in whats:
            c.harness("iv", "rows", graph=g, what=w, pools=c.pick(30, 400), types=IV_TYPES, seed=c.seed)
        if extra:
            extra(c)
        if not judged:
            return IV_TRUST
        flags = ["OP_" + n for n in judged.split(",")] + (["FORM"] if form else [])
        c.record("iv", "record", "TraceInterval.tla", flags, seed=c.seed, histories=c.pick(60, 800), len=60, types=IV_HIST, focus=focus or judged)
        return IV_TRUST
    return run


def interval_math(c):
    for n, cfg in enumerate(("MCIntervalMath.cfg", "MCIntervalMathExact.cfg", "MCIntervalMathWrap.cfg")):
        g = c.model("MCIntervalMath.tla", cfg, emit=c.work + "/math%d.ndjson" % n)
        c.harness("iv", "math", graph=g, rounds=c.pick(8, 100), seed=c.seed)


def i11(c):
    c.build()
    c.model("MCInterval.tla", "MCInterval.cfg", {"Triples": "FALSE", "N": 4})
    c.model("MCIntervalFault.tla", "MCIntervalFault.cfg", workers=1)
    c.record("iv", "faults", "TraceInterval.tla", ["FORM"], seed=c.seed, histories=c.pick(400, 6000), tries=4, types="brittle,i8",
             focus="add,sub,mul,div,add,sub,mul,div,span,intersection,merge")
    return IV_TRUST + ["a fault is a panic in Ord, PartialEq, Clone or an arithmetic operator of the value type, at every call of a sampled operation, or an overflow"]


ALL_OPS = "new,single,empty,copy_to,intersection,span,merge,add,sub,mul,div,neg,has_val,has_interval,intersects,mergeable,rel,rel_val,access"

CHECKS = {
    "C01": cb(PUSHPOP, "value", ("i32,tracked", "i32,u8,String,tracked,unit"), "i32,tracked", ["VALUE"], 100, 80, 8),
    "C02": cb("resize,renew", "value", ("i32,tracked,String", "i32,u8,String,tracked,unit,Box"), "i32,tracked", ["VALUE"], 100, 80, 8),
    "C03": cb("all", "value,views,oob", ("i32", "i32,String,tracked"), "i32,tracked", ["VALUE", "VIEWS"], 40, 60, 4),
    "C04": cb(REARR, "value", ("i32,tracked", "i32,u8,String,tracked,unit,array"), "i32,tracked", ["VALUE"], 100, 80, 8),
    "C05": cb(BULK, "value", ("i32,tracked", "i32,u8,String,tracked,unit,Box"), "i32,tracked", ["VALUE"], 100, 60, 8),
    "C06": cb("all", "owner", ("tracked,token", "tracked,token"), "tracked,token", ["OWNER"], 300, 80, 20),
    "C07": c07,
    "C08": c08,
    "C09": c09,
    "C10": cost("cb", lambda c: c.model("Ring.tla", "MCRingFull.cfg", {"CapMax": c.pick(3, 4)})),
    "K07": cost("ctr", lambda c: c.model("MCCounter.tla", "MCCounter.cfg", {"Max": 2}), focus="from_iter,extend,clone,add"),
    "C11": cost("cb", lambda c: c.model("Ring.tla", "MCRingFull.cfg", {"CapMax": c.pick(3, 4)}), kind="B"),
    "K08": cost("ctr", lambda c: c.model("MCCounter.tla", "MCCounter.cfg", {"Max": 2}), kind="B"),
    "D08": cost("dsu", lambda c: c.model("MCUnionFind.tla", "MCUnionFind.cfg", {"N": c.pick(6, 6)}), kind="B"),
    "D07": cost("dsu", lambda c: c.model("MCUnionFind.tla", "MCUnionFind.cfg", {"N": c.pick(6, 6)})),
    "K01": ctr("push,extend,from_iter,renew,reserve", "push,extend,insert,remove", 0),
    "K02": ctr("add", "insert,insert,remove,clone_to,clear", 0),
    "K03": ctr("sub", "insert,insert,remove,clone_to,clear", 0),
    "K04": ctr("most_common,drain_common", "insert,insert,insert,from_map,remove,clear", 0),
    "K05": ctr("from_map,reclone,clone_away,clone_to,eq," + MAPOPS, "push,extend,insert,from_map", 1),
    "K06": k06,
    "D01": dsu("q", ["QUERY"], "in_union,union,iter,make_set,reclone", "union,make_set,union"),
    "D02": dsu("m", ["MEMBER"], "contains,len,is_empty,clear,make_set,extend,in_union,iter,renew", "union,make_set"),
    "D03": dsu("g", ["GROUPS"], "iter,iter_part,in_union,clear", "union,make_set,union"),
    "D04": d04,
    "D05": dsu("qmg", ["QUERY", "MEMBER", "GROUPS"], "extend,from_iter,renew,reserve,reclone,clone_away,clone_to", "union,make_set,extend,in_union,clone_to",
               "extend,from_iter,reclone,clone_away"),
    "D06": d06,
    "I01": iv(["form"], "new,single,empty", True, "all"),
    "I02": iv(["value"], "has_val"),
    "I03": iv(["contain"], "has_interval"),
    "I04": iv(["intersect"], "intersects,intersection"),
    "I05": iv(["merge"], "mergeable,merge"),
    "I06": iv(["span"], "span"),
    "I07": iv(["cmp"], "rel,rel_val"),
    "I08": iv(["bounds"], ""),
    "I09": iv([], "add,sub,mul,div,neg", False, "add,sub,mul,div,neg", interval_math),
    "I10": iv(["access"], "access,copy_to", False, "access,copy_to"),
    "I11": i11,
}

DEFAULT_TECHNIQUE = "TLA+ specification checked with TLC; its transitions replayed on the code and recorded histories validated against it"
COSTS = ("C10", "C11", "K07", "K08", "D07", "D08")
FAULTS = ("C07", "K06", "D06", "I11")
TECHNIQUE = {p: "TLA+ specification checked with TLC; series of operations it enumerates are measured on the code, and TLC accepts or rejects the measurements" for p in COSTS}
TECHNIQUE.update({p: "TLA+ specification of what an abandoned operation may leave, checked with TLC; histories with a panic at every call into user code recorded from the code and validated against it" for p in FAULTS})
NOTES = {
    "I": "TLC shows that the relations and operations of Interval.tla are the set relations and operations on points of a dense order, and that the bound-by-bound rules compute them, for every pair (and triple) of intervals over four values, which covers every pair up to order isomorphism. Every printed row is run on the real type with values of many types, including extremes, and recorded histories over several interval registers are accepted event by event by the same specification. Trusts TLC, rustc and the harness.",
    "C": "TLC shows exhaustively (small capacities) that the ring design refines a bounded deque; every printed transition (layout x operation x way to call it) is stepped through the real type and recorded random/fault histories are accepted event by event by the same specification. Assumes small-scope coverage of layouts; trusts TLC, rustc and the harness.",
    "D": "TLC shows that the partition is the connectivity of the performed unions on every short history and that the union-by-rank forest refines it and stays logarithmic; every printed history and forest transition is run with four hashers and several key types, recorded random histories are accepted by the same specification, and merge orders shown by TLC to drive wrong linking rules deep are run at 200000 elements under stack and CPU-time measurement. Trusts TLC, rustc, std and the harness.",
    "K": "TLC shows that the loops of the counter compute the pointwise meaning of Counter.tla in every order of hash-map entries; every printed operation on every small counter (pair) is run in every form with four hashers and several key types, and recorded histories with counts up to the largest machine word are accepted event by event by the same specification. Trusts TLC, rustc, std's HashMap and the harness.",
    **{p: "Cost.tla enumerates series of operations and states what they may use up (allocator calls, bytes held, processor time per call at a small and a large size); TLC shows that its time law separates constant or linear costs from growing ones, and accepts or rejects every measurement of the real code. The design specification shows why the costs are local. Sizes are sampled; trusts TLC, rustc, the harness and the processor-time clock." for p in COSTS},
    **{p: "The specification relates the state before an operation abandoned by a panic to the states it may leave; TLC shows that stepwise models of the operations with a panic at every call into user code stay inside that relation, and that wrong orders of the steps leave it. Histories recorded from the real code, with a panic at the first, second, ... call into user code, are accepted event by event. Trusts TLC, rustc, std and the harness." for p in FAULTS if p != "C07"},
}
