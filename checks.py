"""Which harness entries decide which property, and within which bounds."""
SEQ = list(range(7))                      # vector devector compact_vector small_vector static_vector segmented_vector segmented_devector
SEQ_ALLOC = [0, 1, 2, 3, 5, 6]
FLAT = list(range(16))                    # bit 1 map, 2 multi, 4 unordered, 8 static
SORTED = [0, 1, 2, 3, 8, 9, 10, 11]
UNORD = [4, 5, 6, 7, 12, 13, 14, 15]
MAPS = [1, 5, 9, 13]                      # unique maps
FLAT_ALLOC = list(range(8))
NSEQOP, NFOP = 43, 47

ASSUMPTIONS = [
    "clang 18 front end at -O1 without its optimiser (only always-inline, sroa, early-cse, simplifycfg and the inliner run) generates the bitcode that is executed; gcc and other optimisation levels are covered only by the native replays",
    "the engine's memory model: objects are disjoint and lie at addresses the engine chooses; every access is checked against the bounds, life time and initialisation of its object; operator new never fails (failures come from the harness allocator); relational comparison of pointers into different objects is evaluated on their addresses and not reported",
    "element, comparator and allocator types are the harness's own (value + identity + life-cycle state); containers are templates and are assumed to be parametric in them",
]

def J(src, entries, kinds=None, macro="KK", defs=None, quick=None, thorough=None, flags=(), shard=None, budget=(240, 3000), tiers=("quick", "thorough"), ops=None):
    """kinds: values of `macro`; quick/thorough: extra macro definitions of the tier;
    shard: (range name, number of values, {tier: pieces})"""
    return dict(src=src, entries=entries, kinds=kinds, macro=macro, defs=defs or {}, quick=quick or {}, thorough=thorough or {}, flags=list(flags), shard=shard, budget=budget, tiers=tiers, ops=ops)

def expand(job, tier):
    if tier not in job["tiers"]: return
    for k in (job["kinds"] if job["kinds"] is not None else [None]):
        d = dict(job["defs"]); d.update(job[tier])
        if k is not None: d[job["macro"]] = k
        for e in job["entries"]:
            b = job["budget"][0 if tier == "quick" else 1]
            for lo, hi in job["ops"] or (): yield job["src"], d, job["flags"], e, ["op=%d:%d" % (lo, hi)], b
            if job["ops"]: continue
            n = 1
            if job["shard"]: n = job["shard"][2].get(tier, 1)
            if n <= 1: yield job["src"], d, job["flags"], e, [], b; continue
            nm, tot, _ = job["shard"]
            step = (tot + n - 1) // n
            for lo in range(0, tot, step):
                yield job["src"], d, job["flags"], e, ["%s=%d:%d" % (nm, lo, min(tot, lo + step) - 1)], b

INSERTS = [(4, 6), (7, 10), (11, 12), (41, 41)]
OPS = ("op", NSEQOP, {"quick": 1, "thorough": 22})
FOPS = ("op", NFOP, {"quick": 1, "thorough": 16})
CHECKS = {}
def P(pid, jobs, bounds, assumptions=()):
    CHECKS[pid] = dict(jobs=jobs, bounds=bounds, assumptions=list(assumptions))

B_SEQ1 = {"quick": "one operation (all 43) from any state with <=7 elements, <=2 spare slots at either end (insertions: <=6, devector <=9 at one end, with <=6 elements), <=6 inserted elements; small_vector N=0, 2, 5, static_vector N=7, segment size 1, 2, 3; four kinds of element, all element values",
          "thorough": "the same with <=9 elements, <=4 spare slots (devector <=12), <=6 inserted elements; small_vector N=0..3, 5, segment size 1..4"}
P("P01", [J("seq_func.cpp", ["one_EN", "one_u32", "one_EM", "one_EC"], SEQ, quick=dict(NMAX=7, KMAX=5, STATIC_N=7), thorough=dict(NMAX=9, SLK=4, KMAX=6, STATIC_N=10), shard=OPS),
          J("seq_func.cpp", ["one_EN", "one_u32"], [1], defs=dict(WIDE=3), quick=dict(SLK=9, NMAX=6, KMAX=5), thorough=dict(SLK=12, NMAX=6, KMAX=6), ops=[(4, 4), (6, 6), (7, 7), (8, 10), (24, 24)]),
          J("seq_func.cpp", ["one_EN", "one_u32"], [0, 3, 5, 6], defs=dict(SEG_N=3), quick=dict(SLK=6, NMAX=6, KMAX=6), thorough=dict(SLK=9, NMAX=8, KMAX=9), ops=INSERTS),
          J("seq_func.cpp", ["one_EN", "one_u32", "one_EC"], [3, 5, 6], defs=dict(SMALL_N=5, SEG_N=3), quick=dict(NMAX=7, KMAX=4), thorough=dict(NMAX=9, SLK=4, KMAX=6), shard=OPS),
          J("seq_func.cpp", ["one_EN", "one_u32", "one_EM"], [3, 5, 6], defs=dict(SMALL_N=0, SEG_N=1), quick=dict(NMAX=5, KMAX=3), thorough=dict(NMAX=7, SLK=4, KMAX=5), shard=OPS),
          J("seq_func.cpp", ["one_EN"], SEQ, thorough=dict(SMALL_N=3, SEG_N=4, STATIC_N=6, NMAX=9), tiers=("thorough",), shard=OPS),
          J("seq_func.cpp", ["one_EN"], [3, 5, 6], thorough=dict(SMALL_N=1, SEG_N=2, NMAX=8), tiers=("thorough",), shard=OPS)], B_SEQ1)
P("P02", [J("seq_func.cpp", ["hist_EN", "hist_u32"], SEQ, quick=dict(DEPTH=2), thorough=dict(DEPTH=3), shard=OPS),
          J("seq_func.cpp", ["hist_EN"], SEQ, quick=dict(DEPTH=3, HMAX=1, HNOTWO=1), thorough=dict(DEPTH=4, HMAX=1, HNOTWO=1), shard=("op", NSEQOP, {"quick": 11, "thorough": 43})),
          J("seq_func.cpp", ["ends_EN", "ends_u32"], SEQ, quick=dict(DEPTH=5), thorough=dict(DEPTH=7), shard=("op", 10, {"quick": 5, "thorough": 10})), J("seq_func.cpp", ["ends_EN"], [3, 5, 6], defs=dict(SMALL_N=1, SEG_N=1), quick=dict(DEPTH=5), thorough=dict(DEPTH=7), shard=("op", 10, {"quick": 5, "thorough": 10}))],
  {"quick": "every history of 2 operations (all 43, counts <=2) and of 3 operations (counts <=1, single-container operations) from the empty container; every history of 5 push/pop/insert/erase operations at the ends", "thorough": "every history of 3 (counts <=2), 4 (counts <=1) operations; 7 operations at the ends"})
B_FL = {"quick": "one operation (all 47) from any state with <=5 (unordered 7) elements and <=2 spare slots, <=2 inserted elements, both directions of a stateful comparator; small N=0, 2 and 4, static N=5 (unordered 7); all keys and mapped values; plus every history of 2 operations",
        "thorough": "<=6 (8) elements, <=3 spare slots, <=3 inserted elements; histories of 3 operations"}
def flat_jobs(ks, n=5):
    sm = [k for k in ks if k < 8]
    return [J("flat_func.cpp", ["one_EN", "one_tr", "one_EM", "one_tv"], ks, "FK", quick=dict(NMAX=n, KMAX=2, STATIC_N=n), thorough=dict(NMAX=n + 1, SLK=3, KMAX=3, STATIC_N=8), shard=FOPS),
            J("flat_func.cpp", ["hist_EN"], ks, "FK", quick=dict(DEPTH=2), thorough=dict(DEPTH=3), shard=FOPS),
            J("flat_func.cpp", ["one_EN"], sm, "FK", defs=dict(SMALL_N=0), quick=dict(NMAX=3, SLK=1), thorough=dict(NMAX=5), shard=FOPS),
            J("flat_func.cpp", ["one_EN"], sm, "FK", defs=dict(SMALL_N=4), quick=dict(NMAX=5, SLK=1), thorough=dict(NMAX=6), shard=FOPS)]
P("P03", flat_jobs([0, 2, 8, 10]), B_FL)
P("P04", flat_jobs([1, 3, 9, 11]), B_FL)
P("P05", flat_jobs(UNORD, 7), B_FL)
P("P06", [J("flat_look.cpp", ["look_EN", "look_tr", "look_u32"], FLAT, "FK", quick=dict(NMAX=6, STATIC_N=6), thorough=dict(NMAX=8, STATIC_N=8))],
  {"quick": "any state with <=6 elements, any key", "thorough": "any state with <=8 elements, any key"})
P("P11", [J("seq_exc.cpp", ["exc_EB"], [1], defs=dict(WIDE=3), quick=dict(SLK=9, NMAX=5, KMAX=4), thorough=dict(SLK=12, NMAX=6, KMAX=5), ops=[(6, 6), (7, 7), (8, 8)]),
          J("seq_exc.cpp", ["exc_EA", "exc_EB", "exc_EC", "exc_EMT", "exc_EN", "ctor_EA", "ctor_EB", "ctor_EMT"], SEQ, thorough=dict(NMAX=5, SLK=3, KMAX=4, STATIC_N=6), shard=OPS),
          J("seq_exc.cpp", ["exc_EA", "exc_EB"], [0, 1, 3, 4, 5, 6], quick=dict(NMAX=6, SLK=2, KMAX=3, STATIC_N=7), thorough=dict(NMAX=7, SLK=3, KMAX=4, STATIC_N=9), ops=INSERTS),
          J("seq_exc.cpp", ["exc_EA"], [5, 6], defs=dict(SEG_N=1), quick=dict(NMAX=5, SLK=2, KMAX=2), thorough=dict(NMAX=6, SLK=3, KMAX=4), ops=INSERTS),
          J("flat_exc.cpp", ["exc_EA", "exc_EB", "exc_EC", "exc_EMT", "exc_CT", "ctor_EA", "ctor_EMT", "ctor_CT"], FLAT, "FK", thorough=dict(NMAX=4, SLK=2, KMAX=3, STATIC_N=6), shard=FOPS)],
  {"quick": "one operation or constructor with one failure at any of its throwing points (element copy/move/construction, comparator, allocate); <=3 elements, <=2 spare slots (insertions into and erasures from sequences: <=6 elements; devector also <=5 elements with <=9 spare slots at one end, counts <=4); constructor ranges <=4 elements", "thorough": "<=5 elements (sequences, insertions and erasures <=7), <=4 (associative)"})
P("P19", [J("seq_iter.cpp", ["iter_EN", "iter_u32", "algo_EN", "algo_u32"], SEQ, quick=dict(NMAX=7, SLK=3, STATIC_N=7), thorough=dict(NMAX=8, SLK=4, STATIC_N=8)), J("seq_iter.cpp", ["iter_EN", "algo_EN"], [5, 6], defs=dict(SEG_N=1), quick=dict(NMAX=6), thorough=dict(NMAX=8)), J("seq_iter.cpp", ["iter_u32", "algo_EN"], [5, 6], defs=dict(SEG_N=3), quick=dict(NMAX=8, SLK=3), thorough=dict(NMAX=12, SLK=4))],
  {"quick": "any container state with <=7 (segment size 1: 6, 3: 8) elements and <=3 spare slots at either end, all pairs of positions", "thorough": "<=8 (12) elements"})
P("P20", [J("cmpops.cpp", ["cmp_EN", "cmp_u32"], SEQ, thorough=dict(NMAX=5)), J("cmpops.cpp", ["cmp_EN", "cmp_u32"], FLAT, "FK", thorough=dict(NMAX=4))],
  {"quick": "any two containers of <=3 elements", "thorough": "<=5 (sequences), <=4 (associative)"})
P("P13", [J("alloc.cpp", ["alloc_%d" % i for i in range(9)] + ["hook_EN", "hook_EM"], SEQ_ALLOC, thorough=dict(SMALL_N=3, SEG_N=3)), J("alloc.cpp", ["alloc_%d" % i for i in range(9)] + ["hook_EN", "hook_EM"], FLAT_ALLOC, "FK", thorough=dict(SMALL_N=1))],
  "two containers with <=3 elements (<=4 for assignment sources) and spare storage, equal or unequal allocators, 9 combinations of propagation traits / select_on_copy / construct+destroy hooks; every operation for the construct/destroy hooks")
P("P18", [J("alias.cpp", ["alias_EN", "alias_EC", "alias_u32"], SEQ, thorough=dict(NMAX=6, SLK=3, STATIC_N=8)), J("alias.cpp", ["alias_EN", "alias_EC", "alias_u32"], FLAT, "FK", thorough=dict(NMAX=6, STATIC_N=8)),
          J("alias.cpp", ["erase_own", "erase_own_u32"], [6, 7, 14, 15], "FK")],
  {"quick": "any container with <=4 elements and <=2 spare slots; the argument refers to any of its elements; counts <=3", "thorough": "<=6 elements"})
LEN = ["len_u8", "len_u32", "len_EN", "len_Big"]
LOPS = ("op", 16, {"quick": 1, "thorough": 16})
P("P16", [J("seq_len.cpp", LEN, [0, 1, 2, 3], thorough=dict(NMAX=5), shard=LOPS), J("seq_len.cpp", LEN, [5], quick=dict(NMAX=2, SLK=1), shard=LOPS), J("seq_len.cpp", ["len_u8", "len_EN"], [6], quick=dict(NMAX=2, SLK=1), shard=("op", 16, {"quick": 4, "thorough": 16})), J("seq_len.cpp", ["len_u32", "len_Big"], [6], thorough=dict(SLK=1), shard=LOPS, tiers=("thorough",)), J("seq_len.cpp", ["maxs_EN", "maxs_u32"], [0, 1, 2, 3, 5, 6], thorough=dict(NMAX=6)), J("seq_len.cpp", ["maxs_round"], [5, 6]),
          J("flat_len.cpp", ["flen_EN", "flen_tv", "fmaxs_EN"], FLAT_ALLOC, "FK", quick=dict(NMAX=3), thorough=dict(NMAX=4, KM=3, SLK=3))],
  {"quick": "any state with <=3 elements (2 for segmented containers) and <=2 spare slots, every 64-bit length or count, element sizes 1, 4, 24 and 40 bytes, storage limited to 12 elements (larger requests fail as bad_alloc); growth: every max_size() from capacity() to capacity()+4, <=6 new elements (associative containers: reserve and construction with every 64-bit length, insertion up to and past max_size(), <=3 elements)",
   "thorough": "<=5 elements, <=2 spare slots (segmented: 3 elements, 2 spare slots)"})
P("P17", [J("seq_len.cpp", ["at_EN", "at_u32"], SEQ, thorough=dict(SLK=4)), J("flat_look.cpp", ["look_EN", "look_tr", "look_u32"], MAPS, "FK", thorough=dict(NMAX=8, STATIC_N=8))],
  {"quick": "any state with <=4 elements and <=2 spare slots at either end, every 64-bit position; maps: <=5 elements, any key", "thorough": "maps: <=8 elements"})
STR = ["strong_EA", "strong_EB", "strong_EC", "strong_EM"]
P("P12", [J("seq_mem.cpp", STR, SEQ, quick=dict(NMAX=4), thorough=dict(NMAX=7, SLK=4)), J("seq_mem.cpp", STR, [3, 5, 6], defs=dict(SMALL_N=4, SEG_N=1), quick=dict(NMAX=4), thorough=dict(NMAX=6)), J("flat_mem.cpp", STR, FLAT_ALLOC, "FK", quick=dict(NMAX=4), thorough=dict(NMAX=7, SLK=4)),
          J("flat_mem.cpp", STR, FLAT_ALLOC, "FK", defs=dict(SMALL_N=0), quick=dict(NMAX=2), thorough=dict(NMAX=5))], {"quick": "any state with <=4 elements and <=2 spare slots at either end, reserve/reserve_front/reserve_back up to size()+5, one failure at any of the first 20 (30) throwing points (element copy/move, allocate); small N 0, 2 and 4, segment size 1 and 2", "thorough": "<=7 elements, <=4 spare slots"})
P("P15", [J("seq_mem.cpp", ["cap_EN", "cap_u32", "cap_EB"], SEQ, quick=dict(NMAX=4), thorough=dict(NMAX=5, SLK=3, KMAX=3), shard=OPS), J("flat_mem.cpp", ["cap_EN", "cap_tv"], FLAT, "FK", quick=dict(NMAX=3), thorough=dict(NMAX=5, SLK=3, KMAX=3), shard=FOPS)], {"quick": "one operation (all) from any state with <=4 (flat: 3) elements and <=2 spare slots at either end; reserve up to size()+4 followed by the reserved insertions", "thorough": "<=5 elements, <=3 spare slots, counts <=3"})
P("P14", [J("seq_mem.cpp", ["cms_EN", "cms_u32", "cms_EM"], SEQ, thorough=dict(NMAX=3), quick=dict(NMAX=2)), J("flat_mem.cpp", ["cms_EN", "cms_tv", "cms_EM"], FLAT, "FK", thorough=dict(NMAX=3), quick=dict(NMAX=2))], {"quick": "two containers of <=2 elements and <=1 spare slot, every copy/move/swap/self form followed by one of 14 operations on either side", "thorough": "<=3 elements"})

P("P07", [J("flat_func.cpp", ["one_EN", "one_tr", "one_EM", "one_tv"], MAPS, "FK", quick=dict(NMAX=5, STATIC_N=6), thorough=dict(NMAX=7, SLK=3, STATIC_N=8), ops=[(28, 46)]),
          J("flat_func.cpp", ["one_EN"], [1, 5], "FK", defs=dict(SMALL_N=0), thorough=dict(NMAX=5), ops=[(28, 46)])], {"quick": "any map with <=5 elements and <=2 spare slots, every key and mapped value, all overloads of insert_or_assign, try_emplace, operator[], at, with every hint", "thorough": "<=7 elements, <=3 spare slots"})
P("P08", [J("flat_func.cpp", ["one_EN", "one_tr", "one_EM", "one_tv"], FLAT, "FK", quick=dict(NMAX=5, STATIC_N=6), thorough=dict(NMAX=8, SLK=3, STATIC_N=9), ops=[(8, 12), (34, 39)])], {"quick": "any container with <=5 elements, every key, every hint position, all hinted overloads", "thorough": "<=8 elements"})
P("P09", [J("range.cpp", ["rng_EN", "rng_u32", "rng_EM", "cnt_EN", "cnt_u32", "cnt_EM"], SEQ, thorough=dict(NMAX=5, SLK=3, KMAX=6, STATIC_N=8)), J("range.cpp", ["rng_EN", "rng_tv", "rng_EM"], FLAT, "FK", quick=dict(KMAX=3), thorough=dict(NMAX=3, KMAX=4))], {"quick": "any state with <=3 elements (insertion, assignment) or none (construction), ranges of <=3 elements (sequences: see KMAX), five iterator categories, every position", "thorough": "sequences: <=5 elements, ranges of <=6; associative: ranges of <=4"})
P("P22", [J("seq_func.cpp", ["one_EN", "one_u32", "one_EM"], SEQ, quick=dict(NMAX=6, STATIC_N=6, SLK=1), thorough=dict(NMAX=9, SLK=3, STATIC_N=9), ops=[(24, 25)]), J("flat_func.cpp", ["one_EN", "one_tv", "one_EM"], FLAT, "FK", quick=dict(NMAX=5, SLK=1, STATIC_N=6), thorough=dict(NMAX=7, STATIC_N=8), ops=[(19, 19)])], {"quick": "any sequence with <=6 elements (associative container: <=5) and any threshold or value", "thorough": "<=9 (sequences), <=7 (associative)"})
P("P24", [J("pre.cpp", ["pre_EN", "pre_u32"], SEQ, thorough=dict(NMAX=5, SLK=3)), J("pre.cpp", ["pre_EN", "pre_tv"], FLAT, "FK", defs=dict(STATIC_N=3), thorough=dict(NMAX=5, SLK=2))], {"quick": "any container with <=4 (associative: 3) elements and <=2 spare slots at either end; every 64-bit position or length, every position in or next to the element range, every documented precondition violated once", "thorough": "<=5 elements, <=3 spare slots"})
FX = dict(XA=128)
P("P25", [J("seq_func.cpp", ["one_EN", "one_u32", "one_EM"], SEQ_ALLOC, defs=FX, quick=dict(NMAX=4, SLK=1, KMAX=3), thorough=dict(NMAX=6, SLK=3, KMAX=4), shard=OPS),
          J("seq_func.cpp", ["one_EN"], [5, 6], defs=dict(XA=128, SEG_N=1), quick=dict(NMAX=4, SLK=1, KMAX=3), thorough=dict(NMAX=8, SLK=3, KMAX=4), shard=OPS),
          J("work.cpp", ["grow_EN"], SEQ_ALLOC, defs=FX),
          J("seq_func.cpp", ["hist_EN"], SEQ_ALLOC, defs=FX, quick=dict(DEPTH=2, HMAX=1), thorough=dict(DEPTH=3), shard=OPS),
          J("seq_exc.cpp", ["exc_EB", "ctor_EB"], SEQ_ALLOC, defs=FX, quick=dict(NMAX=2, SLK=1), thorough=dict(NMAX=4), shard=OPS),
          J("alloc.cpp", ["alloc_3", "alloc_8", "hook_EN"], SEQ_ALLOC, defs=FX, quick=dict(ANMAX=2)),
          J("seq_iter.cpp", ["iter_EN", "algo_EN"], SEQ_ALLOC, defs=FX, quick=dict(NMAX=5, SLK=2), thorough=dict(NMAX=7)),
          J("flat_func.cpp", ["one_EN", "one_tv", "one_EM"], FLAT_ALLOC, "FK", defs=FX, quick=dict(NMAX=3, SLK=1), thorough=dict(NMAX=5, SLK=2), shard=FOPS),
          J("flat_exc.cpp", ["exc_EB", "ctor_EA"], FLAT_ALLOC, "FK", defs=FX, thorough=dict(NMAX=4), shard=FOPS),
          J("flat_look.cpp", ["look_tr"], FLAT_ALLOC, "FK", defs=FX, quick=dict(NMAX=4), thorough=dict(NMAX=6)),
          J("alloc.cpp", ["alloc_3", "alloc_8", "hook_EN"], FLAT_ALLOC, "FK", defs=FX, quick=dict(ANMAX=2))],
  {"quick": "as P01-P06, P11, P13, P19 with a self-relative pointer type: <=4 elements (exceptions and allocators: 3), <=1 spare slot, <=3 inserted elements; histories of 2 operations; runs of 60 or 120 insertions at the ends", "thorough": "<=6 elements, <=3 spare slots; histories of 3 operations"})
NX_ = dict(XA=256)
P("P28", [J("seq_func.cpp", ["one_EN", "one_u32"], SEQ_ALLOC, defs=NX_, quick=dict(NMAX=4, SLK=1, KMAX=3), thorough=dict(NMAX=6, SLK=3, KMAX=4), shard=OPS),
          J("seq_func.cpp", ["hist_EN"], SEQ_ALLOC, defs=NX_, quick=dict(DEPTH=2, HMAX=1), thorough=dict(DEPTH=3), shard=OPS),
          J("flat_func.cpp", ["one_EN", "one_tv"], FLAT_ALLOC, "FK", defs=NX_, quick=dict(NMAX=3, SLK=1), thorough=dict(NMAX=5, SLK=2), shard=FOPS),
          J("flat_look.cpp", ["look_tr"], FLAT_ALLOC, "FK", defs=NX_, quick=dict(NMAX=4), thorough=dict(NMAX=6)),
          J("seq_len.cpp", ["len_u32"], [0, 1, 2, 3, 5], defs=NX_, quick=dict(NMAX=2, SLK=1), shard=LOPS),
          J("seq_len.cpp", ["len_u32"], [6], defs=NX_, quick=dict(NMAX=2, SLK=1), shard=("op", 16, {"quick": 4, "thorough": 16})),
          J("narrow.cpp", ["limit_u8"], [0, 1, 2, 3], defs=dict(NSZ="u8")), J("narrow.cpp", ["limit_u32", "limit_EN", "limit_Big"], SEQ_ALLOC, defs=dict(NSZ="u8", SEG_N=1)),
          J("narrow.cpp", ["limit_u32", "limit_EN"], FLAT_ALLOC, "FK", defs=dict(NSZ="u8"))],
  {"quick": "16-bit size_type: any sequence with <=4 elements, any associative container with <=3 and <=1 spare slot, every operation, <=3 inserted elements, histories of 2 operations, every 16-bit length (sequences; <=2 elements); 8-bit size_type: containers within 3 elements of max_size() (127, 31, 5 or 3), grown in three ways, every operation with <=5 further elements", "thorough": "16-bit: <=6 (associative 5) elements, <=3 (2) spare slots, histories of 3 operations"})
NX = ("-fno-exceptions", "-DSFL_NO_EXCEPTIONS", "-DNDEBUG")
NXD = ("-fno-exceptions", "-DSFL_NO_EXCEPTIONS")
P("P23", [J("noexc.cpp", ["abrt_EN", "abrt_u32"], SEQ, flags=NX, thorough=dict(NMAX=5, SLK=3)), J("noexc.cpp", ["abrt_EN", "abrt_u32"], FLAT_ALLOC, "FK", flags=NX), J("noexc.cpp", ["abrt_EN"], SEQ, flags=NXD),
          J("seq_func.cpp", ["one_EN", "one_u32", "one_EM"], SEQ, flags=NX, quick=dict(NMAX=4, SLK=1, KMAX=3), thorough=dict(NMAX=7, SLK=3, KMAX=5, STATIC_N=8), shard=OPS),
          J("flat_func.cpp", ["one_tr", "one_tv", "one_EM"], FLAT, "FK", flags=NX, quick=dict(NMAX=4, SLK=1), thorough=dict(NMAX=6, SLK=2), shard=FOPS)],
  {"quick": "at() for every 64-bit position / every key, every length above max_size() in every operation taking one, from any state with <=3 elements; all operations of P01 and P03-P05 from any state with <=4 (associative: 3) elements and <=1 spare slot, built with -fno-exceptions, SFL_NO_EXCEPTIONS and NDEBUG", "thorough": "<=7 elements, <=3 spare slots"})
P("P21", [J("work.cpp", ["work_EN", "work_EM", "grow_EN"], SEQ, defs=dict(STATIC_N=12), thorough=dict(NMAX=12, STATIC_N=16)), J("work.cpp", ["work_EN"], FLAT, "FK", defs=dict(STATIC_N=21)), J("work.cpp", ["work_EN"], FLAT_ALLOC, "FK", defs=dict(STATIC_N=21, SMALL_N=16)), J("work.cpp", ["work_EN", "grow_EN"], [3, 5, 6], defs=dict(SMALL_N=6, SEG_N=4))],
  {"quick": "sequences of <=9 elements with 0, 2 or 9 spare slots at either end, <=8 inserted elements, every position; runs of 120 (segmented: 60) insertions at the ends; associative containers with 0, 1, 2, 3, 7, 8, 15, 16 or 20 (unordered: <=8) elements and any key", "thorough": "<=12 elements"})
P("P27", [J("fwd.cpp", ["copies_EN", "cats_EN", "cats_EM"], SEQ, thorough=dict(NMAX=6, SLK=3, KMAX=4, STATIC_N=8)), J("fwd.cpp", ["copies_EN", "cats_EN"], FLAT, "FK", quick=dict(NMAX=3, KMAX=2), thorough=dict(NMAX=5, STATIC_N=7)), J("fwd.cpp", ["cats_EM"], MAPS, "FK", quick=dict(NMAX=3))],
  {"quick": "one operation (all) from any state with <=4 (associative: 3) elements and <=2 spare slots, <=3 (associative: 2) inserted elements; every value category of one or several constructor arguments, every position or hint", "thorough": "<=6 elements, <=3 spare slots, <=4 inserted"})
P("P10", [J("seq_func.cpp", ["one_EN", "one_EC", "one_EM"], SEQ, quick=dict(NMAX=4, KMAX=4, SLK=3, STATIC_N=5), thorough=dict(NMAX=8, SLK=4, KMAX=5, STATIC_N=9), shard=OPS),
          J("seq_func.cpp", ["one_EN", "one_EC"], [3, 5, 6], defs=dict(SMALL_N=3, SEG_N=4), quick=dict(NMAX=6, KMAX=5, SLK=1), thorough=dict(NMAX=9, SLK=5, KMAX=6), shard=OPS),
          J("seq_func.cpp", ["one_EN"], [3], defs=dict(SMALL_N=1), quick=dict(NMAX=4, KMAX=3), thorough=dict(NMAX=7, SLK=4, KMAX=5), shard=OPS),
          J("seq_func.cpp", ["hist_EC", "hist_EM"], SEQ, quick=dict(DEPTH=2, HMAX=1), thorough=dict(DEPTH=3), shard=OPS),
          J("flat_func.cpp", ["one_EN", "one_EC", "one_EM"], FLAT, "FK", quick=dict(NMAX=3, KMAX=3, STATIC_N=4), thorough=dict(NMAX=5, SLK=3, KMAX=3, STATIC_N=6), shard=FOPS),
          J("flat_func.cpp", ["one_EN"], FLAT_ALLOC, "FK", defs=dict(SMALL_N=1), quick=dict(NMAX=3, KMAX=2, SLK=1), thorough=dict(NMAX=5), shard=FOPS),
          J("flat_func.cpp", ["hist_EC"], FLAT, "FK", quick=dict(DEPTH=2), thorough=dict(DEPTH=3), shard=FOPS)],
  {"quick": "one operation (all) from any state with <=4 (small N=3 and segment size 4: 6; associative: 3) elements and <=3 spare slots, <=4 (5) inserted elements; every history of 2 operations; copyable, copy-only and move-only elements", "thorough": "<=9 (associative: 5) elements, <=5 spare slots; histories of 3 operations"})
