"""Job tables shared by the checks that walk the state space of the trees."""

from vf.explore import Job

# explicit seed shapes: (parent list in depth-first order, payload, gaps)
ROOTS12 = ([None] * 12, None, None)
KIDS12 = ([None] + [0] * 12, None, None)
MIX = ([None, 0, 1, 1, 0, None, 5, 5], None, None)
MIXGAP = ([None, 0, 1, 1, 0, None, 5, 5], None, [1, 0, 1, 0, 2, 1, 0, 1])
DEEP = ([None, 0, 1, 2, 3, 4, 0], None, None)
FOREST3 = ([None, 0, 0, None, 3, 3, None, 6, 6], None, None)
KIDS9 = ([None] + [0] * 9, None, None)
TEN_END = ([None, 0, 0, None], None, [7, 7, 0, 0])  # positions 8 and 9 of ten
# past 36 siblings and 10 levels: a root with 38 children, the 20th heading a chain, and 37 more roots
BIG = ([None] + [0] * 38 + [20, *range(39, 48)] + [None] * 37, None, None)
BIG_PICK = (0, 1, 10, 20, 35, 38, 39, 47, 48, 49, 84, 85)
SEEDS = [ROOTS12, KIDS12, MIX, MIXGAP, DEEP, FOREST3]
SMALLSEEDS = [MIX, MIXGAP, DEEP, FOREST3]

LT_RAW = [
    # labels that continue each other, the end of the alphabet, and more than 26 siblings
    tuple((x,) for x in ("0", "00", "0A", "A", "A0", "AA", "B")),
    tuple((x,) for x in ("0", "0.0", "0.00", "0.A", "0.A0", "A", "A.A", "A.A.0", "A0")),
    tuple((x,) for x in ("Y", "Z", "Z.Z", "Z.ZZ", "Z.ZZ0", "Z0", "ZZ", "ZZZ")),
    tuple((x,) for x in ("A", "A.A", "A.A.A", "A.A.AA", "A.A0", "A.A0.0", "A00", "A00.Z")),
    # no room on the left, and cousins with children on the right
    tuple((x,) for x in ("A", "A.A", "A.A.0", "A.A.A", "A.B", "A.B.0", "A.B.0.0")),
    # longer labels
    tuple((x,) for x in ("Z", "Z.ZZZ", "Z.ZZZZ", "Z.ZZZZA", "ZZZZ", "ZZZZA", "ZZZZA.00000")),
]


def big_jobs(pick=BIG_PICK):
    """One tree of 86 nodes, operations on and between twelve of them."""
    return [
        Job(k + "Std-big", adapter=k + "Std", seeds=[BIG], pick=pick, seeds_only=True, chunk=1, **({"engine": "pg"} if k == "LT" else {}))
        for k in ("MP", "NS", "AL", "LT")
    ]


def plain(tier, n=None, lt_n=3, lt_chars="0AB", small=4, seeds=SEEDS, pos=None, expand_n=None):
    """Unsorted trees: every reachable state within the bounds, plus wide and deep seed states."""
    big = tier == "thorough"
    n = n or {"MP": 4, "NS": 4, "AL": 4}
    pos = pos or {"MP": 4, "NS": 4, "AL": 4}
    if big:
        n = {k: v + 1 for k, v in n.items()}
        pos = {k: v + 1 for k, v in pos.items()}
    J = []
    for kind, name in (("NS", "NSStd"), ("AL", "ALStd"), ("MP", "MPStd")):
        if not n.get(kind):
            continue
        b = {"n": n[kind], "pos": pos[kind]}
        if expand_n and kind in expand_n:
            b["expand_n"] = expand_n[kind] + (1 if big else 0)
        J.append(Job(name, adapter=name, bounds=b))
    J.append(
        Job("LTStd", engine="pg", adapter="LTStd", bounds={"n": lt_n, "lab": 3 if big else 2, "chars": lt_chars})
    )
    if small:
        J.append(Job("MPTiny", adapter="MPTiny", bounds={"n": small + big}))
        J.append(Job("MPBin", adapter="MPBin", bounds={"n": small - 1 + big}))
        J.append(Job("MPAscii", adapter="MPAscii", bounds={"n": 3, "pos": 4}))
        J.append(Job("MPStd-icu", engine="icu", adapter="MPStd", bounds={"n": 3, "pos": 3 + big}))
        J.append(Job("MPMixed", engine="pg", adapter="MPMixed", bounds={"n": 3, "pos": 4 + big}))
    if seeds:
        for name in ("MPStd", "NSStd", "ALStd"):
            J.append(Job(name + "-seeds", adapter=name, seeds=seeds, seeds_only=True, chunk=1))
        J += big_jobs()
        J.append(Job("MPDef-seeds", adapter="MPDef", seeds=[MIX, ROOTS12][: 1 + (seeds is SEEDS)], seeds_only=True, chunk=1))
        J.append(
            Job("MPTen-seeds", adapter="MPTen", seeds=[([None] * 9, None, None), KIDS9, TEN_END], seeds_only=True, chunk=1)
        )
        J.append(Job("LTStd-seeds", engine="pg", adapter="LTStd", seeds=seeds, raw=LT_RAW, seeds_only=True, chunk=1))
    for kind in ("MP", "NS", "AL"):
        J.append(Job(kind + "Uuid", adapter=kind + "Uuid", bounds={"n": 3, "pos": 3}))
    J.append(Job("LTUuid", engine="pg", adapter="LTUuid", bounds={"n": 2, "lab": 1, "chars": "0AB"}))
    if big:
        for name in ("MPStd", "NSStd", "ALStd"):
            J.append(Job(name + "-pg", engine="pg", adapter=name, bounds={"n": 3, "pos": 4}))
            J.append(Job(name + "-pg-seeds", engine="pg", adapter=name, seeds=SEEDS, seeds_only=True, chunk=1))
    return J


def sorted_(tier, n=3, mp_pos=3, kinds=("MP", "NS", "AL", "LT"), two=True, three=False):
    """Trees with node_order_by."""
    big = tier == "thorough"
    J = []
    for kind in kinds:
        pg = {"engine": "pg"} if kind == "LT" else {}
        b = {"n": n + (1 if big else 0), "pos": n if kind == "NS" else mp_pos + big}
        if kind == "LT":
            b = {"n": 3 if big else 2, "lab": 2, "chars": "0AB"}
        if kind == "AL":
            b = {"n": n + (1 if big else 0)}
        vals = None if big or kind != "MP" else ((1,), (2,))
        J.append(Job(kind + "Sort", adapter=kind + "Sort", bounds=b, vals=vals, **pg))
        small = dict(b, n=min(b["n"], 3 if big else 2))
        J.append(Job(kind + "SortD", adapter=kind + "SortD", bounds=small, **pg))
        if two:
            J.append(Job(kind + "Sort2", adapter=kind + "Sort2", bounds=small, **pg))
        if three:
            # all pairs of keys that agree in none, one or two of the three fields
            b3 = dict({"n": 2, "pos": 2}, **({"lab": 1} if kind == "LT" else {}))
            if kind == "LT":
                b3["chars"] = "0A"
            J.append(Job(kind + "Sort3", adapter=kind + "Sort3", bounds=b3, **pg))
        # text keys, under both collations where there are two
        for e, tag in ((("icu", "-icu"),) if kind == "LT" else (("sqlite", ""), ("icu", "-icu")) if big or kind == "MP" else (("sqlite", ""),)):
            J.append(Job(kind + "SortT" + tag, engine=e, adapter=kind + "SortT", bounds=dict(small, n=2)))
        kv = [(v,) for v in (1, 1, 3, 3, 5, 5, 2)]
        wide = ([None] * 7, sorted(kv), None)
        deep = ([None, 0, 0, 0, None, 4, 4, 4], [(1,), (1,), (3,), (3,), (2,), (1,), (2,), (5,)], None)
        gap = ([None, 0, 0, 0, None, 4], [(1,), (1,), (3,), (3,), (2,), (1,)], [1, 1, 2, 0, 1, 1])
        J.append(Job(kind + "Sort-seeds", adapter=kind + "Sort", seeds=[wide, deep, gap], seeds_only=True, chunk=1, **pg))
    if "MP" in kinds:
        J.append(Job("MPTinySort", adapter="MPTinySort", bounds={"n": 4 if big else 2}))
    return J
