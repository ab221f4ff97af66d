"""C06: navigation queries and predicates agree with one another and with the stored tree."""

from vf import forest as F
from vf import jobs as J
from vf import nav, treeops
from vf.adapters import Scratch
from vf.explore import Job

ID = "C06"
TRACE_STRICT = False  # a seed that the API builds differently is the business of C01 to C05


def spread(shape_list):
    """Shapes with gaps, so that paths and tree ids are not the ones of a fresh tree."""
    out = []
    for s in shape_list:
        p = F.shape_parents(s)
        out.append((p, None, None))
        if len(p) > 1:
            out.append((p, None, [(i * 3 + 1) % 4 for i in range(len(p))]))
    return out


def jobs(tier):
    big = tier == "thorough"
    shapes = [s for n in range(0, 7 if big else 6) for s in F.shapes(n)]
    more = J.SEEDS + [J.BIG, J.KIDS9, ([None, 0, None, 2, 2, 3], None, None), ([None, 0, 1, 2, 3, 4, 5, 6], None, None)]
    js = []
    for name in ("MPStd", "NSStd", "ALStd", "LTStd"):
        pg = {"engine": "pg"} if name == "LTStd" else {}
        raw = J.LT_RAW if name == "LTStd" else []
        js.append(Job(name + "-shapes", adapter=name, seeds=spread(shapes), seeds_only=True, chunk=2, **pg))
        js.append(Job(name + "-wide", adapter=name, seeds=more, raw=raw, seeds_only=True, chunk=1, **pg))
        b = {"n": 3 + big, "pos": 3, "lab": 2, "chars": "0AB" if big else "0A"}
        js.append(Job(name + "-histories", adapter=name, bounds=b, reach=("append", "left", "delete"), **pg))
        js.append(Job(name[:2] + "Uuid", adapter=name[:2] + "Uuid", seeds=spread(F.shapes(3) + F.shapes(4)[::3]), seeds_only=True, **pg))
        kv = [(1,), (2,), (3,), (1,), (2,), (3,)]
        srt = [([None, 0, 0, 0, None, None], [(1,), (1,), (2,), (3,), (2,), (3,)], None), ([None] * 3, kv[:3], [1, 2, 1]),
               ([None, 0, 1, 1, 0], [(2,), (1,), (1,), (2,), (3,)], None)]
        js.append(Job(name[:2] + "Sort", adapter=name[:2] + "Sort", seeds=srt, seeds_only=True, **pg))
        rev = [([None, 0, 0, 0, None], [(3,), (3,), (2,), (1,), (2,)], None), ([None] * 3, [(3,), (2,), (1,)], None)]
        js.append(Job(name[:2] + "SortD", adapter=name[:2] + "SortD", seeds=rev, seeds_only=True, **pg))
    js.append(Job("MPTen", adapter="MPTen", seeds=[([None] * 9, None, None), J.KIDS9, J.TEN_END] + [(F.shape_parents(s), None, None) for s in F.shapes(4)], seeds_only=True, chunk=1))
    js.append(Job("MPTiny-histories", adapter="MPTiny", bounds={"n": 4}, reach=("append", "left", "delete")))
    few = [(F.shape_parents(s), None, None) for s in F.shapes(4)]
    js.append(Job("MPStd-icu", engine="icu", adapter="MPStd", seeds=few + [J.SEEDS[0], J.MIX], seeds_only=True))
    js.append(Job("LTStd-icu", engine="icu", adapter="LTStd", seeds=few, raw=J.LT_RAW, seeds_only=True))
    js.append(Job("MPAscii", adapter="MPAscii", seeds=spread(F.shapes(3) + F.shapes(4)[::3]), seeds_only=True))
    js.append(Job("MPMixed", engine="pg", adapter="MPMixed", seeds=[(F.shape_parents(s), None, g) for s in F.shapes(3) + F.shapes(4)[::3] for g in (None, (1, 0, 0, 0))] + [([None] * 5, None, None)], seeds_only=True))
    js.append(Job("MPDef", adapter="MPDef", seeds=spread(F.shapes(3) + F.shapes(4)[::3]), seeds_only=True))
    return js


def initial(job):
    return treeops.expand_seed(job)


def expand(job, state):
    reach = getattr(job, "reach", ())
    ad = treeops.get_adapter(job.adapter)
    out = treeops.expand(job, state, (), reach)
    model = treeops.driver(job)
    with Scratch():
        ad.restore(state)
        rows = ad.read()
        f = ad.forest(rows)
        calls = nav.sweep(
            ad, model, f, rows, lambda what, msg: out.violation(("read", what), f"{what} {msg}; tree {f.show({k: v['desc'] for k, v in rows.items()})}"),
            pairs=len(f.par) <= 9, compose=not reach and len(f.par) <= 4,
        )  # fmt: skip
        after = ad.read()
        if after != rows:
            out.violation(("read", "all"), "reading changed the stored tree")
        out.n += calls
        out.stats["reads"] += calls
        out.notes.add((len(f.par), len(f.roots), max([f.depth(i) for i in f.par], default=0)))
    return out


replay = treeops.replay
