"""C09: fix_tree repairs what it documents, keeps the rest, and is idempotent (materialized paths)."""

import itertools

from vf import forest as F
from vf import ops as O
from vf import treeops
from vf.adapters import Malformed, Scratch
from vf.explore import Job, Out

ID = "C09"
TRACE_STRICT = False


def corruptions(ad, good, most):
    """States with up to `most` rows whose depth and numchild are wrong in every listed way."""
    out = [good]
    for k in range(1, most + 1):
        for rows in itertools.combinations(range(len(good)), k):
            opts = []
            for i in rows:
                p, d, c, *rest = good[i]
                opts.append([(p, x, y, *rest) for x in sorted({d, d + 1, d - 1, 0}) if x >= 0
                             for y in sorted({c, c + 1, max(c - 1, 0), 0}) if (x, y) != (d, c)])
            for combo in itertools.product(*opts):
                st = list(good)
                for i, r in zip(rows, combo):
                    st[i] = r
                out.append(tuple(st))
    return out


GAPS = [None, (1, 0, 2, 0, 1, 0, 0, 1), (0, 2, 1, 1, 0, 3, 1, 0)]


def jobs(tier):
    big = tier == "thorough"
    return [
        Job("MPStd-3", adapter="MPStd", shapes=[s for n in (0, 1, 2, 3) for s in F.shapes(n)], most=3 if big else 2),
        Job("MPStd-4", adapter="MPStd", shapes=F.shapes(4), most=2 if big else 1),
        Job("MPStd-5", adapter="MPStd", shapes=F.shapes(5) + (F.shapes(6) if big else []), most=1 if big else 0),
        Job("MPDef", adapter="MPDef", shapes=F.shapes(3), most=1),
        Job("MPTen", adapter="MPTen", shapes=F.shapes(3), most=1),
        Job("MPAscii", adapter="MPAscii", shapes=F.shapes(3), most=1),
        Job("MPMixed", engine="pg", adapter="MPMixed", shapes=F.shapes(2) + F.shapes(3)[:3], most=1, gaps=[None, (1, 0, 1, 0)]),
        Job("MPUuid", adapter="MPUuid", shapes=F.shapes(3), most=1),
        Job("MPTen-wide", adapter="MPTen", shapes=[((),) * 9, (((),) * 9,)], most=1, gaps=[None]),
        Job("MPStd-wide", adapter="MPStd", shapes=[((),) * 12, (((((((),),),),),),)], most=1, gaps=[None, (1,) * 60]),
        Job("MPStd-37", adapter="MPStd", shapes=[(((),) * 37, ())], most=0, gaps=[None, (1,) * 60], chunk=1),
        Job("MPSort-flat", adapter="MPSort", flat=4 if big else 3),
        Job("MPSort-tree", adapter="MPSort", flat=0),
        Job("MPSortD-flat", adapter="MPSortD", flat=3),
        Job("MPSortT-flat", adapter="MPSortT", flat=2),
        Job("MPSortT-icu-flat", engine="icu", adapter="MPSortT", flat=3 if big else 2),
        Job("MPSort2-flat", adapter="MPSort2", flat=3 if big else 2),
    ]


def initial(job):
    ad = treeops.get_adapter(job.adapter)
    out = []
    if hasattr(job, "shapes"):
        for s in job.shapes:
            p = F.shape_parents(s)
            for g in getattr(job, "gaps", GAPS):
                good = ad.build(p, None, None if g is None else list(g) + [0] * len(p))
                out += corruptions(ad, good, job.most)
        return out
    vals = ("a", "B", "b") if ad.keys == ["name"] else (1, 2, 3) if len(ad.keys) == 1 else (1, 2)
    keysets = [(v,) for v in vals] if len(ad.keys) == 1 else list(itertools.product(vals, vals))
    trees = []
    if job.flat:
        for k in range(2, job.flat + 1):
            trees += [[None] * k, [None] + [0] * k]
        trees.append([None, 0, 1, None])
    else:
        # two and three siblings at two levels: the lower level has to follow the upper one
        trees += [[None, 0, 0, None, 3, 3], [None, 0, 1, 0, None], [None, 0, 0, 2, 2]]
    for p in trees:
        choices = keysets if job.flat else keysets[:2]
        for pay in itertools.product(choices, repeat=len(p)):
            for g in (None, [1, 0, 1, 0, 2, 0, 0]):
                good = ad.build(p, pay, g)
                out.append(good)
                if g is None and len(p) <= 3:
                    out.append(tuple((r[0], 0, 0, *r[3:]) for r in good))
    return out


def truth(ad, state):
    """The state with exact depth and numchild, from the paths alone."""
    step = ad.base.steplen
    kids = {}
    for r in state:
        kids[r[0][:-step]] = kids.get(r[0][:-step], 0) + 1
    return tuple((r[0], len(r[0]) // step, kids.get(r[0], 0), *r[3:]) for r in state)


def expand(job, state):
    ad = treeops.get_adapter(job.adapter)
    model = treeops.driver(job)
    out = Out()
    good = truth(ad, state)
    step = ad.base.steplen
    with Scratch() as sc:
        pks = ad.restore(good)
        f = ad.forest(ad.read())
    with Scratch() as sc:
        pks = ad.restore(state)
        before = ad.read()
        where = {pk: i for i, pk in enumerate(pks)}
        healthy = {pk: dict(before[pk], depth=good[i][1], numchild=good[i][2]) for pk, i in where.items()}
        for t in [None, *range(len(pks))]:
            if t is not None and state[t] != good[t]:
                continue  # the parent has to be valid itself
            root = "" if t is None else state[t][0]
            inside = {pk for pk, d in before.items() if d["path"].startswith(root)}
            below = {pk for pk in inside if before[pk]["path"] != root}
            for fix_paths in (False, True):
                op = ("fix_tree", t, fix_paths)
                with sc.probe():
                    out.n += 1
                    try:
                        parent = None if t is None else model.objects.get(pk=pks[t])
                        model.objects.fix_tree(fix_paths=fix_paths, parent=parent)
                    except Exception as e:  # noqa: BLE001
                        out.violation(op, f"raised {type(e).__name__}: {e}")
                        continue
                    rows = ad.read()
                    bad = judge(ad, f, before, healthy, rows, inside, below, fix_paths, step)
                    if bad:
                        out.violation(op, bad)
                        continue
                    out.notes.add((fix_paths, t is None, rows == before, len(below)))
                    try:
                        parent = None if t is None else model.objects.get(pk=pks[t])
                        model.objects.fix_tree(fix_paths=fix_paths, parent=parent)
                        out.n += 1
                    except Exception as e:  # noqa: BLE001
                        out.violation(op, f"repeating it raised {type(e).__name__}: {e}")
                        continue
                    again = ad.read()
                    if again != rows and (not fix_paths or not ties(ad, f, rows)):
                        out.violation(op, f"repeating it changed the tree: {ad.canon(rows)} -> {ad.canon(again)}")
    return out


def ties(ad, f, rows):
    if not ad.order_by:
        return False
    return any(
        len({ad.payload(rows[x]) for x in f.kids(p)}) < len(f.kids(p)) for p in [None, *f.ch]
    )


def judge(ad, f, before, healthy, rows, inside, below, fix_paths, step):
    if set(rows) != set(before):
        return "nodes appeared or disappeared"
    for pk, d in before.items():
        if pk not in inside and rows[pk] != d:
            return f"node outside the branch changed: {d} -> {rows[pk]}"
        for k in ("desc", *ad.keys):
            if rows[pk][k] != d[k]:
                return f"field {k} changed"
    if not fix_paths:
        for pk in inside:
            if rows[pk] != healthy[pk]:
                return f"{before[pk]} became {rows[pk]}, expected {healthy[pk]}"
        return None
    # what lies outside may still be wrong: judge as if it were not
    view = {pk: (rows[pk] if pk in inside else healthy[pk]) for pk in rows}
    try:
        g = ad.forest(view)
    except Malformed as e:
        return f"tree is malformed afterwards: {e}"
    if g.par != f.par:
        return "a node changed its parent"
    for p in [None, *f.ch]:
        kids = [x for x in g.kids(p)]
        if not kids or not set(kids) <= below:
            continue
        pos = list(ad.positions([(rows[x]["path"],) for x in kids]))
        if pos != list(range(1, len(kids) + 1)):
            return f"holes are left: positions {pos}"
        if not ad.order_by and kids != f.kids(p):
            return f"siblings changed their order: {f.kids(p)} -> {kids}"
        keys = [ad.payload(rows[x]) for x in kids]
        if ad.order_by and any(ad.key_less(b, a) for a, b in zip(keys, keys[1:])):
            return f"siblings are not in the order of node_order_by: {keys}"
    for pk in inside - below:
        if rows[pk]["path"] != before[pk]["path"]:
            return "the parent itself was moved"
    return None


def replay(job, start, ops, target):
    """A corrupt state has no history of its own; its healthy version has."""
    ad = treeops.get_adapter(job.adapter)
    if ad.order_by:
        return "skip"  # the API would sort it
    return treeops.replay(job, truth(ad, start), (), None)
