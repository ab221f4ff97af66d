"""C08: a full materialized-path tree raises PathOverflow or works, and is never corrupted."""

import itertools

from vf import ops as O
from vf import treeops
from vf.adapters import Malformed, Scratch
from vf.explore import Job
from vf.forest import shapes

ID = "C08"

LOADS = [s for n in (1, 2, 3) for s in shapes(n)] + [((), (), (), ()), ((), ((), (), ())), ((((),),),), ((((((),),),),),)]


def universe(digits, step, levels, limit=99, keyed=False):
    """Every well-formed set of paths with the given step names and levels, at most `limit` nodes."""

    def forests(prefix, level):
        if level > levels:
            return [()]
        per = []
        for d in digits:
            p = prefix + d
            per.append([()] + [((p, level, sub),) for sub in forests(p, level + 1)])
        return [tuple(itertools.chain.from_iterable(c)) for c in itertools.product(*per)]

    def rows(nodes):
        out = []
        for p, level, sub in nodes:
            out.append((p, level, len(sub)))
            out += rows(sub)
        return out

    all_ = [tuple(sorted(rows(f))) for f in forests("", 1)]
    return [s for s in all_ if len(s) <= limit]


def keyed(states):
    """Sorted trees: every assignment of keys 1..2 that ascends among siblings."""
    out = []
    for s in states:
        groups = {}
        for i, r in enumerate(s):
            groups.setdefault(r[0][:-1], []).append(i)
        options = []
        for g in groups.values():
            options.append([dict(zip(g, [1] * k + [2] * (len(g) - k))) for k in range(len(g) + 1)])
        for c in itertools.product(*options):
            keys = {k: v for d in c for k, v in d.items()}
            out.append(tuple((*r, keys[i]) for i, r in enumerate(s)))
    return out


def drifted():
    out = []
    for keys in itertools.product((1, 2, 3), repeat=3):
        out.append(tuple((d, 1, 0, k) for d, k in zip("123", keys)))
        kids = tuple(("1" + d, 2, 0, k) for d, k in zip("123", keys))
        out.append((("1", 1, 3, 2), *kids, ("2", 1, 0, 1)))
        if len(set(keys)) == 3:
            out.append((("1", 1, 3, 1), *kids, *((d, 1, 0, k) for d, k in zip("23", (3, 2)))))
            out.append(tuple(r for d, k in zip("123", keys) for r in ((d, 1, 1, k), (d + "2", 2, 0, 1))))
    for keys in itertools.product((1, 2), repeat=2):
        out.append(tuple((d, 1, 0, k) for d, k in zip("23", keys)))
    return out


FULL = tuple(sorted([("1", 1, 3), ("11", 2, 0), ("12", 2, 0), ("13", 2, 0), ("2", 1, 0), ("3", 1, 1), ("31", 2, 0)]))


def jobs(tier):
    big = tier == "thorough"
    full3 = [s for s in universe("12", 1, 3) if len(s) > 12]
    J = [
        Job("MPCap2", adapter="MPCap2", raw=universe("123", 1, 2, 12 if big else 5), seeds=[], seeds_only=True),
        Job("MPCap3", adapter="MPCap3", raw=universe("12", 1, 3, 14 if big else 5) + ([] if big else full3), seeds=[], seeds_only=True),
        Job("MPCapB", adapter="MPCapB", raw=universe(("01", "10", "11"), 2, 2, 12 if big else 5), seeds=[], seeds_only=True),
        Job("MPCapS", adapter="MPCapS", raw=keyed(universe("123", 1, 2, 6 if big else 3)) + keyed([FULL])[::1 if big else 7], seeds=[], vals=((1,), (2,)), seeds_only=True),
        Job("MPTen", adapter="MPTen", seeds=[([None] * 9, None, None), ([None] + [0] * 9, None, None), ([None, 0, 0, None], None, [7, 7, 0, 0])], seeds_only=True, chunk=1),
    ]
    full = [("1", 1, 3), ("11", 2, 0), ("12", 2, 0), ("13", 2, 0), ("2", 1, 3), ("21", 2, 0), ("22", 2, 0), ("23", 2, 0), ("3", 1, 2), ("31", 2, 0), ("33", 2, 0)]
    # full levels whose keys are out of order: fix_tree has no free step to put a node aside
    J.append(Job("MPCapS-fix", adapter="MPCapS", raw=drifted(), seeds=[], seeds_only=True, fix_only=True))
    J.append(Job("MPCap2-full", adapter="MPCap2", raw=[tuple(full)], seeds=[], seeds_only=True, chunk=1))
    return J


def initial(job):
    return treeops.expand_seed(job)


def structure(shape, ad):
    kw = {"desc": O.NEW, **dict.fromkeys(ad.keys, 2)}
    return [{"data": dict(kw), **({"children": structure(c, ad)} if c else {})} for c in shape]


def height(shape):
    return 1 + max((height(c) for c in shape), default=0)


def width(shape):
    """Largest number of children below the top level."""
    return max([len(c) for c in shape] + [width(c) for c in shape], default=0)


def outline(g, i):
    return tuple(outline(g, c) for c in g.ch[i])


def loads(job, ad, model, sc, pks, before, f, out):
    m = ad.base
    cap = len(m.alphabet) ** m.steplen - 1
    maxlen = m._meta.get_field("path").max_length
    for t in [None, *range(len(pks))]:
        parent = None if t is None else pks[t]
        kids = f.kids(parent)
        depth = 0 if t is None else f.depth(parent)
        last = next(ad.positions([(before[kids[-1]]["path"],)])) if kids else 0
        for shape in LOADS:
            fits_depth = (depth + height(shape) - 1) * m.steplen <= maxlen
            fits = fits_depth and last + len(shape) <= cap and width(shape) <= cap
            must_fail = not fits_depth or width(shape) > cap or len(kids) + len(shape) > cap
            for bulk in (False, True):
                op = ("load", t, shape, bulk)
                with sc.probe():
                    out.n += 1
                    exc = None
                    try:
                        obj = None if t is None else model.objects.get(pk=parent)
                        model.objects.load_bulk(structure(shape, ad), obj, **({"bulk_create": True} if bulk else {}))
                    except Exception as e:  # noqa: BLE001
                        exc = e
                    rows = ad.read()
                    out.notes.add(("load", bulk, fits, must_fail, type(exc).__name__))
                    if exc is not None:
                        if type(exc).__name__ != "PathOverflow":
                            out.violation(op, f"raised {type(exc).__name__}: {exc}, expected PathOverflow or success")
                        elif rows != before:
                            out.violation(op, "raised PathOverflow but the stored tree changed")
                        elif fits:
                            out.violation(op, f"raised PathOverflow although there is room: {exc}")
                        continue
                    if must_fail:
                        out.violation(op, "accepted although the structure does not fit; PathOverflow expected")
                        continue
                    try:
                        g = ad.forest(rows)
                    except Malformed as e:
                        out.violation(op, f"stored tree is malformed afterwards: {e}")
                        continue
                    old = [x for x in g.kids(parent) if x in before]
                    new = [x for x in g.kids(parent) if x not in before]
                    if old != kids or any(g.ch[x] != f.ch[x] for x in f.ch if x != parent):
                        out.violation(op, "existing nodes changed place")
                    elif not ad.order_by and g.kids(parent) != old + new:
                        out.violation(op, "loaded nodes are not after the existing children")
                    elif sorted(outline(g, x) for x in new) != sorted(shape_of(shape)):
                        out.violation(op, "the loaded branch does not have the shape of the structure")
                    elif not ad.order_by and [outline(g, x) for x in new] != list(shape_of(shape)):
                        out.violation(op, "the loaded branch does not have the order of the structure")


def shape_of(shape):
    return tuple(shape_of(c) for c in shape)


def fixes(job, ad, model, sc, pks, before, f, out):
    for t in [None, *range(len(pks))]:
        op = ("fix_tree", t)
        with sc.probe():
            out.n += 1
            exc = None
            try:
                obj = None if t is None else model.objects.get(pk=pks[t])
                model.objects.fix_tree(fix_paths=True, parent=obj)
            except Exception as e:  # noqa: BLE001
                exc = e
            rows = ad.read()
            if exc is not None:
                if type(exc).__name__ != "PathOverflow":
                    out.violation(op, f"raised {type(exc).__name__}: {exc}")
                elif rows != before:
                    out.violation(op, "raised PathOverflow but the stored tree changed")
                continue
            try:
                g = ad.forest(rows)
                if not (g == f if not ad.order_by else tidied(ad, f, g, rows, None if t is None else pks[t])):
                    out.violation(op, "fix_tree changed the shape of the tree, or left children in the wrong order")
            except Malformed as e:
                out.violation(op, f"stored tree is malformed afterwards: {e}")


def tidied(ad, f, g, rows, top):
    """Sorted trees: parents as before, children of `top` and below it in order, the others where they were."""
    if g.par != f.par:
        return False
    for p in [None, *f.ch]:
        inside = top is None or p is not None and (p == top or top in f.ancestors(p))
        kids = [ad.payload(rows[i]) for i in g.kids(p)]
        if any(ad.key_less(b, a) for a, b in zip(kids, kids[1:])) if inside else g.kids(p) != f.kids(p):
            return False
    return True


def refused(ad, model, f, before, op, pks, outcome, g, rows):
    if outcome[0] == "exc":
        O.undisturbed(ad, before, outcome[2])


def expand(job, state):
    ad = treeops.get_adapter(job.adapter)
    model = treeops.driver(job)
    fix_only = getattr(job, "fix_only", False)
    out = treeops.expand(job, state, () if fix_only else ("insert1", "move"), (), after=refused)
    with Scratch() as sc:
        pks = ad.restore(state)
        before = ad.read()
        f = ad.forest(before)
        if not fix_only:
            loads(job, ad, model, sc, pks, before, f, out)
        fixes(job, ad, model, sc, pks, before, f, out)
    return out


TRACE_STRICT = False

replay = treeops.replay
