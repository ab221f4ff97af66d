"""C22: annotated lists describe nesting exactly."""

from vf import forest as F
from vf import jobs as J
from vf import treeops
from vf.adapters import Scratch
from vf.checks import c06
from vf.explore import Job

ID = "C22"
TRACE_STRICT = False  # a seed that the API builds differently is the business of C01 to C05


def jobs(tier):
    big = tier == "thorough"
    shapes = [s for n in range(0, 8 if big else 7) for s in F.shapes(n)]
    small = [s for n in range(0, 6) for s in F.shapes(n)]
    more = J.SEEDS + [J.BIG, ([None, 0, 1, 2, 3, 4, 5, 6, 0, 8, 9, None, 11, 12], None, None)]
    js = []
    for name in ("MPStd", "NSStd", "ALStd", "LTStd"):
        pg = {"engine": "pg"} if name == "LTStd" else {}
        raw = J.LT_RAW if name == "LTStd" else []
        flat = [(F.shape_parents(s), None, None) for s in shapes]
        js.append(Job(name + "-shapes", adapter=name, seeds=flat, seeds_only=True, **pg))
        js.append(Job(name + "-wide", adapter=name, seeds=more, raw=raw, seeds_only=True, chunk=1, **pg))
        js.append(Job(name + "-gaps", adapter=name, seeds=c06.spread(small), seeds_only=True, **pg))
    for k in ("MP", "NS", "AL", "LT"):
        pg = {"engine": "pg"} if k == "LT" else {}
        srt = [([None, 0, 0, 0, None, None], [(1,), (1,), (2,), (3,), (2,), (3,)], None), ([None] * 3, [(1,), (2,), (3,)], None)]
        js.append(Job(k + "Sort", adapter=k + "Sort", seeds=srt, seeds_only=True, **pg))
        js.append(Job(k + "Uuid", adapter=k + "Uuid", seeds=c06.spread(F.shapes(4)), seeds_only=True, **pg))
    return js


def initial(job):
    return treeops.expand_seed(job)


def expected(f, start, limit):
    """(id, open, close, level) for the branch at `start` (or the whole forest), cut below absolute depth `limit`."""
    out = []

    def go(ids, level):
        for k, i in enumerate(ids):
            entry = [i, k == 0, 0, level]
            out.append(entry)
            if limit is None or f.depth(i) < limit:
                go(f.ch[i], level + 1)
            if k == len(ids) - 1:
                out[-1][2] += 1

    go(f.roots if start is None else [start], 0)
    return out


def check(out, op, call, want, names):
    out.n += 1
    try:
        got = [(o.pk, bool(i["open"]), i["close"], i["level"]) for o, i in call()]
    except Exception as e:  # noqa: BLE001
        out.violation(op, f"{op[0]} raised {type(e).__name__}: {e}")
        return
    for _, _, c, _ in got:
        if list(c) != list(range(len(c))):
            out.violation(op, f"close list is {c}")
            return
    got = [[a, b, len(c), d] for a, b, c, d in got]
    if got != want:
        out.violation(
            op, f"{op}: (node, open, closes, level) is {[[names.get(g[0]), *g[1:]] for g in got]}, "
            f"expected {[[names.get(g[0]), *g[1:]] for g in want]}",
        )  # fmt: skip


def expand(job, state):
    ad = treeops.get_adapter(job.adapter)
    from vf.explore import Out

    out = Out()
    model = treeops.driver(job)
    with Scratch():
        ad.restore(state)
        rows = ad.read()
        names = {k: v["desc"] for k, v in rows.items()}
        f = ad.forest(rows)
        m = model.objects
        height = max([f.depth(i) for i in f.par], default=0)
        for start in [None, *f.dfs()]:
            obj = None if start is None else m.get(pk=start)
            who = names.get(start)
            base = 0 if start is None else f.depth(start)
            check(out, ("get_annotated_list", who), lambda: m.get_annotated_list(obj), expected(f, start, None), names)
            check(out, ("get_annotated_list_qs", who), lambda: m.get_annotated_list_qs(m.get_tree(obj)), expected(f, start, None), names)
            for d in range(max(1, base), height + 2):
                check(
                    out, ("get_annotated_list", who, "max_depth", d),
                    lambda: m.get_annotated_list(obj, max_depth=d), expected(f, start, d), names,
                )  # fmt: skip
            for d in range(1, height - base + 2):
                check(
                    out, ("get_annotated_list_qs", who, "max_depth", d),
                    lambda: m.get_annotated_list_qs(m.get_tree(obj, max_depth=d)), expected(f, start, base + d), names,
                )  # fmt: skip
        out.notes.add((len(f.par), height, len(f.roots)))
    return out


replay = treeops.replay
