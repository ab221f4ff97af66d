"""C13: concurrent appends keep the tree correct (every interleaving of real transactions)."""

import itertools

from django.db import Error, transaction

from vf import forest as F
from vf import ops as O
from vf import sched, treeops
from vf.adapters import Malformed
from vf.explore import Job, Out

ID = "C13"
TRACE_STRICT = False
ASSUMPTIONS = [
    "PostgreSQL at READ COMMITTED (Django's default); transactions interleave between SQL statements, what PostgreSQL does inside one statement is trusted.",
    "A transaction reads its target node before the others start, so it may work from a stale object; a second sweep in the thorough tier reads it inside the transaction.",
    "Sleep sets prune interleavings that differ only in commuting steps; the Full jobs run every interleaving without that pruning and compare the set of outcomes.",
]
EXPLANATION = (
    "A state is a stored tree with the operations of two or three transactions; a transition is one complete interleaved execution on PostgreSQL. "
    "schedules counts the distinct interleavings, pruned those cut short by sleep sets, steps the SQL statements released by the scheduler, "
    "diverged the re-executions in which PostgreSQL did not offer the recorded choice."
)

ONE = [(), (None,), (None, 0), (None, 0, 0), (None, None)]
TWO = [(None, 0, None), (None, None, 1, 1), (None, 0, 1), (None, 0, 0, 2)]


def jobs(tier):
    big = tier == "thorough"
    js = []
    for k in ("MP", "NS", "AL", "LT"):
        js.append(Job(k + "-pairs", engine="pg", adapter=k + "Std", trees=ONE + TWO, width=2, chunk=1))
        js.append(Job(k + "-same", engine="pg", adapter=k + "Std", trees=ONE + TWO[:2] if big else ONE[1:4], width=3, same=True, chunk=1))
        js.append(Job(k + "-twice", engine="pg", adapter=k + "Std", trees=ONE[1:4] if big else ONE[1:3], width=2, same=True, twice=True, chunk=1))
        js.append(Job(k + "-sorted", engine="pg", adapter=k + "Sort", trees=ONE[1:4], width=2, same=True, chunk=1))
        js.append(Job(k + "-full", engine="pg", adapter=k + "Std", trees=ONE if big else ONE[1:3], width=2, same=not big, full=True, chunk=1))
        if big:
            js.append(Job(k + "-fresh", engine="pg", adapter=k + "Std", trees=ONE + TWO, width=2, fresh=True, chunk=1))
            js.append(Job(k + "-uuid", engine="pg", adapter=k + "Uuid", trees=ONE + TWO, width=2, chunk=1))
            js.append(Job(k + "-sorted3", engine="pg", adapter=k + "Sort", trees=ONE[1:4], width=3, same=True, chunk=1))
            if k != "NS":
                js.append(Job(k + "-trios", engine="pg", adapter=k + "Std", trees=[(), (None,), (None, 0, None)], width=3, chunk=1))
    return js


def allowed(kind, f, ops):
    """Combinations the library is meant to survive (see DESIGN.md)."""
    gone = {o[1] for o in ops if o[0] == "del"}
    if sum(o[0] == "del" for o in ops) != len(gone):
        return False  # the same node deleted twice
    for o in ops:
        if o[0] in ("child", "sib") and gone & {o[1], *f.ancestors(o[1])}:
            return False
    if kind == "NS":
        # one parent, or parents in different trees; nothing else is protected
        if any(o[0] != "child" for o in ops):
            return False
        ts = {o[1] for o in ops}
        return len(ts) == 1 or len({f.root(t) for t in ts}) == len(ops)
    return True


def initial(job):
    ad = treeops.get_adapter(job.adapter)
    out = []
    vals = [(1,), (3,)] if ad.keys else [()]
    for parents in job.trees:
        f = F.Forest.from_parents([(i, p) for i, p in enumerate(parents)])
        n = len(parents)
        kids = [("child", t, "k", v) for t in range(n) for v in vals]
        if getattr(job, "same", False):
            alpha = kids
        else:
            alpha = [("root", "k", ()), *kids, *[("del", i) for i in range(n) if not f.ch[i]]]
            if ad.kind in ("MP", "LT"):
                alpha += [("sib", i, "last-sibling", "k", ()) for i in range(n)]
        payload = [(2 * (1 + sum(q == p for q in parents[:i])),) for i, p in enumerate(parents)] if ad.keys else None
        st = ad.build(list(parents), payload)
        for ops in itertools.combinations_with_replacement(alpha, job.width):
            if not allowed(ad.kind, f, ops):
                continue
            if getattr(job, "same", False) and len({o[1] for o in ops}) > 1:
                continue
            per = 2 if getattr(job, "twice", False) else 1
            out.append((st, tuple((o,) * per for o in ops)))
    return out


_pool = {}


def expand(job, state):
    st, txns = state
    ad = treeops.get_adapter(job.adapter)
    model = treeops.driver(job)
    out = Out()
    if "p" not in _pool:
        _pool["p"] = sched.Pool(3)
    pool = _pool["p"]
    ad.clear()
    with transaction.atomic():
        pks = ad.restore(st)
    before = ad.read()
    f = ad.forest(before)
    names = {pk: d["desc"] for pk, d in before.items()}
    ops = [o for t in txns for o in t]
    same = all(o[0] == "child" for o in ops) and len({o[1] for o in ops}) == 1
    # in unsorted trees only a parent row or a unique path keeps appends apart; roots of AL have neither
    loose = ad.kind == "AL" and any(o[0] == "root" for o in ops)
    outcomes = set()

    def reset():
        with transaction.atomic():
            ad.clear()
            ad.restore(st)

    def mk(i, txn):
        objs = {}
        if not getattr(job, "fresh", False):
            objs = {o[1]: model.objects.get(pk=pks[o[1]]) for o in txn if o[0] != "root"}

        def one(k, o):
            t = None
            if o[0] != "root":
                t = objs.get(o[1]) or model.objects.get(pk=pks[o[1]])
            if o[0] == "root":
                return model.objects.add_root(O.kwargs_for(ad, o[2], f"t{i}.{k}")).pk
            if o[0] == "child":
                return model.objects.add_child(t, O.kwargs_for(ad, o[3], f"t{i}.{k}")).pk
            if o[0] == "sib":
                return model.objects.add_sibling(t, o[2], O.kwargs_for(ad, o[4], f"t{i}.{k}")).pk
            t.delete()
            return None

        def body():
            if len(txn) == 1:
                return [one(0, txn[0])]
            with transaction.atomic():
                return [one(k, o) for k, o in enumerate(txn)]

        return body

    def judge(steps, results):
        want = {}
        removed = []
        for i, (kind, r) in enumerate(results):
            if kind == "exc":
                if not isinstance(r, Error):
                    return f"transaction {i} raised {type(r).__name__}: {r}"
                if same:
                    return f"transaction {i} failed with {type(r).__name__}: {r}, although the parent row keeps appends apart"
                continue
            for k, (o, pk) in enumerate(zip(txns[i], r)):
                if o[0] == "del":
                    removed.append(pks[o[1]])
                else:
                    parent = None if o[0] == "root" else pks[o[1]] if o[0] == "child" else f.par[pks[o[1]]]
                    want[f"t{i}.{k}"] = (parent, pk, o[-1])
        if all(kind == "exc" for kind, _ in results):
            return "every transaction failed: " + "; ".join(str(r) for _, r in results)
        rows = ad.read()
        ties = False
        if loose:
            roots = [d for d in rows.values() if d[ad.pcol] is None]
            ties = len({d["sib_order"] for d in roots}) < len(roots)
            for n, d in enumerate(roots):
                d["sib_order"] = n
        try:
            g = ad.forest(rows)
        except Malformed as e:
            return f"the stored tree is malformed: {e}"
        new = {d["desc"]: pk for pk, d in rows.items() if pk not in before}
        if len(new) != len(set(rows) - set(before)) or set(new) != set(want):
            return f"acknowledged {sorted(want)}, stored {sorted(d['desc'] for pk, d in rows.items() if pk not in before)}"
        h = f.copy()
        h.remove(removed)
        if set(before) - set(rows) != set(f.par) - set(h.par):
            return f"nodes {[names[p] for p in set(before) - set(rows)]} disappeared"
        for d, (parent, pk, vals) in want.items():
            if new[d] != pk or g.par[pk] != parent or g.ch[pk] or ad.payload(rows[pk]) != tuple(vals[: len(ad.keys)]):
                return f"node {d} is not where, or not what, it was acknowledged to be"
        for p in [None, *h.par]:
            old = [x for x in g.kids(p) if x in before]
            if loose and p is None:
                if sorted(map(str, old)) != sorted(map(str, h.kids(p))):
                    return "roots changed"
                continue
            if old != h.kids(p):
                return f"children of {names.get(p)} changed their order"
            if not ad.order_by and g.kids(p)[: len(old)] != old:
                return f"a new child of {names.get(p)} is not last"
        if ad.order_by and not O.ordered_ok(ad, g, rows):
            return "siblings are not in order"
        try:
            O.payload_unchanged(before, rows, ("desc", *ad.keys))
        except O.Bad as e:
            return e.what
        if ad.kind in ("MP", "NS") and any(model.objects.find_problems()):
            return f"find_problems reports {model.objects.find_problems()}"
        if not loose and ad.kind != "AL" and [x.pk for x in model.objects.get_tree()] != g.dfs():
            return "get_tree() differs from the stored tree"
        outcomes.add((tuple(k if k == "ok" else type(r).__name__ for k, r in results), g.show({pk: d["desc"] for pk, d in rows.items()}), ties))
        return None

    def fresh():
        return [mk(i, t) for i, t in enumerate(txns)]

    stats, bad, steps = sched.explore(pool, reset, fresh, judge)
    if getattr(job, "full", False) and not bad:
        reduced = set(outcomes)
        more, bad, steps = sched.explore(pool, reset, fresh, judge, reduce=False)
        stats = {k: stats.get(k, 0) + more.get(k, 0) for k in {*stats, *more}}
        if not bad and len(reduced) != len(outcomes):
            raise RuntimeError(f"the reduction lost outcomes: {outcomes - reduced} of {state}")
    out.n += stats["schedules"] + stats["pruned"]
    out.stats.update({k: v for k, v in stats.items() if v})
    out.notes |= {(r, t) for r, _, t in outcomes}
    if bad:
        out.violation(("schedule", [(i, sql[:60]) for i, sql in steps]), bad)
    ad.clear()
    return out
