"""C15: the objects given to and returned by add/move describe the tree as it is afterwards."""

import copy

from vf import forest as F
from vf import ops as O
from vf import treeops
from vf.adapters import Malformed, Scratch
from vf.explore import Job
from vf.jobs import MIX, MIXGAP

ID = "C15"


def jobs(tier):
    big = tier == "thorough"
    k = 1 if big else 0
    two = None if big else ((1,), (2,))
    J = [
        Job("MPStd", adapter="MPStd", bounds={"n": 3 + k, "pos": 4}),
        Job("MPTiny", adapter="MPTiny", bounds={"n": 3 + k}),
        Job("NSStd", adapter="NSStd", bounds={"n": 4, "pos": 3 + k}),
        Job("ALStd", adapter="ALStd", bounds={"n": 3 + k, "pos": 4}),
        Job("LTStd", engine="pg", adapter="LTStd", bounds={"n": 3, "lab": 2, "chars": "0AB" if big else "0A"}),
        Job("MPSort", adapter="MPSort", bounds={"n": 2 + k, "pos": 3}, vals=two),
        Job("NSSort", adapter="NSSort", bounds={"n": 2 + k, "pos": 3}, vals=two),
        Job("ALSort", adapter="ALSort", bounds={"n": 2 + k, "pos": 3}, vals=two),
        Job("LTSort", engine="pg", adapter="LTSort", bounds={"n": 2, "lab": 1 + k, "chars": "0AB"}, vals=two),
    ]
    for name in ("MPStd", "NSStd", "ALStd", "LTStd"):
        J.append(
            Job(name + "-seeds", engine="pg" if name == "LTStd" else "sqlite", adapter=name, seeds=[MIX, MIXGAP],
                seeds_only=True, chunk=1)
        )
        pg = {"engine": "pg"} if name == "LTStd" else {}
        shapes = [(F.shape_parents(s), None, None) for i in range(1, 5 if big else 4) for s in F.shapes(i)]
        J.append(Job(name + "-warm", adapter=name, seeds=shapes, seeds_only=True, chunk=1, warm=True, **pg))
        keyed = [(p, ascending(p, pat), None) for p in ([None, None], [None, 0], [None, 0, 1], [None, 0, None], [None, 0, 0]) for pat in ((1, 3), (2, 2))]
        J.append(Job(name[:2] + "Sort-warm", adapter=name[:2] + "Sort", seeds=keyed, seeds_only=True, chunk=1, warm=True, **pg))
    return J


def ascending(p, pat):
    """Ascending keys within each list of siblings."""
    cnt, pay = {}, []
    for q in p:
        cnt[q] = cnt.get(q, -1) + 1
        pay.append((pat[min(cnt[q], len(pat) - 1)],))
    return pay


def initial(job):
    return treeops.expand_seed(job)


def after(ad, model, f, before, op, pks, outcome, g, rows):
    if outcome[0] == "exc":
        O.undisturbed(ad, before, outcome[2])
        return
    if op[0] not in ("root", "child", "sib", "move"):
        return
    for role, obj in outcome[2].items():
        want = {k: rows[obj.pk][k] for k in ad.phys}
        got = O.position_of(ad, obj)
        if got != want:
            raise O.Bad(f"{role}: object says {got}, stored {want}")
        if obj.get_depth() != g.depth(obj.pk):
            raise O.Bad(f"{role}: get_depth() is {obj.get_depth()}, expected {g.depth(obj.pk)}")
        if obj.is_leaf() != (not g.ch[obj.pk]) or obj.is_root() != (g.par[obj.pk] is None):
            raise O.Bad(f"{role}: is_leaf/is_root are wrong")
        p = model.objects.get_parent(obj)
        if (p and p.pk) != g.par[obj.pk]:
            raise O.Bad(f"{role}: get_parent() is {p and p.pk}, expected {g.par[obj.pk]}")
        if [c.pk for c in model.objects.get_children(obj)] != g.ch[obj.pk] and not ad.order_by:
            raise O.Bad(f"{role}: get_children() is not {g.ch[obj.pk]}")


DRIFT = {"numchild", "rgt"}


def drifted(job, state, out):
    """add_child to an object that was read before other calls added, moved or removed nodes below it.

    Only where nothing but the target's own child count or right bound has changed meanwhile.
    """
    ad = treeops.get_adapter(job.adapter)
    model = treeops.driver(job)
    v = () if not ad.keys else (1,) * len(ad.keys)
    with Scratch(ad.alias) as sc:
        pks = ad.restore(state)
        before0 = ad.read()
        f0 = ad.forest(before0)
        n = len(pks)
        for op in treeops.enumerate_ops(ad, job, n, ("insert1", "move", "delete")):
            with sc.probe():
                outcome = O.run(ad, model, op, pks)
                if outcome[0] != "ok":
                    continue
                before = ad.read()
                try:
                    f = ad.forest(before)
                except Malformed:
                    continue  # judged above
                order = ad.order(before, f)
                for i in range(n):
                    if pks[i] not in before:
                        continue
                    old, now = before0[pks[i]], before[pks[i]]
                    if any(old[k] != now[k] for k in ad.phys if k not in DRIFT) or old == now:
                        continue
                    with sc.probe():
                        # what the object held: the row as it was
                        obj = model.objects.get(pk=pks[i])
                        for k in DRIFT & set(ad.phys):
                            setattr(obj, k, old[k])
                        op2 = ("child", order.index(pks[i]), "k", v)
                        outcome2 = O.run(ad, model, op2, order, fetch=lambda _, obj=obj: obj)
                        out.n += 1
                        try:
                            g, rows = O.judge(ad, model, f, before, op2, order, outcome2)
                            if outcome2[0] == "ok":  # refused, it says what it said before
                                after(ad, model, f, before, op2, order, outcome2, g, rows)
                        except O.Bad as e:
                            out.violation(["after", op, "add_child to the object read before", i], e.what)


def touch(mgr, obj):
    """Make the object remember what it can."""
    obj.get_depth(), obj.is_leaf(), obj.is_root()
    p = mgr.get_parent(obj)
    if p:
        p.get_depth()
        mgr.get_parent(p)
    mgr.get_root(obj), list(mgr.get_ancestors(obj)), list(mgr.get_children(obj)), list(mgr.get_siblings(obj))


def bystanders(job, state, out):
    """Objects read before an operation and used by none of it: exact again once refreshed.

    Those whose row the operation left alone need no refreshing to be the target of another one.
    """
    ad = treeops.get_adapter(job.adapter)
    model = treeops.driver(job)
    mgr = model.objects
    v = () if not ad.keys else (1,) * len(ad.keys)
    with Scratch(ad.alias) as sc:
        pks = ad.restore(state)
        before0 = ad.read()
        n = len(pks)
        for op in treeops.enumerate_ops(ad, job, n, ("insert1", "move", "delete")):
            with sc.probe():
                objs = {pk: mgr.get(pk=pk) for pk in pks}
                for o in objs.values():
                    touch(mgr, o)
                outcome = O.run(ad, model, op, pks)
                if outcome[0] != "ok":
                    continue
                before = ad.read()
                try:
                    f = ad.forest(before)
                except Malformed:
                    continue  # judged above
                order = ad.order(before, f)
                calm = [pk for pk in pks if pk in before and before[pk] == before0[pk]]
                for pk in calm:
                    i = order.index(pk)
                    seconds = [("child", i, "k", v)]
                    seconds += [("sib", i, pos, "k", v) for pos in (("sorted-sibling",) if ad.order_by else ("left", "last-sibling"))]
                    seconds += [("move", j, i, pos) for j in range(len(order)) if j != i for pos in (("sorted-child", "sorted-sibling") if ad.order_by else ("first-child", "right"))]
                    for op2 in seconds:
                        with sc.probe():
                            obj = copy.deepcopy(objs[pk])
                            outcome2 = O.run(ad, model, op2, order, fetch=lambda k, obj=obj, i=i: obj if k == i else mgr.get(pk=order[k]))
                            out.n += 1
                            try:
                                g, rows = O.judge(ad, model, f, before, op2, order, outcome2)
                                after(ad, model, f, before, op2, order, outcome2, g, rows)
                            except O.Bad as e:
                                out.violation(["after", op, op2, "on the object read before", pks.index(pk)], e.what)
                for pk in calm:
                    out.n += 1
                    obj = copy.deepcopy(objs[pk])
                    p = mgr.get_parent(obj, update=True)
                    if (p and p.pk) != f.par[pk] or p and O.position_of(ad, p) != {k: before[p.pk][k] for k in ad.phys}:
                        out.violation(["bystander", op, pks.index(pk), "get_parent(update=True)"], f"returned {p and (p.pk, O.position_of(ad, p))}, stored {before.get(f.par[pk])}")
                    depth = obj.get_depth(update=True) if ad.kind == "AL" else obj.get_depth()
                    if depth != f.depth(pk):
                        out.violation(["bystander", op, pks.index(pk), "get_depth(update=True)"], f"returned {depth}, expected {f.depth(pk)}")
                for pk in pks:
                    if pk not in before:
                        continue
                    out.n += 1
                    try:
                        objs[pk].refresh_from_db()
                        after(ad, model, f, before, ("move",), order, ("ok", None, {f"refreshed bystander {pks.index(pk)}": objs[pk]}), f, before)
                    except O.Bad as e:
                        out.violation(["bystander", op, pks.index(pk)], e.what)


def expand(job, state):
    out = treeops.expand(job, state, ("insert", "move"), ("delete",), after=after)
    if len(state) <= 4 and DRIFT & set(treeops.get_adapter(job.adapter).phys):
        drifted(job, state, out)
    if getattr(job, "warm", False):
        bystanders(job, state, out)
    return out


replay = treeops.replay
