"""C12: replaying the tree signals keeps an external copy of the tree columns in step."""

from vf import jobs as J
from vf import ops as O
from vf import treeops
from vf.adapters import Malformed, Scratch
from vf.explore import Job, Out

ID = "C12"
TRACE_STRICT = False
ASSUMPTIONS = [
    "The copy holds path and depth (materialized paths), tree_id, lft, rgt and depth (nested sets), path (ltree); "
    "numchild is not carried by any signal. post_save supplies the columns of the saved object itself; post_delete is "
    "not used, so nodes_deleted alone has to name every deleted node."
]

COLS = {"MP": ("path", "depth"), "NS": ("tree_id", "lft", "rgt", "depth"), "LT": ("path",)}
_m = {"copy": None}


def jobs(tier):
    big = tier == "thorough"
    n = {"MP": 4, "NS": 4}
    js = J.plain(tier, n=n, pos={"MP": 4 if big else 3, "NS": 4}, small=3, seeds=J.SMALLSEEDS, lt_chars="0AB" if big else "0A")
    js = [j for j in js if j.adapter[:2] != "AL"]
    js += J.sorted_(tier, n=3, kinds=("MP", "NS", "LT"), two=big)
    for j in js:
        j.ops = ("insert1", "move", "delete", "qdelete")
        if getattr(j, "seeds", None) or j.bounds.get("n", 9) > 3 and not big:
            j.ops = ("insert1", "move", "delete")
    js.append(Job("MPStdChild", adapter="MPStd", via="MPStdProxy", bounds={"n": 3, "pos": 3}, ops=("insert1", "move", "qdelete")))
    js.append(Job("NSStdChild", adapter="NSStd", via="NSStdProxy", bounds={"n": 3, "pos": 3}, ops=("insert1", "move", "qdelete")))
    return js


def initial(job):
    connect()
    return treeops.expand_seed(job)


# -------------------------------------------------------------- the mirror
def connect():
    if _m.get("on"):
        return
    _m["on"] = True
    from django.db.models.signals import post_save

    from treebeard import mp_tree, ns_tree

    post_save.connect(saved, weak=False)

    def on(sig, fn):
        def handler(sender, using, signal, **kw):
            if _m["copy"] is None:
                return
            _m["count"] += 1
            if using != "default":
                _m["odd"].append(f"{fn.__name__}: using={using}")
            if sender is not _m["model"]:
                _m["odd"].append(f"{fn.__name__}: sender {sender.__name__}")
            if _m["ad"].kind == "LT":
                from treebeard.ltree import PathValue

                for k, v in kw.items():
                    if not all(isinstance(p, PathValue) for p in (v if k == "paths_to_remove" else [v])):
                        _m["odd"].append(f"{fn.__name__}: {k}={v!r} instead of PathValue")
            fn(_m["copy"], **kw)

        sig.connect(handler, weak=False)
        _m.setdefault("keep", []).append(handler)

    on(mp_tree.path_updated, path_updated)
    on(mp_tree.nodes_deleted, mp_deleted)
    on(ns_tree.gap_altered, gap_altered)
    on(ns_tree.tree_ids_incremented, tree_ids_incremented)
    on(ns_tree.subtree_moved, ns_moved)
    on(ns_tree.nodes_deleted, ns_deleted)
    try:
        from treebeard import ltree
    except ImportError:
        return
    on(ltree.subtree_moved_right, moved_right)
    on(ltree.subtree_moved, lt_moved)
    on(ltree.nodes_deleted, lt_deleted)


def saved(sender, instance, raw=False, **kw):
    ad = _m.get("ad")
    if _m["copy"] is None or not hasattr(instance, "TREEBEARD_IDENTIFYING_FIELD"):
        return
    c = {k: getattr(instance, k) for k in COLS[ad.kind]}
    if ad.kind == "LT":
        c["path"] = str(c["path"])
    _m["copy"][instance.pk] = c


def path_updated(copy, old_path, new_path):
    for c in copy.values():
        if c["path"].startswith(old_path):
            c["path"] = new_path + c["path"][len(old_path) :]
            c["depth"] += (len(new_path) - len(old_path)) // _m["ad"].base.steplen


def mp_deleted(copy, pks_to_remove, paths_to_remove):
    for pk in [pk for pk, c in copy.items() if pk in pks_to_remove or any(c["path"].startswith(p) for p in paths_to_remove)]:
        del copy[pk]


def gap_altered(copy, tree_id, start_index, offset):
    for c in copy.values():
        if c["tree_id"] == tree_id:
            for k in ("lft", "rgt"):
                if c[k] >= start_index:
                    c[k] += offset


def tree_ids_incremented(copy, min_tree_id):
    for c in copy.values():
        if c["tree_id"] >= min_tree_id:
            c["tree_id"] += 1


def ns_moved(copy, tree_id, lft, rgt, target_tree_id, index_offset, depth_offset):
    for c in copy.values():
        if c["tree_id"] == tree_id and c["lft"] >= lft and c["rgt"] <= rgt:
            c.update(tree_id=target_tree_id, lft=c["lft"] + index_offset, rgt=c["rgt"] + index_offset, depth=c["depth"] + depth_offset)


def ns_deleted(copy, removed_ranges):
    for pk in [
        pk for pk, c in copy.items() if any(t == c["tree_id"] and a <= c["lft"] and c["rgt"] <= b for t, a, b in removed_ranges)
    ]:
        del copy[pk]


def parts(p):
    return str(p).split(".")


def moved_right(copy, path):
    p = parts(path)
    k = len(p) - 1
    for c in copy.values():
        q = parts(c["path"])
        if q[:k] == p[:k] and len(q) > k and q[k] >= p[k]:
            q[k] += "A"
            c["path"] = ".".join(q)


def lt_moved(copy, old_path, new_path):
    o, n = parts(old_path), parts(new_path)
    for c in copy.values():
        q = parts(c["path"])
        if q[: len(o)] == o:
            c["path"] = ".".join(n + q[len(o) :])


def lt_deleted(copy, paths_to_remove):
    ps = [parts(p) for p in paths_to_remove]
    for pk in [pk for pk, c in copy.items() if any(parts(c["path"])[: len(p)] == p for p in ps)]:
        del copy[pk]


# ----------------------------------------------------------------- expand
def expand(job, state):
    connect()
    ad = treeops.get_adapter(job.adapter)
    model = treeops.driver(job)
    cols = COLS[ad.kind]
    out = Out()
    b = job.bounds
    with Scratch() as sc:
        pks = ad.restore(state)
        before = ad.read()
        f = ad.forest(before)
        oplist = list(treeops.enumerate_ops(ad, job, len(pks), job.ops))
        if ad.kind == "MP":
            oplist += [("fix", None)] + [("fix", i) for i in range(len(pks))]
        if getattr(job, "seeds_only", False) is False and len(pks) <= 3:
            oplist += [("load", None)] + [("load", i) for i in range(len(pks))]
        for op in oplist:
            with sc.probe():
                _m.update(
                    ad=ad, model=model.objects.tree_model, odd=[], count=0, copy={pk: {k: d[k] for k in cols} for pk, d in before.items()}
                )
                try:
                    outcome = run(ad, model, op, pks)
                    copy = _m["copy"]
                finally:
                    _m["copy"] = None
                out.n += 1
                if outcome[0] == "exc":
                    continue  # nothing happened (C07, C08, C14); the copy is only told of what is committed
                rows = ad.read()
                try:
                    g = ad.forest(rows)
                except Malformed:
                    out.stats["malformed"] += 1  # C05 judges this
                    continue
                want = {pk: {k: d[k] for k in cols} for pk, d in rows.items()}
                if copy != want:
                    d = {pk: (copy.get(pk), want.get(pk)) for pk in {*copy, *want} if copy.get(pk) != want.get(pk)}
                    out.violation(op, f"copy and stored columns differ (copy, stored): {list(d.values())}")
                elif _m["odd"]:
                    out.violation(op, f"signal arguments: {_m['odd']}")
                out.notes.add((op[0], _m["count"]))
                out.stats["signals"] += _m["count"]
                s2 = ad.canon(rows, g)
                if op[0] not in ("fix", "load") and s2 != state and not getattr(job, "seeds_only", False) and ad.in_bounds(s2, b):
                    out.succ.append((s2, op))
    return out


def run(ad, model, op, pks):
    if op[0] not in ("fix", "load"):
        return O.run(ad, model, op, pks)
    parent = None if op[1] is None else model.objects.get(pk=pks[op[1]])
    try:
        if op[0] == "fix":
            return ("ok", model.objects.fix_tree(fix_paths=True, parent=parent), {})
        kw = dict.fromkeys(ad.keys, 2)
        data = [
            {"data": {"desc": "a", **kw}, "children": [{"data": {"desc": "b", **kw}}, {"data": {"desc": "c", **dict.fromkeys(ad.keys, 1)}}]},
            {"data": {"desc": "d", **dict.fromkeys(ad.keys, 1)}},
        ]
        return ("ok", model.objects.load_bulk(data, parent), {})
    except Exception as e:  # noqa: BLE001
        return ("exc", e)


replay = treeops.replay
