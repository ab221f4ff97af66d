"""C21: deprecated node methods behave as the manager methods that replace them."""

import warnings

from vf import forest as F
from vf import treeops
from vf.adapters import Scratch
from vf.explore import Job, Out

ID = "C21"
TRACE_STRICT = False
ASSUMPTIONS = ["The list of deprecated entry points is the one of the 6.0.0 release notes and the four MP_*Handler classes."]

POS = ("first-sibling", "left", "right", "last-sibling", "sorted-sibling", "first-child", "last-child", "sorted-child", "bogus", None)


def jobs(tier):
    big = tier == "thorough"
    std = [(F.shape_parents(s), None, None) for k in range(5 if big else 4) for s in F.shapes(k)]
    few = [([None, 0, 0, None, 3], None, None)]
    key = [([None, 0, 0, None], [(1,), (1,), (3,), (2,)], None)]
    js = []
    for k in ("MP", "NS", "AL", "LT"):
        pg = {"engine": "pg"} if k == "LT" else {}
        js.append(Job(k + "Std", adapter=k + "Std", seeds=std + few, chunk=1, **pg))
        js.append(Job(k + "Sort", adapter=k + "Sort", seeds=key, chunk=1, **pg))
        js.append(Job(k + "Proxy", adapter=k + "Std", via=k + "StdProxy", seeds=few, chunk=1, **pg))
        js.append(Job(k + "Child", adapter=k + "Std", via=k + "StdChild", seeds=few, child=True, chunk=1, **pg))
    # something for fix_tree and find_problems to find
    js.append(
        Job("MP-broken", adapter="MPStd", seeds=[], raw=[
            (("001", 1, 2), ("001002", 2, 0), ("003", 2, 0), ("003001", 1, 1)),
            (("002", 1, 0), ("002002", 2, 1), ("002002005", 3, 7), ("004", 1, 0)),
        ], chunk=1)
    )  # fmt: skip
    return js


def initial(job):
    return treeops.expand_seed(job)


def reads(model, parents):
    """(name, classmethod?, arguments) of every deprecated call that only reads."""
    for p in parents:  # None or a function that fetches a fresh object
        for name in ("get_tree", "dump_bulk", "get_annotated_list", "get_descendants_group_count", "find_problems"):
            yield name, True, [] if p is None else [p], {}
            if p is not None:
                yield name, True, [], {"parent": p}
        for d in (1, 2):
            yield "get_tree", True, [p], {"max_depth": d}
            yield "get_annotated_list", True, [p, d], {}
        yield "dump_bulk", True, [p], {"keep_ids": False}
        yield "dump_bulk", True, [p, False], {}
    for name in ("get_root_nodes", "get_first_root_node", "get_last_root_node"):
        yield name, True, [], {}
    yield "get_annotated_list_qs", True, [lambda: model.objects.get_tree()], {}
    yield "get_annotated_list_qs", True, [], {"qs": lambda: model.objects.get_tree()}
    for name in (
        "get_children", "get_children_count", "get_siblings", "get_descendants", "get_descendant_count", "get_first_child",
        "get_last_child", "get_first_sibling", "get_last_sibling", "get_prev_sibling", "get_next_sibling", "get_root",
        "get_parent", "get_ancestors",
    ):  # fmt: skip
        yield name, False, [], {}
    for d in (1, 2):
        yield "get_descendants", False, [], {"max_depth": d}
        yield "get_descendants", False, [True, d], {}
        yield "get_descendant_count", False, [], {"max_depth": d}
    yield "get_descendants", False, [], {"include_self": True}
    yield "get_descendants", False, [True], {}
    yield "get_parent", False, [], {"update": True}
    yield "get_parent", False, [True], {}


def norm(x, known):
    from django.db.models import Model, QuerySet

    if isinstance(x, Model):
        d = {k: str(v) for k, v in x.__dict__.items() if not k.startswith("_") and k not in ("id", "uuid") and "ptr" not in k}
        return (type(x).__name__, x.pk if x.pk in known else "new" if x.pk is not None else None, tuple(sorted(d.items())))
    if isinstance(x, QuerySet):
        return ("queryset", x.model.__name__, [norm(i, known) for i in x])
    if isinstance(x, dict):
        return {k: norm(v, known) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [type(x).__name__, *(norm(i, known) for i in x)]
    return x


class Pair:
    def __init__(self, out, ad, sc, model, known):
        self.out, self.ad, self.sc, self.model, self.known = out, ad, sc, model, known

    def run(self, name, call, handles):
        with self.sc.probe(), warnings.catch_warnings(record=True) as seen:
            warnings.simplefilter("always")
            hs = [h() if callable(h) else h for h in handles]
            try:
                res = call(*hs)
                if name == "load_bulk":  # primary keys the database made up
                    res = [pk if pk in self.known else "new" for pk in res]
                res = norm(res, self.known)
            except Exception as e:  # noqa: BLE001
                res = ("raised", type(e).__name__, str(e))
            rows = self.ad.read()
            # new nodes have no telling primary key
            stored = sorted((str(pk) if pk in self.known else "new", sorted((k, str(v)) for k, v in d.items())) for pk, d in rows.items())
            if self.ad.kind == "AL":
                stored = [(p, [(k, v if k != "parent_id" or v == "None" or any(str(x) == v for x in self.known) else "new") for k, v in d]) for p, d in stored]
            mem = [norm(h, self.known) for h in hs]
        from treebeard.deprecation import RemovedInTreebeard8Warning

        said = [str(w.message) for w in seen if issubclass(w.category, RemovedInTreebeard8Warning)]
        return res, stored, mem, said

    def compare(self, op, name, old, new, handles):
        out = self.out
        out.n += 1
        a = self.run(name, old, handles)
        b = self.run(name, new, handles)
        out.notes.add((name, a[0][1] if isinstance(a[0], tuple) and a[0][0] == "raised" else type(a[0]).__name__))
        for what, x, y in zip(("result", "stored tree", "objects passed in"), a, b):
            if x != y:
                out.violation(op, f"{what} of the deprecated call: {x}; of the manager call: {y}")
                return
        if not any(name in s for s in a[3]):
            out.violation(op, f"no removal warning that names {name}: {a[3]}")


def expand(job, state):
    ad = treeops.get_adapter(job.adapter)
    model = treeops.driver(job)
    out = Out()
    with Scratch() as sc:
        pks = ad.restore(state)
        if getattr(job, "child", False):
            treeops.child_rows(ad, model, pks)
        get = lambda pk: lambda: model.objects.get(pk=pk)  # noqa: E731
        pair = Pair(out, ad, sc, model, set(pks))
        walk(job, ad, model, pks, get, pair)
    return out


def split(args, kw):
    """Handles first; rebuild the call from them."""
    hs = [*args, *kw.values()]

    def make(*h):
        return list(h[: len(args)]), dict(zip(kw, h[len(args) :]))

    return hs, make


def walk(job, ad, model, pks, get, pair):
    parents = [None] + [get(pk) for pk in pks]
    index = {id(p): i for i, p in enumerate(parents)}
    label = lambda x: ("node", index[id(x)] - 1) if id(x) in index and x is not None else x if not callable(x) else "qs"  # noqa: E731

    for name, isclass, args, kw in reads(model, parents):
        hs, make = split(args, kw)
        op = (name, [label(a) for a in args], {k: label(v) for k, v in kw.items()})
        if isclass:
            pair.compare(
                op, name, lambda *h: getattr(model, name)(*make(*h)[0], **make(*h)[1]),
                lambda *h: getattr(model.objects, name)(*make(*h)[0], **make(*h)[1]), hs,
            )  # fmt: skip
            for g in parents[1:2]:  # also reachable through an instance
                pair.compare(
                    ("instance", *op), name, lambda *h: getattr(g(), name)(*make(*h)[0], **make(*h)[1]),
                    lambda *h: getattr(model.objects, name)(*make(*h)[0], **make(*h)[1]), hs,
                )  # fmt: skip
        else:
            for i, g in enumerate(parents[1:]):
                pair.compare(
                    (*op, "of", i), name, lambda o, *h: getattr(o, name)(*make(*h)[0], **make(*h)[1]),
                    lambda o, *h: getattr(model.objects, name)(o, *make(*h)[0], **make(*h)[1]), [g, *hs],
                )  # fmt: skip

    kw = {"desc": "new", **dict.fromkeys(ad.keys, 2)}
    fresh = lambda: model(**kw)  # noqa: E731
    m = model.objects
    forms = [  # what is given, as the deprecated keyword arguments and as the manager's
        ("kwargs", lambda i: dict(kw), lambda i: {"create_kwargs": dict(kw)}, None),
        ("nothing", lambda i: {}, lambda i: {"create_kwargs": {}}, None),
        ("instance", lambda i: {"instance": i}, lambda i: {"instance": i}, fresh),
        ("both", lambda i: {"instance": i, **kw}, lambda i: {"instance": i, "create_kwargs": dict(kw)}, fresh),
    ]
    if pks:
        forms.append(("saved", lambda i: {"instance": i}, lambda i: {"instance": i}, get(pks[0])))
    handlers = ad.kind == "MP"
    if handlers:
        from treebeard import mp_tree as MT
    nothing = lambda: None  # noqa: E731
    for how, old, new, inst in forms:
        pair.compare(("add_root", how), "add_root", lambda i: model.add_root(**old(i)), lambda i: m.add_root(**new(i)), [inst or nothing])
        if handlers:
            pair.compare(
                ("MP_AddRootHandler", how), "add_root", lambda i: MT.MP_AddRootHandler(model, **old(i)).process(),
                lambda i: m.add_root(**new(i)), [inst or nothing],
            )  # fmt: skip
        for k, g in enumerate(parents[1:]):
            hs = [g, inst or nothing]
            pair.compare(("add_child", k, how), "add_child", lambda o, i: o.add_child(**old(i)), lambda o, i: m.add_child(o, **new(i)), hs)
            if handlers:
                pair.compare(
                    ("MP_AddChildHandler", k, how), "add_child", lambda o, i: MT.MP_AddChildHandler(o, old(i)).process(),
                    lambda o, i: m.add_child(o, **new(i)), hs,
                )  # fmt: skip
            for pos in POS:
                pair.compare(
                    ("add_sibling", k, pos, how), "add_sibling", lambda o, i: o.add_sibling(pos, **old(i)),
                    lambda o, i: m.add_sibling(o, pos, **new(i)), hs,
                )  # fmt: skip
                if handlers:
                    pair.compare(
                        ("MP_AddSiblingHandler", k, pos, how), "add_sibling",
                        lambda o, i: MT.MP_AddSiblingHandler(o, pos, old(i)).process(),
                        lambda o, i: m.add_sibling(o, pos, **new(i)), hs,
                    )  # fmt: skip
            pair.compare(
                ("add_sibling", k, how, "no position"), "add_sibling", lambda o, i: o.add_sibling(**old(i)),
                lambda o, i: m.add_sibling(o, **new(i)), hs,
            )  # fmt: skip
    for a, ga in enumerate(parents[1:]):
        for t, gt in enumerate(parents[1:]):
            for pos in POS:
                pair.compare(("move", a, t, pos), "move", lambda x, y: x.move(y, pos), lambda x, y: m.move(x, y, pos), [ga, gt])
                if handlers:
                    pair.compare(
                        ("MP_MoveHandler", a, t, pos), "move", lambda x, y: MT.MP_MoveHandler(x, y, pos).process(),
                        lambda x, y: m.move(x, y, pos), [ga, gt],
                    )  # fmt: skip
            pair.compare(("move", a, t), "move", lambda x, y: x.move(target=y), lambda x, y: m.move(x, y), [ga, gt])
    data = [{"data": {**kw, "desc": "a"}, "children": [{"data": {**kw, "desc": "b"}}]}, {"data": {**kw, "desc": "c"}}]
    withid = [dict(data[1], **{model._meta.pk.attname: 5})]
    if job.adapter == "MPStd":
        pair.compare(("load_bulk", "bulk_create"), "load_bulk", lambda: model.load_bulk(data, bulk_create=True), lambda: m.load_bulk(data, bulk_create=True), [])
    for k, g in enumerate(parents):
        hs = [g or nothing]
        pair.compare(("load_bulk", k - 1), "load_bulk", lambda p: model.load_bulk(data, p), lambda p: m.load_bulk(data, p), hs)
        if not ad.uuid:
            pair.compare(
                ("load_bulk", k - 1, "keep_ids"), "load_bulk", lambda p: model.load_bulk(withid, parent=p, keep_ids=True),
                lambda p: m.load_bulk(withid, parent=p, keep_ids=True), hs,
            )  # fmt: skip
        for fp in (False, True):
            pair.compare(
                ("fix_tree", k - 1, fp), "fix_tree", lambda p: model.fix_tree(fix_paths=fp, parent=p),
                lambda p: m.fix_tree(fix_paths=fp, parent=p), hs,
            )  # fmt: skip
    pair.compare(("fix_tree",), "fix_tree", lambda: model.fix_tree(), lambda: m.fix_tree(), [])
