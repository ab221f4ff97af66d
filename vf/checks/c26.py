"""C26: nodes are ordinary Django objects: however one was loaded, copied, saved or restored, the tree is the same."""

import copy
import os
import pickle
import shutil
import tempfile

from vf import forest as F
from vf import nav, treeops
from vf import ops as O
from vf.adapters import Malformed, Scratch
from vf.explore import Job, Out

ID = "C26"
TRACE_STRICT = False  # a seed that the API builds differently is the business of C01 to C05
ASSUMPTIONS = [
    "Saving is judged on objects that are up to date; saving a stale object writes its old position back, as the caveats say.",
]

FORMATS = ("json", "jsonl", "xml", "python")


def seeds(sizes):
    out = []
    for n in sizes:
        for k, s in enumerate(F.shapes(n)):
            p = F.shape_parents(s)
            out.append((p, None, None))
            if n > 2 and k % 2:
                out.append((p, None, [(i * 3 + 1) % 4 for i in range(n)]))
    return out


def jobs(tier):
    big = tier == "thorough"
    js = []
    for k in ("MP", "NS", "AL", "LT"):
        pg = {"engine": "pg"} if k == "LT" else {}
        js.append(Job(k + "Std", adapter=k + "Std", seeds=seeds(range(0, 5 if big else 4)), chunk=1, **pg))
        js.append(Job(k + "Std-big", adapter=k + "Std", seeds=[([None, 0, 1, 1, 0, None, 5, 5], None, None)], writes=True, chunk=1, **pg))
        key = [([None, 0, 0, None], [(2,), (1,), (3,), (4,)], None), ([None, None, 1], [(1,), (2,), (2,)], None)]
        js.append(Job(k + "Sort", adapter=k + "Sort", seeds=key, chunk=1, **pg))
        js.append(Job(k + "Uuid", adapter=k + "Uuid", seeds=seeds((3,)) if big else seeds((3,))[2:4], chunk=1, **pg))
        js.append(Job(k + "Child", adapter=k + "Std", via=k + "StdChild", seeds=seeds((3,)) if big else seeds((3,))[2:5], child=True, chunk=1, **pg))
        js.append(Job(k + "Proxy", adapter=k + "Std", via=k + "StdProxy", seeds=seeds((3,))[2:3], chunk=1, **pg))
    js.append(Job("MPMixed", engine="pg", adapter="MPMixed", seeds=seeds((3,))[2:4], chunk=1))
    js.append(Job("MPDef", adapter="MPDef", seeds=seeds((3,))[2:4], chunk=1))
    return js


def initial(job):
    return treeops.expand_seed(job)


def ways(ad, model, dep):
    """Name -> function that hands out the node with a primary key."""
    from django.db.models import Value

    mgr = model.objects
    tree = [f.name for f in ad.base._meta.concrete_fields if f.name in ("path", "depth", "numchild", "lft", "rgt", "tree_id", "parent", "sib_order")]
    get = lambda pk: mgr.get(pk=pk)  # noqa: E731
    table, pkcol = model._meta.db_table, model._meta.pk.column

    def raw(pk):
        return mgr.raw(f"SELECT {pkcol} FROM {table} WHERE {pkcol} = %s", [ad.dbpk(pk)])[0]

    def partly(pk):
        o = mgr.only("desc").get(pk=pk)
        o.refresh_from_db(fields=["desc"])
        return o

    def reread(pk):
        o = get(pk)
        o.is_leaf(), o.get_depth()
        mgr.get_parent(o)
        o.refresh_from_db()
        return o

    yield "only(desc)", lambda pk: mgr.only("desc").get(pk=pk)
    yield "only(pk)", lambda pk: mgr.only("pk").get(pk=pk)
    yield "defer(tree fields)", lambda pk: mgr.defer(*tree).get(pk=pk)
    yield "defer(one tree field)", lambda pk: mgr.defer(tree[0]).get(pk=pk)
    yield "raw()", raw
    yield "partly refreshed", partly
    yield "refreshed", reread
    yield "pickled", lambda pk: pickle.loads(pickle.dumps(get(pk)))
    yield "pickled and deferred", lambda pk: pickle.loads(pickle.dumps(mgr.only("desc").get(pk=pk)))
    yield "copy.copy()", lambda pk: copy.copy(get(pk))
    yield "copy.deepcopy()", lambda pk: copy.deepcopy(get(pk))
    yield "in_bulk()", lambda pk: mgr.in_bulk([pk])[pk]
    yield "iterator()", lambda pk: next(x for x in mgr.iterator() if x.pk == pk)
    yield "annotate()", lambda pk: mgr.annotate(vf_extra=Value(1)).get(pk=pk)
    yield "pickled queryset", lambda pk: next(iter(pickle.loads(pickle.dumps(mgr.filter(pk=pk)))))
    yield "_base_manager", lambda pk: model._base_manager.get(pk=pk)
    if dep is not None and model is ad.model:
        yield "foreign key", lambda pk: dep.objects.get(node_id=pk).node
        yield "select_related()", lambda pk: dep.objects.select_related("node").get(node_id=pk).node
        yield "prefetch_related()", lambda pk: dep.objects.prefetch_related("node").get(node_id=pk).node


def saves(ad, model, dep):
    """Name -> function that writes `desc` of the node with a primary key to "other" in an ordinary Django way."""
    mgr = model.objects

    def saved(how, **kw):
        def f(pk):
            o = how(pk)
            o.desc = "other"
            o.save(**kw)

        return f

    def asked(pk):
        o = mgr.get(pk=pk)
        mgr.get_parent(o), mgr.get_children_count(o), o.get_depth(), list(mgr.get_ancestors(o))
        o.desc = "other"
        o.save()

    def cleaned(pk):
        o = mgr.get(pk=pk)
        o.desc = "other"
        o.full_clean(exclude=["parent", "extra"])  # not declared with blank=True; parent is not in the docs either
        o.save()

    def bulk(pk):
        o = mgr.get(pk=pk)
        o.desc = "other"
        mgr.bulk_update([o], ["desc"])

    yield "an object asked about its place, save()", asked
    yield "full_clean() and save()", cleaned
    yield "bulk_update()", bulk
    yield "save(force_update=True)", saved(lambda pk: mgr.get(pk=pk), force_update=True)
    yield "save(update_fields=)", saved(lambda pk: mgr.get(pk=pk), update_fields=["desc"])
    if len(model._meta.concrete_model._meta.parents) == 0:  # a raw save leaves the parents' tables alone
        yield "save_base(raw=True)", lambda pk: _raw(mgr.get(pk=pk))
    yield "update()", lambda pk: mgr.filter(pk=pk).update(desc="other")
    if ad.kind != "AL":
        yield "get_tree().update()", lambda pk: mgr.get_tree().filter(pk=pk).update(desc="other")
    yield "update_or_create()", lambda pk: mgr.update_or_create(pk=pk, defaults={"desc": "other"})
    for how, get in [("get()", lambda pk: mgr.get(pk=pk)), *ways(ad, model, dep)]:
        yield how + " and save()", saved(get)


def _raw(o):
    o.desc = "other"
    o.save_base(raw=True)


def expand(job, state):
    from vf.app import models as M

    ad = treeops.get_adapter(job.adapter)
    model = treeops.driver(job)
    dep = getattr(M, job.adapter[:2] + "Dep") if job.adapter.endswith("Std") else None
    child = getattr(job, "child", False)
    out = Out()
    with Scratch() as sc:
        pks = ad.restore(state)
        before = ad.read()
        f = ad.forest(before)
        names = {pk: d["desc"] for pk, d in before.items()}
        if child:
            treeops.child_rows(ad, model, pks)
        if dep is not None:
            dep.objects.bulk_create([dep(node_id=pk) for pk in pks])
        if not getattr(job, "writes", False):
            for how, get in ways(ad, model, dep):
                reads(out, ad, model, f, before, names, pks, how, get)
                operate(out, sc, ad, model, f, before, pks, how, get, child)
        for how, write in saves(ad, model, dep):
            for pk in pks:
                with sc.probe():
                    out.n += 1
                    want = {**before, pk: {**before[pk], "desc": "other"}}
                    try:
                        write(pk)
                    except Exception as e:  # noqa: BLE001
                        out.violation(("save", how, names[pk]), f"raised {type(e).__name__}: {e}; tree {f.show(names)}")
                        continue
                    rows = ad.read()
                    if rows != want:
                        diff = {names.get(i, i): (want.get(i), rows.get(i)) for i in {*want, *rows} if want.get(i) != rows.get(i)}
                        out.violation(("save", how, names[pk]), f"expected and stored rows differ: {diff}; tree {f.show(names)}")
        fixtures(out, sc, ad, model, f, before, names, pks, child)
        out.notes.add((job.adapter, len(pks), len(f.roots)))
    return out


def reads(out, ad, model, f, before, names, pks, how, get):
    report = lambda what, msg: out.violation(("read", how, what), f"{what} {msg}; tree {f.show(names)}")  # noqa: E731
    n = nav.Nav(ad, model.objects, f, report)
    n.names = names
    first = len(out.bad)
    for pk in f.dfs():
        try:
            n.node(get(pk), full=False)
            # each question is the first one somebody asks
            n.me = pk
            for what, call in (
                ("get_children_count", lambda: n.val("get_children_count()", lambda: model.objects.get_children_count(get(pk)), len(f.ch[pk]))),
                ("get_children", lambda: n.ids("get_children()", lambda: model.objects.get_children(get(pk)), f.ch[pk])),
                ("get_siblings", lambda: n.ids("get_siblings()", lambda: model.objects.get_siblings(get(pk)), f.siblings(pk))),
                ("get_ancestors", lambda: n.ids("get_ancestors()", lambda: model.objects.get_ancestors(get(pk)), f.ancestors(pk))),
                ("get_descendants", lambda: n.ids("get_descendants()", lambda: model.objects.get_descendants(get(pk)), f.descendants(pk))),
                ("get_descendant_count", lambda: n.val("get_descendant_count()", lambda: model.objects.get_descendant_count(get(pk)), len(f.descendants(pk)))),
                ("get_parent", lambda: n.one("get_parent()", lambda: model.objects.get_parent(get(pk)), f.par[pk])),
                ("get_root", lambda: n.one("get_root()", lambda: model.objects.get_root(get(pk)), f.root(pk))),
                ("is_leaf", lambda: n.val("is_leaf()", lambda: get(pk).is_leaf(), not f.ch[pk])),
                ("is_root", lambda: n.val("is_root()", lambda: get(pk).is_root(), f.par[pk] is None)),
                ("get_depth", lambda: n.val("get_depth()", lambda: get(pk).get_depth(), f.depth(pk))),
            ):
                call()
            for other in f.dfs():
                n.pair(get(pk), get(other))
        except Exception as e:  # noqa: BLE001
            out.violation(("read", how, names[pk]), f"raised {type(e).__name__}: {e}; tree {f.show(names)}")
        if len(out.bad) > first:
            break
    out.n += n.calls
    out.stats["reads"] += n.calls
    if ad.read() != before:
        out.violation(("read", how), f"reading changed the stored tree {f.show(names)}")


def operate(out, sc, ad, model, f, before, pks, how, get, child):
    vals = ((1,),) if ad.keys else ((),)
    ops = [o for o in O.insert_ops(ad, len(pks), styles=("k",), vals=vals) if o[0] != "root"]
    ops += [*O.move_ops(ad, len(pks)), *O.delete_ops(len(pks))]
    for op in ops:
        with sc.probe():
            out.n += 1
            outcome = O.run(ad, model, op, pks, fetch=lambda i: get(pks[i]))
            try:
                O.judge(ad, model, f, before, op, pks, outcome)
            except O.Bad as e:
                out.violation(("object from", how, op), e.what)


def fixtures(out, sc, ad, model, f, before, names, pks, child):
    """Serializing every row and loading the result into an empty table gives the same rows."""
    from django.core import serializers
    from django.core.management import call_command
    from django.db import connection

    models = [ad.base, model] if child else [ad.base]

    def wipe():
        with connection.cursor() as c:
            for m in reversed(models):
                c.execute(f"DELETE FROM {m._meta.db_table}")
            from vf.app import models as M

            dep = getattr(M, ad.model.__name__[:2] + "Dep", None)
            if dep is not None:
                c.execute(f"DELETE FROM {dep._meta.db_table}")

    def same(op):
        rows = ad.read()
        if rows != before:
            diff = {names.get(i, i): (before.get(i), rows.get(i)) for i in {*before, *rows} if before.get(i) != rows.get(i)}
            out.violation(op, f"written and loaded rows differ: {diff}; tree {f.show(names)}")
            return
        try:
            # and it is a tree one can go on with
            new = model.objects.add_root({"desc": "new", **dict.fromkeys(ad.keys, 9)})
            got = [x.pk for x in model.objects.get_tree()]
            want = f.dfs() + [new.pk]
            if got != want if not ad.order_by else set(got) != set(want):
                out.violation(op, f"get_tree() on the loaded rows returned {got}, expected {want}")
            if child and model._base_manager.count() != len(pks) + 1:
                out.violation(op, "the rows of the child class are not all there")
        except Exception as e:  # noqa: BLE001
            out.violation(op, f"the loaded tree cannot be used: {type(e).__name__}: {e}")

    orders = {"tree": f.dfs(), "reversed": f.dfs()[::-1], "pk": sorted(before, key=str)}
    for fmt in FORMATS:
        for order, ids in orders.items():
            for src in ("full", "deferred", "deep copies"):
                if src != "full" and order != "tree":
                    continue
                op = ("fixture", fmt, order, src)
                with sc.probe():
                    out.n += 1
                    try:
                        objs = []
                        for m in models:
                            get = m._base_manager.only("pk").get if src == "deferred" else m._base_manager.get
                            part = [get(pk=pk) for pk in ids]
                            objs += copy.deepcopy(part) if src == "deep copies" else part
                        data = serializers.serialize(fmt, objs)
                        wipe()
                        for o in serializers.deserialize(fmt, data):
                            o.save()
                    except Exception as e:  # noqa: BLE001
                        out.violation(op, f"raised {type(e).__name__}: {e}; tree {f.show(names)}")
                        continue
                    same(op)
    if len(pks) > 2:
        where = tempfile.mkdtemp(prefix="vf_fix_")
        try:
            for fmt in ("json", "xml"):
                op = ("dumpdata", fmt)
                with sc.probe():
                    out.n += 1
                    file = os.path.join(where, "tree." + fmt)
                    try:
                        call_command("dumpdata", *[m._meta.label for m in models], format=fmt, output=file, verbosity=0)
                        wipe()
                        call_command("loaddata", file, verbosity=0)
                    except Exception as e:  # noqa: BLE001
                        out.violation(op, f"raised {type(e).__name__}: {e}; tree {f.show(names)}")
                        continue
                    finally:
                        rewind(ad)
                    same(op)
        finally:
            shutil.rmtree(where, ignore_errors=True)


def rewind(ad):
    """loaddata moves PostgreSQL's sequences behind the loaded keys, and no rollback takes them back."""
    from django.db import connection

    if connection.vendor == "postgresql" and ad.bmeta.pk.get_internal_type().endswith("AutoField"):
        with connection.cursor() as c:
            c.execute("SELECT setval(pg_get_serial_sequence(%s, %s), 1, false)", [ad.bmeta.db_table, ad.bmeta.pk.column])


replay = treeops.replay
__all__ = ["Malformed", "expand", "initial", "jobs", "replay"]
