"""C03: delete removes exactly the selected nodes and their descendants."""

from vf import forest as F
from vf import jobs as J
from vf import ops as O
from vf import treeops
from vf.adapters import Malformed, Scratch
from vf.explore import Job, Out

ID = "C03"
MIX4 = ([None, 0, 1, 1, None, 4], None, None)
KEYS3 = [((p, [(1 + i % 2,) for i in range(len(p))], None)) for p in ([None, 0, 0], [None, 0, 1], [None, None, 1])]


def jobs(tier):
    js = J.plain(tier, seeds=J.SMALLSEEDS)
    big = tier == "thorough"
    shapes = [(F.shape_parents(s), None, None) for n in range(5 if big else 4) for s in F.shapes(n)]
    more = [(F.shape_parents(s), None, None) for s in F.shapes(4)] if not big else [MIX4]
    for k in ("MP", "NS", "AL", "LT"):
        pg = {"engine": "pg"} if k == "LT" else {}
        js.append(Job(k + "Std-forms", adapter=k + "Std", seeds=shapes + more, seeds_only=True, forms=True, chunk=1, **pg))
        js.append(Job(k + "Std-proxy-forms", adapter=k + "Std", via=k + "StdProxy", seeds=shapes, seeds_only=True, forms=True, chunk=1, **pg))
        js.append(Job(k + "Rel-forms", adapter=k + "Rel", seeds=shapes, seeds_only=True, forms=True, chunk=1, **pg))
        js.append(Job(k + "Sort-forms", adapter=k + "Sort", seeds=KEYS3, seeds_only=True, forms=True, chunk=1, **pg))
        if big and k != "LT":
            js.append(Job(k + "Std-pg-forms", engine="pg", adapter=k + "Std", seeds=shapes, seeds_only=True, forms=True, chunk=1))
    return js


def initial(job):
    return treeops.expand_seed(job)


# ---------------------------------------------------------- rows that hang on nodes
def tables(ad):
    """Every model whose rows hang on the nodes of this tree: (label, model, column of the node)."""
    from django.apps import apps

    out = [(ad.base._meta.label, ad.base, ad.bmeta.pk.attname)]
    family = {ad.base}
    for m in apps.get_models(include_auto_created=True):
        if m._meta.proxy or m is ad.base:
            continue
        if issubclass(m, ad.base):
            family.add(m)
            out.append((m._meta.label, m, m._meta.pk.attname))
            continue
        for f in m._meta.local_fields:
            if f.remote_field and f.related_model._meta.concrete_model is ad.base:
                out.append((m._meta.label, m, f.attname))
                break
    return out


def furnish(ad, pks):
    """Two dependents for every node, child-class rows for every other one, tags where there are any."""
    from django.apps import apps

    from vf.app import models as M

    kind = ad.model.__name__[:2]
    has = {}
    if ad.model.__name__.endswith("Std"):
        dep = getattr(M, kind + "Dep")
        dep.objects.bulk_create([dep(node_id=pk) for pk in pks for _ in range(2)])
        has["join"] = dep._meta.model_name
        child = getattr(M, kind + "StdChild")
        treeops.child_rows(ad, child, pks[::2])
        grand = [m for m in apps.get_models() if child in m._meta.parents]
        for g in grand:
            treeops.child_rows(ad, g, pks[::4])
        has["sel"] = child._meta.model_name
        has["child"] = child
    elif ad.model.__name__.endswith("Rel"):
        tags = [M.Tag.objects.create(desc=f"t{i}") for i in range(2)]
        ad.base._base_manager.filter(pk__in=pks).update(tag=tags[0])
        through = ad.base.tags.through
        src = ad.base.tags.field.m2m_field_name() + "_id"
        through.objects.bulk_create([through(**{src: pk, "tag_id": t.pk}) for pk in pks for t in tags])
        has["join"] = "tags"
        has["sel"] = "tag"
        has["tag"] = tags[0]
    return has


def rows_of(ad, tabs):
    return {label: sorted((str(a), str(b)) for a, b in m._base_manager.order_by().values_list("pk", col)) for label, m, col in tabs}


def forms(ad, model, f, pks, has):
    """(name, selected pks, function that deletes them) for every way to say it."""
    from django.db.models import Count, Q

    mgr = model.objects
    n = len(pks)
    join, sel = has.get("join"), has.get("sel")
    fields = {"MP": ("path", "depth"), "NS": ("lft", "tree_id"), "AL": ("desc",), "LT": ("path",)}[ad.kind]
    for mask in range(1 << n):
        P = [pks[i] for i in range(n) if mask >> i & 1]
        rest = [p for p in pks if p not in P]
        S = tuple(i for i in range(n) if mask >> i & 1)
        qs = lambda P=P: mgr.filter(pk__in=P)  # noqa: E731
        alts = {
            "filter": qs,
            "reverse": lambda: qs().reverse(),
            "order": lambda: qs().order_by("-desc"),
            "distinct": lambda: qs().distinct(),
            "only": lambda: qs().only("desc"),
            "defer": lambda: qs().defer(*fields),
            "prefetch": lambda: qs().prefetch_related(join) if join == "tags" else qs().prefetch_related(f"{join}_set") if join else qs(),
            "exclude": lambda: mgr.exclude(pk__in=rest),
            "chain": lambda: mgr.filter(desc__startswith="n").exclude(pk__in=rest).filter(pk__in=pks),
            "subquery": lambda: mgr.filter(pk__in=qs().values("pk")),
            "q": lambda: mgr.filter(Q(pk__in=P[:1]) | Q(pk__in=P[1:])),
            "using": lambda: mgr.using(ad.alias).filter(pk__in=P),
            "lock": lambda: qs().select_for_update(),
        }
        if P:
            def ored():
                q = mgr.filter(pk=P[0])
                for p in P[1:]:
                    q = q | mgr.filter(pk=p)
                return q

            alts["or"] = ored
        if join:
            alts["join"] = lambda: mgr.filter(pk__in=P, **{f"{join}__isnull": False})
            alts["join-reverse"] = lambda: alts["join"]().reverse()
            alts["join-distinct"] = lambda: alts["join"]().distinct()
            alts["annotate"] = lambda: qs().annotate(cnt=Count(join))
            alts["having"] = lambda: qs().annotate(cnt=Count(join)).filter(cnt=2)
            alts["select_related"] = lambda: qs().select_related(sel)
        if "tag" in has:
            alts["related manager"] = lambda: getattr(has["tag"], f"{ad.base._meta.model_name}_set").filter(pk__in=P)
        if "child" in has:
            alts["child class"] = lambda: has["child"].objects.filter(pk__in=P)
        for name, make in alts.items():
            sel_pks = [p for p in P if p in pks[::2]] if name == "child class" else P
            yield (name, S), sel_pks, lambda make=make: make().delete()

        def used():
            q = qs()
            list(q)
            return q.delete()

        yield ("evaluated", S), P, used
    yield ("all",), pks, lambda: mgr.all().delete()
    yield ("none",), [], lambda: mgr.none().delete()
    yield ("roots",), f.roots, lambda: delq(mgr.get_root_nodes())
    yield ("tree",), pks, lambda: delq(mgr.get_tree())
    yield ("tree depth 1",), f.roots, lambda: delq(mgr.get_tree(max_depth=1))
    if "tag" in has:
        yield ("whole related manager",), pks, lambda: getattr(has["tag"], f"{ad.base._meta.model_name}_set").all().delete()
    for i, pk in enumerate(pks):
        get = lambda pk=pk: mgr.get(pk=pk)  # noqa: E731
        yield ("object", i), [pk], lambda: get().delete()
        yield ("deferred object", i), [pk], lambda: mgr.only("desc").get(pk=pk).delete()
        yield ("children", i), f.ch[pk], lambda: delq(mgr.get_children(get()))
        yield ("descendants", i), f.descendants(pk), lambda: delq(mgr.get_descendants(get()))
        yield ("descendants and self", i), [pk], lambda: delq(mgr.get_descendants(get(), include_self=True))
        yield ("siblings", i), f.siblings(pk), lambda: delq(mgr.get_siblings(get()))
        yield ("other siblings", i), [p for p in f.siblings(pk) if p != pk], lambda: delq(mgr.get_siblings(get()), lambda q: q.exclude(pk=pk))
        yield ("ancestors", i), f.ancestors(pk), lambda: delq(mgr.get_ancestors(get()))
        yield ("tree of", i), [pk], lambda: delq(mgr.get_tree(get()))
        yield ("children reversed", i), f.ch[pk], lambda: delq(mgr.get_children(get()), lambda q: q.reverse())
        yield ("descendants reversed", i), f.descendants(pk), lambda: delq(mgr.get_descendants(get()), lambda q: q.reverse())
        if ad.kind == "AL":
            yield ("children_set", i), f.ch[pk], lambda: get().children_set.all().delete()
        if "child" in has and i % 2 == 0:
            yield ("child object", i), [pk], lambda: has["child"].objects.get(pk=pk).delete()


class Skip(Exception):
    pass


def delq(x, also=lambda q: q):
    if not hasattr(x, "delete"):
        raise Skip  # adjacency lists answer with plain lists in places
    return also(x).delete()


def expand_forms(job, state):
    ad = treeops.get_adapter(job.adapter)
    model = treeops.driver(job)
    out = Out()
    with Scratch(ad.alias) as sc:
        pks = ad.restore(state)
        has = furnish(ad, pks)
        before = ad.read()
        f = ad.forest(before)
        tabs = tables(ad)
        start = rows_of(ad, tabs)
        for op, want, call in forms(ad, model, f, pks, has):
            with sc.probe():
                try:
                    res = call()
                except Skip:
                    continue
                except Exception as e:  # noqa: BLE001
                    out.n += 1
                    out.violation(op, f"raised {type(e).__name__}: {e}; tree {f.show({k: d['desc'] for k, d in before.items()})}")
                    continue
                out.n += 1
                g = f.copy()
                gone = {d for w in want for d in f.dfs(w)}
                g.remove([w for w in want])
                try:
                    judge(ad, before, f, g, gone, tabs, start, res)
                except O.Bad as e:
                    out.violation(op, f"{e.what}; tree {f.show({k: d['desc'] for k, d in before.items()})}")
                out.notes.add(("form", op[0], len(want), len(gone)))
    return out


def judge(ad, before, f, g, gone, tabs, start, res):
    from django.apps import apps

    rows = ad.read()
    try:
        got = ad.forest(rows)
    except Malformed as e:
        raise O.Bad(f"stored tree is malformed afterwards: {e}")
    if got != g:
        names = {pk: d["desc"] for pk, d in before.items()}
        raise O.Bad(f"tree is {got.show(names)}, expected {g.show(names)}")
    O.payload_unchanged(before, rows, ("desc", *ad.keys))
    end = rows_of(ad, tabs)
    real = {}
    for label, lst in start.items():
        keep = [r for r in lst if r[1] not in {str(x) for x in gone}]
        if end[label] != keep:
            raise O.Bad(f"rows of {label} that remain: {end[label]}, expected {keep}")
        if len(lst) != len(keep):
            real[label] = len(lst) - len(keep)
    count, per = res
    said = {}
    for k, v in per.items():  # Django lists proxies under their own name
        k = apps.get_model(k)._meta.concrete_model._meta.label
        said[k] = said.get(k, 0) + v
    if {k: v for k, v in said.items() if v} != real:
        raise O.Bad(f"reported {per}, rows deleted: {real}")
    if count != sum(real.values()):
        raise O.Bad(f"reported {count} deleted, really {sum(real.values())}")


def expand(job, state):
    if getattr(job, "forms", False):
        return expand_forms(job, state)
    return treeops.expand(job, state, ("delete", "qdelete"), ("append", "left"))


def replay(job, start, ops, target):
    if getattr(job, "forms", False) and not ops:
        return None
    return treeops.replay(job, start, ops, target)
