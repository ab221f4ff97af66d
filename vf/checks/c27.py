"""C27: reading a tree takes a number of queries that does not grow with the tree."""

import contextlib

from vf import forest as F
from vf import treeops
from vf.adapters import Scratch
from vf.explore import Job, Out

ID = "C27"
TRACE_STRICT = False  # a seed that the API builds differently is the business of C01 to C05
ASSUMPTIONS = [
    "Adjacency lists are documented to read slowly: only the calls that need not walk the tree are judged for them.",
    "The bound is generous (8 queries for a read, 16 for a write, 18 for an admin page), so that a query more or less is not an alarm.",
    "Calls that rewrite or read back row by row on purpose are not judged: dump_bulk of nested sets, find_problems, fix_tree, load_bulk, inserting "
    "between siblings in materialized paths, and deleting one node of an adjacency list.",
]

READ, WRITE, PAGE = 8, 16, 18
WIDTH = 20  # what a shape is blown up by; well above the bounds together with the branches below


def blown(shape_parents, how):
    """A large tree around a small shape; returns the parents and the indices of the shape's own nodes."""
    parents, own = [], {}

    def add(p):
        parents.append(p)
        return len(parents) - 1

    kids = {}
    for i, p in enumerate(shape_parents):
        kids.setdefault(p, []).append(i)

    def go(i, p):
        if how == "deep":
            for _ in range(WIDTH):
                p = add(p)
        own[i] = add(p)
        for c in kids.get(i, []):
            go(c, own[i])
        if how == "wide":
            for _ in range(WIDTH):
                add(add(own[i]))

    for r in kids.get(None, []):
        go(r, None)
    if how == "wide":
        for _ in range(WIDTH):
            add(add(None))
    return parents, [own[i] for i in range(len(shape_parents))]


def jobs(tier):
    big = tier == "thorough"
    js = []
    for k in ("MP", "NS", "AL", "LT"):
        pg = {"engine": "pg"} if k == "LT" else {}
        for how in ("wide", "deep"):
            trees = [blown(F.shape_parents(s), how) for n in range(1, 6 if big else 5) for s in F.shapes(n)]
            if how == "deep":  # steps of three characters, 255 in a path
                trees = [t for t in trees if k in ("NS", "AL") or depth(t[0]) <= 60]
            for name in (k + "Std", k + "Sort"):
                keys = [(i % 3 + 1,) for i in range(199)]
                part = trees if name.endswith("Std") else trees[:3]
                seeds = [(p, sorted(keys[: len(p)]) if name.endswith("Sort") else None, None) for p, _ in part]
                js.append(Job(f"{name}-{how}", adapter=name, seeds=seeds, own=[o for _, o in part], seeds_only=True, chunk=1, **pg))
    return js


def depth(parents):
    d = []
    for p in parents:
        d.append(1 if p is None else d[p] + 1)
    return max(d)


def initial(job):
    return treeops.expand_seed(job)


def questions(ad, model, m, o):
    """(name, call, bound) for a fresh object `o` of one node."""
    yield "get_root_nodes()", lambda: list(m.get_root_nodes()), READ
    yield "get_first_root_node()", lambda: m.get_first_root_node(), READ
    yield "get_last_root_node()", lambda: m.get_last_root_node(), READ
    one = ["get_children", "get_siblings", "get_children_count", "get_first_child", "get_last_child", "get_first_sibling", "get_last_sibling", "get_next_sibling", "get_prev_sibling", "get_parent"]
    if ad.kind != "AL":
        one += ["get_ancestors", "get_descendants", "get_descendant_count", "get_root", "get_descendants_group_count"]
    for name in one:
        yield name + "(node)", lambda name=name: seen(getattr(m, name)(o())), READ
    for name in ("is_root", "is_leaf", *(("get_depth",) if ad.kind != "AL" else ())):
        yield name + "()", lambda name=name: getattr(o(), name)(), READ
    for name in ("is_child_of", "is_sibling_of", "is_descendant_of")[: 2 if ad.kind == "AL" else 3]:
        yield name + "()", lambda name=name: getattr(o(), name)(o()), READ
    if ad.kind != "AL":
        yield "get_tree()", lambda: list(m.get_tree()), READ
        yield "get_tree(node)", lambda: list(m.get_tree(o())), READ
        yield "get_tree(), asking every node", lambda: [(x.is_root(), ad.kind == "LT" or x.is_leaf(), x.get_depth()) for x in m.get_tree()], READ
        yield "get_descendants_group_count()", lambda: [x.descendants_count for x in m.get_descendants_group_count()], READ
        yield "get_annotated_list()", lambda: list(m.get_annotated_list()), READ
        yield "get_annotated_list(node)", lambda: list(m.get_annotated_list(o())), READ
        yield "get_annotated_list_qs()", lambda: list(m.get_annotated_list_qs(m.get_tree())), READ
    if ad.kind in ("MP", "LT"):
        yield "dump_bulk()", lambda: m.dump_bulk(), READ
        yield "dump_bulk(node)", lambda: m.dump_bulk(o()), READ
    kw = {"desc": "new", **dict.fromkeys(ad.keys, 9)}
    last = "sorted-sibling" if ad.order_by else "last-sibling"
    yield "add_root()", lambda: m.add_root(dict(kw)), WRITE
    yield "add_child(node)", lambda: m.add_child(o(), dict(kw)), WRITE
    yield "add_sibling(node), last", lambda: m.add_sibling(o(), last, dict(kw)), WRITE
    if ad.kind != "AL":
        yield "delete() of a node", lambda: o().delete(), WRITE
    if ad.kind == "MP":
        yield "delete() of everything", lambda: m.all().delete(), WRITE


def seen(x):
    return list(x) if hasattr(x, "__iter__") else x


def pages(ad, model, pk):
    """What an admin shows, with a hundred rows per page."""
    from treebeard.forms import TreeNodeChoiceField, movenodeform_factory
    from vf.checks import c18

    base = f"/admin/vf/{model._meta.model_name}/"

    def get(url):
        r = c18.clients()["super"].get(base + url)
        if hasattr(r, "render") and not r.is_rendered:
            r.render()
        if r.status_code != 200:
            raise RuntimeError(f"status {r.status_code} for {base}{url}")

    yield "admin: the list of the roots", lambda: get("")
    if ad.kind == "AL":
        return
    yield "admin: the children of a node", lambda: get(f"children/{pk}/")
    yield "admin: the add form", lambda: get("add/")
    yield "admin: the change form", lambda: get(f"{pk}/change/")
    yield "MoveNodeForm", lambda: str(movenodeform_factory(model)(instance=model.objects.get(pk=pk)))
    yield "TreeNodeChoiceField", lambda: TreeNodeChoiceField(queryset=model.objects.get_tree()).widget.render("x", pk)


class Counter:
    def __init__(self):
        self.n = 0

    def __call__(self, execute, sql, params, many, context):
        if not sql.startswith(("SAVEPOINT", "RELEASE", "ROLLBACK", "BEGIN", "COMMIT")):
            self.n += 1
        return execute(sql, params, many, context)


def expand(job, state):
    from vf import urls

    ad = treeops.get_adapter(job.adapter)
    model = treeops.driver(job)
    registered = model in urls.site._registry
    if registered:
        from vf.checks import c18

        c18.clients()
        urls.DENY.clear()
        urls.site._registry[model].list_per_page = 100
    out = Out()
    with Scratch() as sc:
        pks = ad.restore(state)
        f = ad.forest(ad.read())
        k = next(i for i, s in enumerate(initial(job)) if s == state)
        for i in job.own[k]:
            pk = f.dfs()[i]
            objs = []
            calls = list(questions(ad, model, model.objects, lambda: objs.pop()))
            if registered:
                calls += [(n, c, PAGE) for n, c in pages(ad, model, pk)]
            for name, call, bound in calls:
                with sc.probe(), contextlib.ExitStack() as st:
                    out.n += 1
                    objs[:] = [model.objects.get(pk=pk) for _ in range(2)]
                    n = Counter()
                    st.enter_context(ad.conn.execute_wrapper(n))
                    try:
                        call()
                    except Exception as e:  # noqa: BLE001
                        out.violation(("queries", name, i), f"{name} raised {type(e).__name__}: {e}")
                        continue
                out.notes.add((name, n.n))
                if n.n > bound:
                    out.violation(("queries", name, i), f"{name} took {n.n} queries on a tree of {len(pks)} nodes, allowed {bound}")
    return out


replay = treeops.replay
