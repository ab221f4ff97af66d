"""C24: custom managers, querysets, Meta options and column names leave the tree's behaviour as it is."""

import itertools

from vf import forest as F
from vf import nav, treeops
from vf import ops as O
from vf.adapters import Malformed, Scratch
from vf.explore import Job, Out

ID = "C24"
TRACE_STRICT = True
VARIANTS = ("CSel", "CAnn", "COnly", "CCol")
MIX = ([None, 0, 1, 1, 0, None, 5], None, None)
GAP = ([None, 0, 0, None, 3], None, [1, 2, 0, 1, 1])


def jobs(tier):
    big = tier == "thorough"
    shapes = [(F.shape_parents(s), None, None) for n in range(5 if big else 4) for s in F.shapes(n)]
    js = []
    for k in ("MP", "NS", "AL", "LT"):
        pg = {"engine": "pg"} if k == "LT" else {}
        for v in VARIANTS:
            js.append(Job(k + v, adapter=k + v, seeds=shapes + [MIX, GAP], seeds_only=True, chunk=1, **pg))
            if k != "LT":
                js.append(Job(f"{k}{v}-pg", engine="pg", adapter=k + v, seeds=shapes if big else shapes[:4] + shapes[6:8], seeds_only=True, chunk=1))
    js.append(Job("checks", adapter=None, kinds=("MP", "NS", "AL")))
    js.append(Job("checks-pg", engine="pg", adapter=None, kinds=("LT",)))
    return js


def initial(job):
    if not job.adapter:
        return [(k, a, b, how) for k in job.kinds for a in range(len(OWN)) for b in range(len(INHERITED)) for how in HOW]
    return treeops.expand_seed(job)


def expand(job, state):
    if not job.adapter:
        return expand_check(job, state)
    ad = treeops.get_adapter(job.adapter)
    model = treeops.driver(job)
    small = ("qdelete",) if len(state) <= 4 else ()
    out = treeops.expand(job, state, ("insert", "move", "delete", *small))
    with Scratch(ad.alias) as sc:
        pks = ad.restore(state)
        rows = ad.read()
        f = ad.forest(rows)
        show = f.show({k: v["desc"] for k, v in rows.items()})
        say = lambda what, msg: out.violation(("read", what), f"{what} {msg}; tree {show}")  # noqa: E731
        calls = nav.sweep(ad, model, f, rows, say)
        out.n += calls
        out.stats["reads"] += calls
        querysets(ad, model, f, pks, say)
        if ad.read() != rows:
            out.violation(("read", "all"), "reading changed the stored tree")
        bulk(ad, model, f, rows, pks, sc, out)
    return out


def querysets(ad, model, f, pks, say):
    """What the navigation calls return has the methods of the model's own querysets."""
    m = model.objects
    calls = [("get_root_nodes()", lambda: m.get_root_nodes(), f.roots), ("get_tree()", lambda: m.get_tree(), f.dfs())]
    for i, pk in enumerate(pks):
        o = m.get(pk=pk)
        calls += [
            (f"get_children(n{i})", lambda o=o: m.get_children(o), f.ch[pk]),
            (f"get_siblings(n{i})", lambda o=o: m.get_siblings(o), f.siblings(pk)),
            (f"get_descendants(n{i})", lambda o=o: m.get_descendants(o), f.descendants(pk)),
            (f"get_ancestors(n{i})", lambda o=o: m.get_ancestors(o), f.ancestors(pk)),
            (f"get_tree(n{i})", lambda o=o: m.get_tree(o), f.dfs(pk)),
        ]
    names = {pk: f"n{i}" for i, pk in enumerate(pks)}
    for what, call, want in calls:
        qs = call()
        if isinstance(qs, list):
            continue
        pick = want[::2]
        try:
            got = [x.pk for x in qs.named(*(names[p] for p in pick))]
        except Exception as e:  # noqa: BLE001
            say(what + ".named()", f"raised {type(e).__name__}: {e}")
            continue
        if got != pick:
            say(what + ".named()", f"returned {[names[p] for p in got]}, expected {[names[p] for p in pick]}")


def bulk(ad, model, f, rows, pks, sc, out):
    """Dumps, loads, annotated lists, and the tools for broken trees."""
    m = model.objects

    def shape(g, r, ids):
        return [(r[i]["desc"], shape(g, r, g.ch[i])) for i in ids]

    def dshape(items):
        return [(d["data"]["desc"], dshape(d.get("children", []))) for d in items]

    for keep in (True, False):
        for start in [None, *pks]:
            op = ("dump and load", start and pks.index(start), keep)
            with sc.probe():
                out.n += 1
                try:
                    data = m.dump_bulk(start and m.get(pk=start), keep_ids=keep)
                    want = shape(f, rows, f.roots if start is None else [start])
                    if dshape(data) != want:
                        out.violation(op, f"dump is {dshape(data)}, the tree {want}")
                        continue
                    new = m.load_bulk(data, None, keep_ids=False)
                    after = ad.read()
                    g = ad.forest(after)
                    top = g.roots[len(f.roots):]
                    if shape(g, after, top) != want or g.roots[: len(f.roots)] != f.roots:
                        out.violation(op, f"loaded {shape(g, after, top)}, dumped {want}")
                    if set(new) != {i for i in after if i not in rows}:
                        out.violation(op, f"load_bulk returned {new}")
                except Malformed as e:
                    out.violation(op, f"stored tree is malformed afterwards: {e}")
                except Exception as e:  # noqa: BLE001
                    out.violation(op, f"raised {type(e).__name__}: {e}")
    for start in [None, *pks]:
        out.n += 1
        op = ("get_annotated_list", start and pks.index(start))
        try:
            got = [(o.pk, info["level"]) for o, info in m.get_annotated_list(start and m.get(pk=start))]
        except Exception as e:  # noqa: BLE001
            out.violation(op, f"raised {type(e).__name__}: {e}")
            continue
        base = 1 if start is None else f.depth(start)
        want = [(i, f.depth(i) - base) for i in f.dfs(start)]
        if got != want:
            out.violation(op, f"returned {got}, expected {want}")
    if ad.kind in ("MP", "NS"):
        for start in [None, *pks]:
            out.n += 1
            op = ("find_problems", start and pks.index(start))
            try:
                got = m.find_problems(parent=start and m.get(pk=start))
            except Exception as e:  # noqa: BLE001
                out.violation(op, f"raised {type(e).__name__}: {e}")
                continue
            if any(got):
                out.violation(op, f"{got} on a well-formed tree")
    if ad.kind == "MP":
        for fix_paths in (False, True):
            for start in [None, *f.roots]:
                with sc.probe():
                    out.n += 1
                    op = ("fix_tree", fix_paths, start and pks.index(start))
                    try:
                        m.fix_tree(fix_paths=fix_paths, parent=start and m.get(pk=start))
                        after = ad.read()
                        g = ad.forest(after)
                    except Malformed as e:
                        out.violation(op, f"stored tree is malformed afterwards: {e}")
                        continue
                    except Exception as e:  # noqa: BLE001
                        out.violation(op, f"raised {type(e).__name__}: {e}")
                        continue
                    if g != f or (not fix_paths and after != rows):
                        out.violation(op, f"changed a well-formed tree to {g.show()}")


# ---------------------------------------------------------- the system check
# managers a class declares itself, in order: (name, kind); t = tree's, s = subclass of it, p = plain, o = of another tree
OWN = [
    (),
    (("objects", "t"),),
    (("objects", "s"),),
    (("objects", "p"),),
    (("objects", "o"),),
    (("objects", "s"), ("other", "p")),
    (("other", "p"), ("objects", "s")),
    (("other", "s"), ("objects", "p")),
    (("other", "o"), ("objects", "t")),
]
INHERITED = [(), (("objects", "s"),), (("objects", "p"),), (("base", "p"),), (("base", "p"), ("objects", "s")), (("base", "s"), ("objects", "p"))]
HOW = ("abstract", "proxy", "table", "named objects", "named other")


def expand_check(job, state):
    """Is treebeard.E001 reported exactly if the default manager is not one of the tree's?"""
    from django.db import models

    from treebeard import al_tree, mp_tree, ns_tree

    kind, a, b, how = state
    out = Out()
    node, mgr = {"MP": (mp_tree.MP_Node, mp_tree.MP_NodeManager), "NS": (ns_tree.NS_Node, ns_tree.NS_NodeManager),
                 "AL": (al_tree.AL_Node, al_tree.AL_NodeManager)}.get(kind, (None, None))  # fmt: skip
    if kind == "LT":
        from treebeard import ltree

        node, mgr = ltree.LT_Node, ltree.LT_NodeManager
    alien = ns_tree.NS_NodeManager if kind == "MP" else mp_tree.MP_NodeManager
    classes = {"t": mgr, "s": type("Sub", (mgr,), {}), "p": models.Manager, "o": alien}
    own, inherited = OWN[a], INHERITED[b]
    if how in ("proxy", "table") and not inherited and not own:
        inherited = (("objects", "t"),)
    default = None
    if how.startswith("named"):
        default = how.split()[1]
        if default not in dict(own) and not (default in dict(inherited)) and default != "objects":
            return out
    from django.apps.registry import Apps

    apps = Apps()
    extra = {}
    if kind == "AL":
        extra = {"parent": models.ForeignKey("self", related_name="children_set", null=True, on_delete=models.CASCADE),
                 "sib_order": models.PositiveIntegerField()}  # fmt: skip

    def cls(name, bases, managers, **kw):
        meta = type("Meta", (), {"app_label": "vf", "apps": apps, **kw})
        ms = {n: classes[k]() for n, k in managers}
        return type(name, bases, {"__module__": "vf.app.models", "Meta": meta, **ms, **(extra if not kw.get("proxy") and bases == (node,) else {})})

    abstract = how not in ("proxy", "table")
    base = cls("Base", (node,), inherited, **({"abstract": True} if abstract else {}))
    kw = {"proxy": True} if how == "proxy" else {}
    if default:
        kw["default_manager_name"] = default
    model = cls("Model", (base,), own, **kw)
    # Django's rule: the named one, or the first declared, a class's own before those it inherits; a manager
    # of the same name in the class hides the inherited one, `objects` of the node class comes last
    seq = list(own) + [x for x in inherited if x[0] not in dict(own)]
    if "objects" not in dict(seq):
        seq.append(("objects", "t"))
    order = first_declared(own, inherited)
    want = dict(seq)[default] if default else order
    # creation counters decide among managers of different classes: the older ones come first
    good = want in "ts"
    got = [e for e in model.check() if e.id == "treebeard.E001"]
    out.n += 1
    real = {v: k for k, v in classes.items()}.get(type(model._default_manager))
    if real != want:
        raise RuntimeError(f"harness: default manager of {state} is {real}, not {want}")
    if bool(got) == good or len(got) > 1:
        out.violation(("check", how), f"{kind} model with managers {own}, its base with {inherited}: default manager is {classes[want]}, E001 reported: {[str(e) for e in got]}")
    out.notes.add((kind, how, good, len(got)))
    return out


def first_declared(own, inherited):
    """Django takes them nearest class first, each class's in the order of declaration."""
    for k in (own, inherited):
        for _, v in k:
            return v
    return "t"


def replay(job, start, ops, target):
    if not job.adapter:
        return None
    return treeops.replay(job, start, ops, target)
