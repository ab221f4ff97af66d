"""C11: dump_bulk and load_bulk round-trip any tree."""

import copy
import datetime
import decimal
import uuid

from vf import forest as F
from vf import jobs as J
from vf import treeops
from vf.adapters import Malformed, Scratch
from vf.explore import Job, Out

ID = "C11"
TRACE_STRICT = False


def sh(*ns):
    return [(F.shape_parents(s), None, None) for n in ns for s in F.shapes(n)]


GAP = [1, 0, 2, 0, 1, 0, 0, 1, 0, 0, 0, 0, 0, 0]


def gapped(seeds):
    return seeds + [(p, k, GAP) for p, k, _ in seeds if len(p) > 1]


def keyed(seeds, pat):
    """Ascending keys, ties among them, within each list of siblings."""
    out = []
    for p, _, g in seeds:
        cnt, pay = {}, []
        for q in p:
            cnt[q] = cnt.get(q, -1) + 1
            pay.append((pat[min(cnt[q], len(pat) - 1)],))
        out.append((p, pay, g))
    return out


def jobs(tier):
    big = tier == "thorough"
    js = []
    wide = [([None] + [0] * 11, None, None), ([None] * 11, None, None), J.MIX, J.DEEP]
    for k in ("MP", "NS", "AL", "LT"):
        pg = {"engine": "pg"} if k == "LT" else {}
        n = (0, 1, 2, 3, 4, 5) if big else (0, 1, 2, 3, 4)
        std = gapped(sh(*n)) if k in ("MP", "AL") else sh(*n)
        js.append(Job(k + "Rel", adapter=k + "Rel", seeds=std, chunk=1, **pg))
        js.append(Job(k + "Rel-seeds", adapter=k + "Rel", seeds=wide, chunk=1, few=True, raw=J.LT_RAW if k == "LT" else [], **pg))
        js.append(Job(k + "Rel-big", adapter=k + "Rel", seeds=[J.BIG], chunk=1, few=True, **pg))
        js.append(Job(k + "Uuid", adapter=k + "Uuid", seeds=sh(1, 2, 3), chunk=1, **pg))
        m = sh(*((1, 2, 3, 4) if big else (1, 2, 3)))
        js.append(Job(k + "Sort", adapter=k + "Sort", seeds=keyed(m, (1, 2, 2)) + keyed(gapped(m), (1, 2, 3)), chunk=1, **pg))
        js.append(Job(k + "SortD", adapter=k + "SortD", seeds=keyed(m, (3, 2, 2)), chunk=1, **pg))
        js.append(Job(k + "StdChild", adapter=k + "Std", via=k + "StdChild", seeds=sh(0, 1, 2, 3), chunk=1, **pg))
        if big:
            js.append(Job(k + "Rel-pg", engine="pg", adapter=k + "Rel", seeds=gapped(sh(1, 2, 3)), chunk=1))
    js.append(Job("MPTiny", adapter="MPTiny", seeds=sh(1, 2, 3), chunk=1))
    js.append(Job("MPAscii", adapter="MPAscii", seeds=sh(1, 2, 3), chunk=1))
    js.append(Job("cross", adapter="MPRel", cross=("MPRel", "NSRel", "ALRel"), seeds=sh(1, 2, 3), chunk=1))
    js.append(Job("cross-pg", engine="pg", adapter="LTRel", cross=("MPRel", "NSRel", "ALRel", "LTRel"), seeds=sh(3), chunk=1))
    return js


def initial(job):
    return treeops.expand_seed(job)


# ----------------------------------------------------- fields besides the tree
def fill(ad, model, pks):
    """Give every node its own values in every field that is not the tree's."""
    from vf.app.models import Tag

    if not hasattr(model, "tags"):
        return
    tags = [Tag.objects.create(desc=f"t{i}") for i in range(3)]
    for i, pk in enumerate(pks):
        o = model.objects.get(pk=pk)
        model.objects.filter(pk=pk).update(
            tag=tags[i % 3] if i % 4 else None,
            when=datetime.datetime(2020, 1 + i % 12, 1 + i % 28, 5, 6, 7, 89, tzinfo=datetime.timezone.utc) if i % 3 else None,
            amount=decimal.Decimal(i) / 8 if i % 2 else None,
            info={"k": [i, None, {"x": "\u00e9"}]} if i % 2 == 0 else None,
            ident=uuid.UUID(int=i + 7) if i % 3 != 1 else None,
            flag=(None, True, False)[i % 3],
            opt=(None, 0, 7)[i % 3],
            note=("", "-", "x")[i % 3],
        )
        o.tags.set([t for b, t in enumerate(tags) if (i + 1) >> b & 1])


def values(ad, model):
    """pk -> everything stored for the node that is not its place in the tree."""
    skip = {*ad.phys, "parent", "sib_order", "numchild", "depth", "lft", "rgt", "tree_id", "path"}
    names = [f.attname for f in model._meta.concrete_fields if f.name not in skip and not f.primary_key and not f.remote_field]
    if hasattr(model, "tags"):
        names.append("tag_id")
    out = {o["pk"]: {k: o[k] for k in names} for o in model.objects.order_by().values("pk", *names)}
    if hasattr(model, "tags"):
        th = model.tags.through
        fk = model._meta.model_name + "_id"
        for d in out.values():
            d["tags"] = []
        for r in th.objects.values():
            out[r[fk]]["tags"].append(r["tag_id"])
        for d in out.values():
            d["tags"].sort()
    return out


def strip(vals):
    return {k: v for k, v in vals.items()}


# --------------------------------------------------------------------- judge
def dumped(out, op, ad, f, rows, vals, data, start, keep, pkname):
    """The dump describes exactly the branch."""

    def cmp(items, ids):
        if len(items) != len(ids):
            return f"{len(items)} nodes where the tree has {[rows[i]['desc'] for i in ids]}"
        if ad.order_by:  # ties may come in either order
            byd = {d["data"]["desc"]: d for d in items}
            if set(byd) != {rows[i]["desc"] for i in ids}:
                return "other nodes"
            ks = [tuple(d["data"][k] for k in ad.keys) for d in items]
            if any(ad.key_less(b, a) for a, b in zip(ks, ks[1:])):
                return f"nodes are not in order: {ks}"
            items = [byd[rows[i]["desc"]] for i in ids]
        for d, i in zip(items, ids):
            if set(d) - {"data", "children", pkname}:
                return f"unexpected keys {set(d)}"
            if (pkname in d) != keep or (keep and str(d[pkname]) != str(i)):
                return f"node {rows[i]['desc']} has key {d.get(pkname)!r}"
            if d["data"].get("desc") != rows[i]["desc"]:
                return f"{d['data'].get('desc')} where the tree has {rows[i]['desc']}"
            if set(d["data"]) & {"path", "depth", "numchild", "lft", "rgt", "tree_id", "sib_order", "parent"}:
                return f"tree columns are dumped: {set(d['data'])}"
            for k in vals[i]:
                key = k[:-3] if k == "tag_id" else k
                if key not in d["data"]:
                    return f"field {key} of {rows[i]['desc']} is missing"
            bad = cmp(d.get("children", []), f.ch[i])
            if bad:
                return bad
        return None

    bad = cmp(data, f.roots if start is None else [start])
    if bad:
        out.violation(op, f"dump of {f.show({k: d['desc'] for k, d in rows.items()})}: {bad}")
    return not bad


def judge_load(ad, model, f, rows, vals, data, source, parent, res, keep, pkname, bulk):
    """source: desc -> values every loaded node has to carry."""
    after = ad.read()
    try:
        g = ad.forest(after)
    except Malformed as e:
        return f"tree is malformed afterwards: {e}"
    new = set(after) - set(rows)
    if set(rows) - set(after):
        return "existing nodes disappeared"
    if not isinstance(res, list) or len(res) != len(set(res)) or set(res) != new:
        return f"returned {res}, added {sorted(map(str, new))}"
    for pk in rows:
        if after[pk]["desc"] != rows[pk]["desc"] or g.par[pk] != f.par[pk]:
            return "an existing node changed"
    for p in [None, *f.ch]:
        if [x for x in g.kids(p) if x not in new] != f.kids(p):
            return f"existing nodes below {p} changed their order"
    now = values(ad, model)
    for pk in rows:
        if pk in vals and now.get(pk) != vals[pk]:
            return f"values of an existing node changed: {vals[pk]} -> {now.get(pk)}"
    byd = {after[pk]["desc"]: pk for pk in new}
    if len(byd) != len(new):
        return "nodes loaded twice"
    count = 0

    def cmp(items, kids, top):
        nonlocal count
        want = [byd.get(d["data"]["desc"]) for d in items]
        count += len(items)
        loaded = [x for x in kids if x in new]
        if set(loaded) != set(want):
            return f"loaded nodes are below the wrong parent: {[after[x]['desc'] for x in loaded]} for {[d['data']['desc'] for d in items]}"
        if not ad.order_by or (bulk and not top):
            if loaded != want:
                return f"order is {[after[x]['desc'] for x in loaded]}, in the data {[d['data']['desc'] for d in items]}"
            if top and not ad.order_by and kids[len(kids) - len(want) :] != want:
                return "loaded nodes are not last"
        else:
            ks = [ad.payload(after[x]) for x in kids]
            if any(ad.key_less(b, a) for a, b in zip(ks, ks[1:])):
                return f"siblings out of order: {ks}"
        for d, pk in zip(items, want):
            if keep and str(d[pkname]) != str(pk):
                return f"{d['data']['desc']} has primary key {pk}, in the data {d[pkname]}"
            if now[pk] != source[d["data"]["desc"]]:
                return f"values are {now[pk]}, were {source[d['data']['desc']]}"
            bad = cmp(d.get("children", []), g.ch[pk], False)
            if bad:
                return bad
        return None

    bad = cmp(data, g.kids(parent), True)
    if not bad and count != len(new):
        bad = f"{len(new)} nodes added, {count} in the data"
    return bad


def variants(data):
    """The same data with every children list reversed; with explicit empty lists."""

    def rev(items):
        return [{**d, **({"children": rev(d["children"])} if "children" in d else {})} for d in items[::-1]]

    def full(items):
        return [{**d, "children": full(d.get("children", []))} for d in items]

    return rev(data), full(data)


def expand(job, state):
    out = Out()
    if hasattr(job, "cross"):
        cross(job, state, out)
        return out
    ad = treeops.get_adapter(job.adapter)
    model = treeops.driver(job)
    m = model.objects
    pkname = model._meta.pk.attname
    few = getattr(job, "few", False)
    via = getattr(job, "via", None)
    with Scratch() as sc:
        pks = ad.restore(state)
        if via:
            extra(job, ad, model, pks, sc, out)
            return out
        fill(ad, model, pks)
        rows = ad.read()
        f = ad.forest(rows)
        vals = values(ad, model)
        get = lambda pk: model.objects.get(pk=pk)  # noqa: E731
        modes = [(False, None), (True, 1000), (True, 1)] if ad.kind == "MP" else [(False, None)]
        index = {pk: i for i, pk in enumerate(pks)}
        for start in [None, *pks] if not few else [None, *pks[:2], *pks[-1:]]:
            si = None if start is None else index[start]
            dumps = {}
            for keep in (True, False):
                op = ("dump", si, keep)
                out.n += 1
                try:
                    dumps[keep] = m.dump_bulk(None if start is None else get(start), keep_ids=keep)
                except Exception as e:  # noqa: BLE001
                    out.violation(op, f"raised {type(e).__name__}: {e}")
                    return out
                if ad.read() != rows or values(ad, model) != vals:
                    out.violation(op, "the dump changed the tree")
                    return out
                if not dumped(out, op, ad, f, rows, vals, dumps[keep], start, keep, pkname):
                    return out
            source = {rows[pk]["desc"]: strip(vals[pk]) for pk in rows}
            branch = f.dfs(start)

            def load(op, data, parent, keep, mode):
                """One load; the stored tree is compared with what was there just before."""
                base = ad.read()
                g = ad.forest(base)
                v = values(ad, model)
                given = copy.deepcopy(data)
                o = {"bulk_create": True, "batch_size": mode[1]} if mode[0] else {}
                out.n += 1
                # room: a tiny alphabet may not take it all
                try:
                    res = m.load_bulk(data, None if parent is None else get(parent), keep_ids=keep, **o)
                except Exception as e:  # noqa: BLE001
                    if type(e).__name__ == "PathOverflow" and job.adapter == "MPTiny":
                        if ad.read() != base:
                            out.violation(op, "raised PathOverflow but the stored tree changed")
                        out.notes.add("overflow")
                        return
                    out.violation(op, f"raised {type(e).__name__}: {e}")
                    return
                bad = judge_load(ad, model, g, base, v, given, source, parent, res, keep, pkname, mode[0])
                if bad:
                    out.violation(op, bad)
                elif data != given:
                    out.violation(op, "the data given to load_bulk was changed")
                out.notes.add((keep, mode, parent is None, len(res)))

            for mode in modes:
                # a copy next to what is there, at every place
                for parent in [None, *pks] if not few else [None, pks[-1]]:
                    pi = None if parent is None else index[parent]
                    for d, data in enumerate((dumps[False], *(variants(dumps[False]) if start is None else ()))):
                        with sc.probe():
                            load(("load", si, pi, False, mode, d), data, parent, False, mode)
                    if parent == start:
                        with sc.probe():  # ids in the dump are not used unless asked for
                            load(("load", si, pi, "ids unused", mode), dumps[True], parent, False, mode)
                # the branch is deleted and comes back under its own ids, anywhere in what is left
                rest = [pk for pk in pks if pk not in branch]
                for parent in [None, *rest] if not few else [None]:
                    pi = None if parent is None else index[parent]
                    with sc.probe():
                        if start is None:
                            m.all().delete()
                        else:
                            m.filter(pk=start).delete()
                        load(("reload", si, pi, mode), dumps[True], parent, True, mode)
            with sc.probe():
                out.n += 1
                res = m.load_bulk([], None if start is None else get(start))
                if res != [] or ad.read() != rows:
                    out.violation(("load nothing", si), f"returned {res} or changed the tree")
    return out


def cross(job, state, out):
    """A dump of one tree type loads into every other."""
    ads = [treeops.get_adapter(a) for a in job.cross]
    src = treeops.get_adapter(job.adapter)
    with Scratch():
        parents = None
        pks = src.restore(state)
        f = src.forest(src.read())
        order = f.dfs()
        parents = [None if f.par[i] is None else order.index(f.par[i]) for i in order]
    for a in ads:
        with Scratch() as sc:
            pks = a.restore(a.build(parents))
            fill(a, a.model, pks)
            rows = a.read()
            vals = values(a, a.model)
            source = {rows[pk]["desc"]: strip(vals[pk]) for pk in rows}
            for start in [None, *pks]:
                obj = None if start is None else a.model.objects.get(pk=start)
                for keep in (True, False):
                    data = a.model.objects.dump_bulk(obj, keep_ids=keep)
                    for b in ads:
                        if a is b:
                            continue
                        with sc.probe():
                            op = ("cross", a.kind, b.kind, None if start is None else pks.index(start), keep)
                            out.n += 1
                            try:
                                res = b.model.objects.load_bulk(data, keep_ids=keep)
                            except Exception as e:  # noqa: BLE001
                                out.violation(op, f"raised {type(e).__name__}: {e}")
                                continue
                            bad = judge_load(b, b.model, F.Forest(), {}, {}, data, source, None, res, keep, "id", False)
                            if bad:
                                out.violation(op, bad)


def extra(job, ad, model, pks, sc, out):
    """Loading through a multi-table child creates nodes of that class."""
    f = ad.forest(ad.read())
    rows = ad.read()

    def item(d, *kids):
        return {"data": {"desc": d, "extra": "x" + d}, "children": list(kids)}

    for data in ([item("p", item("q", item("r")), item("s"))], [item("p"), item("q", item("r"))]):
        for parent in [None, *pks]:
            with sc.probe():
                out.n += 1
                op = ("load child class", None if parent is None else pks.index(parent))
                try:
                    base = model._meta.get_field(model.TREEBEARD_IDENTIFYING_FIELD).model
                    res = model.objects.load_bulk(data, None if parent is None else base.objects.get(pk=parent))
                except Exception as e:  # noqa: BLE001
                    out.violation(op, f"raised {type(e).__name__}: {e}")
                    continue
                source = {d: {"desc": d, "extra": "x" + d} for d in "pqrs"}
                bad = judge_load(ad, model, f, rows, {}, data, source, parent, res, False, "", False)
                if bad:
                    out.violation(op, bad)


def replay(job, start, ops, target):
    if hasattr(job, "cross") or getattr(job, "via", None) or treeops.get_adapter(job.adapter).order_by:
        return "skip"
    return treeops.replay(job, start, (), None)
