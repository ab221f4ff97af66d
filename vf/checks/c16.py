"""C16: inherited and proxy models share one consistent tree."""

from vf import forest as F
from vf import jobs as J
from vf import nav, treeops
from vf import ops as O
from vf.adapters import Scratch
from vf.explore import Job, Out

ID = "C16"
TRACE_STRICT = False
ASSUMPTIONS = ["A state is the stored tree together with the class (base, child, grandchild) every node was created with."]

# label of a node -> names of the classes it can be fetched as
FAMILY = {
    "Std": ({"B": "", "C": "Child", "G": "GrandChild"}, {"B": ("", "Proxy"), "C": ("", "Child", "Proxy"), "G": ("", "Child", "GrandChild", "Proxy")}),
    "Deep": ({"B": "", "C": "Child", "G": "GrandChild"}, {"B": ("", "Proxy"), "C": ("", "Child", "Proxy", "ChildProxy"), "G": ("", "Child", "GrandChild", "Proxy", "ChildProxy")}),
    "Prox": ({"B": ""}, {"B": ("", "Proxy", "ProxyProxy")}),
    "Sort": ({"B": "", "C": "Child"}, {"B": ("",), "C": ("", "Child")}),
}


def jobs(tier):
    big = tier == "thorough"
    js = []
    for k in ("MP", "NS", "AL", "LT"):
        pg = {"engine": "pg"} if k == "LT" else {}
        js.append(Job(k + "Std", adapter=k + "Std", fam="Std", n=3 if big else 2, bounds={"n": 3 if big else 2, "pos": 3, "lab": 1, "chars": "AB"}, **pg))
        js.append(Job(k + "Std-proxies", adapter=k + "Std", fam="Prox", n=2, bounds={"n": 3 if big else 2, "pos": 3, "lab": 1, "chars": "AB"}, **pg))
        seeds = []
        shapes = [F.shape_parents(s) for n in ((3, 4) if big else (3,)) for s in F.shapes(n)]
        shapes.append([None, 0, 1, 0, None])
        for i, p in enumerate(shapes):
            for lab in ("BCGBC", "GBCGB", "CCBBG") if big else ("CGBCB", "BCGBC"):
                seeds.append((p, lab[: len(p)]))
        js.append(Job(k + "Std-seeds", adapter=k + "Std", fam="Deep", labelled=seeds, seeds_only=True, chunk=1, **pg))
        b = {"n": 2, "pos": 3, "lab": 1, "chars": "AB"}
        js.append(Job(k + "Sort", adapter=k + "Sort", fam="Sort", bounds=b, vals=((1,), (2,)), **pg))
    return js


def initial(job):
    ad = treeops.get_adapter(job.adapter)
    if hasattr(job, "labelled"):
        return [(ad.build(p), lab) for p, lab in job.labelled]
    return [((), "")]


class Hierarchy:
    def __init__(self, job):
        from vf.app import models as M

        self.ad = treeops.get_adapter(job.adapter)
        labels, self.views = FAMILY[job.fam]
        self.cls = {v: getattr(M, job.adapter + v) for v in {x for t in self.views.values() for x in t}}
        self.label = {v: k for k, v in labels.items()}
        self.label.update(Proxy="B", ProxyProxy="B", ChildProxy="C")
        self.tables = [self.cls[v] for v in ("Child", "GrandChild") if v in self.cls]

    def put(self, labels, pks):
        for pk, lab in zip(pks, labels):
            for depth, m in enumerate(self.tables):
                if "BCG".index(lab) > depth:
                    col = m._meta.pk.column
                    field = ("extra", "more")[depth]
                    with self.ad.conn.cursor() as c:
                        c.execute(f'INSERT INTO {m._meta.db_table} ("{col}", {field}) VALUES (%s, %s)', [self.ad.dbpk(pk), f"{field}{pk}"])

    def read(self):
        """pk -> (label, extra, more); None for the label of an incomplete chain."""
        rows = [{}, {}]
        for depth, m in enumerate(self.tables):
            with self.ad.conn.cursor() as c:
                c.execute(f'SELECT "{m._meta.pk.column}", {("extra", "more")[depth]} FROM {m._meta.db_table}')
                rows[depth] = {self.ad.frompk(r[0]): r[1] for r in c.fetchall()}
        return rows

    def labels(self, order, sub):
        return "".join("G" if pk in sub[1] else "C" if pk in sub[0] else "B" for pk in order)


def kwargs(ad, via, vals):
    kw = O.kwargs_for(ad, vals)
    if via in ("Child", "GrandChild", "ChildProxy"):
        kw["extra"] = "extra-new"
    if via == "GrandChild":
        kw["more"] = "more-new"
    return kw


def operations(h, job, labels):
    """(core operation as vf.ops has it, class it is made on, class of the node, class of the target)"""
    ad, n = h.ad, len(labels)
    vias = list(h.cls)
    vals = treeops.vals_for(ad, job)
    wide = n > 3
    for v in vals:
        for via in vias:
            for st in O.STYLES:
                yield ("root", st, v), via, None, None
        for t in range(n):
            for tc in h.views[labels[t]]:
                for via in vias:
                    if wide and via != tc and via != "Child":
                        continue
                    yield ("child", t, "k", v), via, None, tc
                    for pos in ("sorted-sibling",) if ad.order_by else ("first-sibling", "left", "right", None):
                        yield ("sib", t, pos, "i" if pos == "left" else "k", v), via, None, tc
    for a in range(n):
        for ac in h.views[labels[a]]:
            yield ("del", a), ac, ac, None
            for t in range(n):
                for tc in h.views[labels[t]]:
                    if wide and tc not in ("", ac):
                        continue
                    for pos in ("sorted-sibling", "sorted-child") if ad.order_by else ("first-sibling", "left", "right", None, "first-child", "last-child"):
                        yield ("move", a, t, pos), ac, ac, tc
    for via in vias:
        for op in O.qdelete_ops(n) if n <= 3 else ():
            seen = tuple(i for i in op[1] if via in h.views[labels[i]])
            yield ("qdel", seen), via, op[1], None


def perform(h, op, via, ac, tc, pks):
    ad = h.ad
    m = h.cls[via].objects
    get = lambda i, c: h.cls[c].objects.get(pk=pks[i])  # noqa: E731

    def create(v, style):
        kw = kwargs(ad, via, v)
        return {"create_kwargs": kw} if style == "k" else {"instance": h.cls[via](**kw)}

    try:
        if op[0] == "root":
            r = m.add_root(**create(op[2], op[1]))
        elif op[0] == "child":
            r = m.add_child(get(op[1], tc), **create(op[3], op[2]))
        elif op[0] == "sib":
            r = m.add_sibling(get(op[1], tc), op[2], **create(op[4], op[3]))
        elif op[0] == "move":
            a = get(op[1], ac)
            r = m.move(a, a if op[1] == op[2] and ac == tc else get(op[2], tc), op[3])
        elif op[0] == "del":
            r = get(op[1], ac).delete()
        else:
            r = m.filter(pk__in=[pks[i] for i in ac]).delete()
        return ("ok", r, {})
    except Exception as e:  # noqa: BLE001
        return ("exc", e)


def expand(job, state):
    tree, labels = state
    h = Hierarchy(job)
    ad = h.ad
    out = Out()
    with Scratch() as sc:
        pks = ad.restore(tree)
        h.put(labels, pks)
        before = ad.read()
        f = ad.forest(before)
        sub = h.read()
        for op, via, ac, tc in operations(h, job, labels):
            tag = (op, h.cls[via].__name__, ac, tc)
            with sc.probe():
                outcome = perform(h, op, via, ac, tc, pks)
                out.n += 1
                try:
                    # the order as the class itself reports it is judged too
                    g, rows = O.judge(ad, h.cls[via], f, before, op, pks, outcome)
                    now = h.read()
                    for depth in (0, 1):
                        want = {pk: v for pk, v in sub[depth].items() if pk in rows}
                        for pk in set(rows) - set(before):
                            if "BCG".index(h.label[via]) > depth:
                                want[pk] = ("extra-new", "more-new")[depth]
                        if now[depth] != want:
                            raise O.Bad(f"rows of {h.tables[depth].__name__}: {now[depth]}, expected {want}")
                    if op[0] in ("root", "child", "sib") and outcome[0] == "ok" and type(outcome[1]) is not h.cls[via]:
                        raise O.Bad(f"returned a {type(outcome[1]).__name__}")
                except O.Bad as e:
                    out.violation(tag, e.what)
                    continue
                out.notes.add((op[0], via, ac if op[0] != "qdel" else None, tc, outcome[0]))
                order = ad.order(rows, g)
                s2 = ad.canon(rows, g)
                if not getattr(job, "seeds_only", False) and ad.in_bounds(s2, job.bounds):
                    lab = h.labels(order, now)
                    if (s2, lab) != state:
                        out.succ.append(((s2, lab), tag))
        if not (ad.kind == "AL" and ties(ad, f, before)):  # the order of equal keys is nobody's promise there
            reads(h, out, f, before, labels, dict(zip(pks, labels)))
    return out


def ties(ad, f, rows):
    return bool(ad.keys) and any(len({ad.payload(rows[x]) for x in f.kids(p)}) < len(f.kids(p)) for p in [None, *f.ch])


def reads(h, out, f, rows, labels, label):
    """Every navigation call through every class, from every node fetched as every class it has."""
    shape = f.show({k: v["desc"] for k, v in rows.items()})
    for via, cls in h.cls.items():
        nv = nav.Nav(h.ad, cls.objects, f, lambda what, msg: out.violation(("read", what), f"{cls.__name__}: {what} {msg}; tree {shape}, classes {labels}"))
        nv.names = {pk: d["desc"] for pk, d in rows.items()}
        nv.type = cls if via in ("Proxy", "ProxyProxy") else h.cls[""]
        nv.forest_level()
        objs = {}
        for pk in f.dfs():
            if via in h.views[label[pk]]:
                objs[pk] = cls.objects.get(pk=pk)
                nv.node(objs[pk], full=len(labels) < 4)
                nv.group("get_descendants_group_count", lambda: cls.objects.get_descendants_group_count(objs[pk]), f.ch[pk])
        base = {pk: h.cls[""].objects.get(pk=pk) for pk in f.dfs()}
        for a in objs.values():
            for b in base.values():
                nv.pair(a, b)
                if a.pk != b.pk:
                    nv.pair(b, a)
        out.n += nv.calls
        out.stats["reads"] += nv.calls


def replay(job, start, ops, target):
    """A recorded history again, without restoring any state in between."""
    h = Hierarchy(job)
    ad = h.ad
    tree, labels = start
    if not ops:
        return "skip"
    with Scratch():
        pks = ad.restore(tree)
        h.put(labels, pks)
        for op, via, ac, tc in ops:
            name = via[len(job.adapter) :]
            outcome = perform(h, op, name, ac, tc, pks)
            if outcome[0] == "exc":
                return f"{op} raised {outcome[1]!r}"
            rows = ad.read()
            f = ad.forest(rows)
            pks = ad.order(rows, f)
        got = (ad.canon(rows, f), h.labels(pks, h.read()))
    if got != target:
        return f"history leads to {got} without restoring states, {target} with"
    return None


__all__ = ["J"]
