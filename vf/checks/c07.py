"""C07: a rejected request raises the documented exception and changes nothing."""

from vf import forest as F
from vf import jobs as J
from vf import ops as O
from vf import treeops
from vf.adapters import Scratch
from vf.explore import Job, Out
from vf.forest import POS_CHILD, POS_SIB

ID = "C07"
TRACE_STRICT = False

BOGUS = ("bogus", "", "LEFT", "last", "sibling", "right ")


def jobs(tier):
    big = tier == "thorough"
    shapes = [(F.shape_parents(s), None, None) for n in range(0, 6 if big else 5) for s in F.shapes(n)]
    shapes += [J.MIX, J.DEEP]
    keyed = []
    for p, _, _ in shapes:
        cnt, pay = {}, []
        for i, q in enumerate(p):
            cnt[q] = cnt.get(q, 0) + 1
            pay.append((cnt[q] // 2 + 1,))
        keyed.append((p, pay, None))
    js = []
    for k in ("MP", "NS", "AL", "LT"):
        pg = {"engine": "pg"} if k == "LT" else {}
        js.append(Job(k + "Std", adapter=k + "Std", seeds=shapes, seeds_only=True, chunk=1, **pg))
        js.append(Job(k + "Sort", adapter=k + "Sort", seeds=keyed, seeds_only=True, chunk=1, **pg))
        js.append(Job(k + "StdChild", adapter=k + "Std", via=k + "StdProxy", seeds=shapes[3:9], seeds_only=True, chunk=1, **pg))
        if big:
            js.append(Job(k + "Std-pg", engine="pg", adapter=k + "Std", seeds=shapes, seeds_only=True, chunk=1))
    return js


def initial(job):
    return treeops.expand_seed(job)


def positions(ad, op):
    """(position, names of the exceptions it may raise) for the positions `op` has to refuse."""
    for pos in BOGUS:
        yield pos, ("InvalidPosition",)
    if op == "sib":
        for pos in (*POS_CHILD, "sorted-child"):
            yield pos, ("InvalidPosition",)
        if ad.order_by:
            for pos in POS_SIB:
                yield pos, ("InvalidPosition",)
        else:
            yield "sorted-sibling", ("MissingNodeOrderBy",)
    else:
        if ad.order_by:
            for pos in POS_SIB + POS_CHILD:
                yield pos, ("InvalidPosition",)
        else:
            for pos in ("sorted-sibling", "sorted-child"):
                yield pos, ("MissingNodeOrderBy",)


def requests(ad, model, f, pks, get):
    """(description, call, exception names)"""
    m = model.objects
    order = f.dfs()
    name = {pk: i for i, pk in enumerate(pks)}

    def kw(**extra):
        d = {"desc": O.NEW, **dict.fromkeys(ad.keys, 2), **extra}
        return d

    dup = ("NodeAlreadySaved",)
    val = ("ValueError",)
    posn = "sorted-sibling" if ad.order_by else "left"
    childs = ("sorted-child",) if ad.order_by else POS_CHILD
    sibs = ("sorted-sibling",) if ad.order_by else POS_SIB
    # add_root
    yield ("root", "neither"), lambda: m.add_root(), val
    yield ("root", "both"), lambda: m.add_root(kw(), instance=model(**kw())), val
    yield ("root", "unknown field"), lambda: m.add_root(kw(nofield=1)), ("TypeError", "FieldError", "AttributeError")
    for t in order:
        i = name[t]
        yield ("root", "saved", i), lambda: m.add_root(instance=get(t)), dup
        for s in (order if len(order) <= 4 else order[:1] + [t]):
            j = name[s]
            yield ("child", i, "saved", j), lambda: m.add_child(get(t), instance=get(s)), dup
            for pos in (None, *sibs):
                yield ("sib", i, pos, "saved", j), lambda: m.add_sibling(get(t), pos, instance=get(s)), dup
        yield ("child", i, "neither"), lambda: m.add_child(get(t)), val
        yield ("child", i, "both"), lambda: m.add_child(get(t), kw(), instance=model(**kw())), val
        yield ("child", i, "unknown field"), lambda: m.add_child(get(t), kw(nofield=1)), ("TypeError", "FieldError", "AttributeError")
        for pos in (None, *sibs):
            yield ("sib", i, pos, "neither"), lambda: m.add_sibling(get(t), pos), val
            yield ("sib", i, pos, "both"), lambda: m.add_sibling(get(t), pos, kw(), instance=model(**kw())), val
            yield ("sib", i, pos, "unknown field"), lambda: m.add_sibling(get(t), pos, kw(nofield=1)), ("TypeError", "FieldError", "AttributeError")
        for pos, exc in positions(ad, "sib"):
            yield ("sib", i, pos), lambda: m.add_sibling(get(t), pos, kw()), exc
            yield ("sib", i, pos, "instance"), lambda: m.add_sibling(get(t), pos, instance=model(**kw())), exc
        used = ("IntegrityError", "NodeAlreadySaved")
        for s in order[:2] + [t]:
            j = name[s]
            yield ("child", i, "used id", j), lambda: m.add_child(get(t), instance=model(pk=s, **kw())), used
            yield ("child", i, "used id in kwargs", j), lambda: m.add_child(get(t), kw(pk=s)), used
            for pos in (None, *sibs):
                yield ("sib", i, pos, "used id", j), lambda: m.add_sibling(get(t), pos, instance=model(pk=s, **kw())), used
        # moves
        for a in order:
            j = name[a]
            inside = a in f.ancestors(t)
            for pos, exc in positions(ad, "move"):
                if inside or a == t:
                    exc = (*exc, "InvalidMoveToDescendant")
                yield ("move", j, i, pos), lambda: m.move(get(a), get(t), pos), exc
            if inside:
                for pos in (None, *sibs, *childs):
                    yield ("move", j, i, pos), lambda: m.move(get(a), get(t), pos), ("InvalidMoveToDescendant",)
            if a == t:
                for pos in childs:
                    yield ("move", j, i, pos), lambda: m.move(get(a), get(t), pos), ("InvalidMoveToDescendant",)
        # load_bulk
        data = [{"data": kw(), "children": [{"data": kw()}]}]
        pkn = ad.meta.pk.attname
        one = {"data": kw(), pkn: 990001}
        for parent in (None, t):
            par = lambda: None if parent is None else get(parent)  # noqa: E731
            w = ("load", None if parent is None else i)
            for bulk in ((False, True) if ad.kind == "MP" else (False,)):
                o = {"bulk_create": True} if bulk else {}
                yield (*w, "no ids", bulk), lambda: m.load_bulk(data, par(), keep_ids=True, **o), ("KeyError",)
                used = [{**one, "children": [{"data": kw(), pkn: t}]}]
                yield (*w, "used id below", bulk), lambda: m.load_bulk(used, par(), keep_ids=True, **o), ("IntegrityError", "NodeAlreadySaved")
                twice = [one, dict(one)]
                yield (*w, "id twice", bulk), lambda: m.load_bulk(twice, par(), keep_ids=True, **o), ("IntegrityError", "NodeAlreadySaved")
                top = [{"data": kw(), pkn: t}]
                yield (*w, "used id", bulk), lambda: m.load_bulk(top, par(), keep_ids=True, **o), ("IntegrityError", "NodeAlreadySaved")
    yield ("root", "used id"), (lambda: m.add_root(instance=model(pk=order[0], **kw()))) if order else (lambda: m.add_root()), (
        "IntegrityError", "NodeAlreadySaved", *(() if order else val),
    )  # fmt: skip


def deletes(ad, model, f, pks, get):
    """Deletes that a protecting row forbids: every protected node, every way to reach it."""
    from vf.app import models as M

    prot = getattr(M, ad.kind + "Prot")
    dep = getattr(M, ad.kind + "Dep")
    name = {pk: i for i, pk in enumerate(pks)}
    for p in f.dfs():
        for t in [p, *f.ancestors(p)]:

            def single():
                get(t).delete()

            def many():
                model.objects.filter(pk__in=[x for x in f.dfs() if x != p or t == p]).delete()

            for kind, call in (("del", single), ("qdel", many)):
                yield (kind, name[t], "protected", name[p]), call, (prot, dep, p)


def expand(job, state):
    ad = treeops.get_adapter(job.adapter)
    model = treeops.driver(job)
    out = Out()
    with Scratch() as sc:
        pks = ad.restore(state)
        before = ad.read()
        f = ad.forest(before)

        held = []

        def get(pk):
            held.append(model.objects.get(pk=pk))
            return held[-1]

        def attempt(op, call, excs, check=None):
            out.n += 1
            held.clear()
            try:
                call()
                got = None
            except Exception as e:  # noqa: BLE001
                got = e
            if got is None:
                out.violation(op, f"accepted, expected {' or '.join(excs)}")
                return
            names = {c.__name__ for c in type(got).__mro__}
            if not names & set(excs):
                out.violation(op, f"raised {type(got).__name__}: {got}, expected {' or '.join(excs)}")
                return
            for obj in held if op[0] != "load" else ():  # a bulk load adds one node after the other
                try:
                    O.undisturbed(ad, before, {"given": obj})
                except O.Bad as e:
                    out.violation(op, e.what)
            out.notes.add((op[0], op[-1] if isinstance(op[-1], str) else None, type(got).__name__))
            from django.db import connections

            if connections[ad.alias].needs_rollback:
                # the library leaves the transaction to be rolled back, in which case nothing was written
                out.stats["transaction_aborted"] += 1
                return
            try:
                rows = ad.read()
            except Exception:  # noqa: BLE001 - PostgreSQL refuses: the transaction is aborted, nothing is kept
                out.stats["transaction_aborted"] += 1
                return
            if rows != before:
                out.violation(op, f"raised {type(got).__name__} but the stored tree changed: {ad.canon(rows)}")
            elif check:
                check()

        for op, call, excs in requests(ad, model, f, pks, get):
            with sc.probe():
                attempt(op, call, excs)
        if job.adapter.endswith("Std"):
            for op, call, (prot, dep, p) in deletes(ad, model, f, pks, get):
                with sc.probe():
                    prot.objects.create(node_id=p)
                    for x in pks:
                        dep.objects.create(node_id=x)
                    n = dep.objects.count()

                    def kept():
                        if dep.objects.count() != n or prot.objects.count() != 1:
                            out.violation(op, "rows that refer to the nodes disappeared")

                    attempt(op, call, ("ProtectedError",), kept)
    return out


replay = treeops.replay
