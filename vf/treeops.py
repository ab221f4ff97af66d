"""Shared expansion: every operation of the given classes from one stored state."""

import os
from itertools import combinations, product

from vf import ops as O
from vf.adapters import Malformed, Scratch, adapter
from vf.explore import Out

_ad = {}


def get_adapter(name):
    if name not in _ad:
        # under the router of C23 the trees live in another database
        _ad[name] = adapter(name, "tree" if os.environ.get("VF_ROUTED") else "default")
    return _ad[name]


def driver(job):
    """Model class the API calls are made on (the tree's own class unless the job says otherwise)."""
    from vf.app import models

    return getattr(models, getattr(job, "via", None) or job.adapter)


def vals_for(ad, job):
    vs = getattr(job, "vals", None)
    if vs is None:
        if ad.keys == ["name"]:
            return (("a",), ("B",), ("b",))
        if len(ad.keys) == 1:
            return ((1,), (2,), (3,))
        return tuple(product((1, 2), repeat=len(ad.keys)))
    return vs


def enumerate_ops(ad, job, n, classes):
    pick = getattr(job, "pick", None)
    if pick is None:
        yield from all_ops(ad, job, n, classes)
        return
    # a large tree: single-node operations on, and querysets of, the picked nodes only
    pick = [i for i in pick if i < n]
    for op in all_ops(ad, job, n, [c for c in classes if c != "qdelete"]):
        if all(x in pick for x in op[1:3] if isinstance(x, int)):
            yield op
    if "qdelete" in classes:
        for x, y in combinations(pick, 2):
            yield ("qdel", (x, y))


def all_ops(ad, job, n, classes):
    vals = vals_for(ad, job)
    for c in classes:
        if c == "insert":
            yield from O.insert_ops(ad, n, vals=vals)
        elif c == "insert1":
            yield from O.insert_ops(ad, n, styles=("k",), vals=vals)
        elif c == "append":
            for v in vals:
                yield ("root", "k", v)
                for t in range(n):
                    yield ("child", t, "k", v)
        elif c == "left":
            for t in range(n):
                for v in vals:
                    yield ("sib", t, "sorted-sibling" if ad.order_by else "left", "k", v)
        elif c == "move":
            yield from O.move_ops(ad, n)
        elif c == "delete":
            yield from O.delete_ops(n)
        elif c == "qdelete":
            yield from O.qdelete_ops(n)


def note(op, f, pks, ad):
    """Coarse class of a transition, for the evidence."""
    if op[0] == "move":
        a, t = pks[op[1]], pks[op[2]]
        rel = "self" if a == t else "desc" if a in f.ancestors(t) else "anc" if t in f.ancestors(a) else "other"
        if f.par[a] == f.par[t] and a != t:
            s = f.siblings(a)
            rel = "sib-" + ("fwd" if s.index(a) < s.index(t) else "back")
        return ("move", op[3], rel, bool(f.ch[a]), bool(f.ch[t]))
    if op[0] == "sib":
        s = f.siblings(pks[op[1]])
        k = s.index(pks[op[1]])
        return ("sib", op[2], op[3], k == 0, k == len(s) - 1, f.par[pks[op[1]]] is None)
    if op[0] == "child":
        return ("child", op[2], len(f.ch[pks[op[1]]]))
    if op[0] == "root":
        return ("root", op[1], len(f.roots))
    if op[0] == "del":
        return ("del", len(f.ch[pks[op[1]]]), f.par[pks[op[1]]] is None)
    return (op[0], len(op[1]))


def expand(job, state, judged, reach=(), judge=O.judge, after=None, classify=None):
    """Run each op of the classes `judged` (judged) and `reach` (only followed) from `state`."""
    ad = get_adapter(job.adapter)
    model = driver(job)
    out = Out()
    b = job.bounds
    with Scratch(ad.alias) as sc:
        pks = ad.restore(state)
        before = ad.read()
        f = ad.forest(before)
        n = len(pks)
        oplist = [(op, True) for op in enumerate_ops(ad, job, n, judged)]
        oplist += [(op, False) for op in enumerate_ops(ad, job, n, reach)]
        closed = n > b.get("expand_n", 99)
        for op, jd in oplist:
            if closed and not jd:
                continue
            with sc.probe():
                outcome = O.run(ad, model, op, pks)
                out.n += 1
                try:
                    g, rows = judge(ad, model, f, before, op, pks, outcome)
                    if after:
                        after(ad, model, f, before, op, pks, outcome, g, rows)
                except O.Bad as e:
                    if jd:
                        fid = classify(ad, state, f, before, op, pks, outcome, e) if classify else None
                        out.violation(op, e.what, fid)
                        if fid:
                            out.stats["known"] += 1
                    else:
                        out.stats["reach_edge_dropped"] += 1
                    continue
                if jd:
                    out.notes.add(note(op, f, pks, ad) + ((outcome[0],) if outcome[0] != "ok" else ()))
                s2 = ad.canon(rows, g)
                if s2 != state and not getattr(job, "seeds_only", False) and ad.in_bounds(s2, b):
                    out.succ.append((s2, op))
    return out


def expand_seed(job):
    """Initial states of a job: the empty database, or explicit seeds."""
    seeds = getattr(job, "seeds", None)
    if seeds is None:
        return [()]
    ad = get_adapter(job.adapter)
    out = []
    for s in seeds:
        parents, payload, gaps = (list(s) + [None, None])[:3]
        out.append(ad.build(parents, payload, gaps))
    out += getattr(job, "raw", [])
    return out


def build(ad, model, state, later=False):
    """Build the tree of a seed state with add_root and add_child; it has to be the tree the search started from.

    later: all nodes get the same key, the keys of the seed state are given to them by save() afterwards.
    """
    with Scratch(ad.alias):
        ad.restore(state)
        rows = ad.read()
        f = ad.forest(rows)

    def shape(g, d, ids):
        return [(ad.payload(d[i]), shape(g, d, g.ch[i])) for i in ids]

    want = shape(f, rows, f.roots)
    want_keys = {i: ad.payload(rows[i]) for i in rows}
    with Scratch(ad.alias):
        new = {}
        for i in f.dfs():
            kw = O.kwargs_for(ad, ad.payload(rows[i]))
            if later:
                kw.update(dict.fromkeys(ad.keys, 1))
            if f.par[i] is None:
                new[i] = model.objects.add_root(kw)
            else:
                new[i] = model.objects.add_child(model.objects.get(pk=new[f.par[i]].pk), kw)
        if later:
            for i, obj in new.items():
                obj = model.objects.get(pk=obj.pk)
                for k, v in zip(ad.keys, want_keys[i]):
                    setattr(obj, k, v)
                obj.save()
        rows = ad.read()
        f = ad.forest(rows)
        got = shape(f, rows, f.roots)
    if got != want:
        return f"built through the API the tree is {got}, the seed state is {want}"
    return None


def replay(job, start, ops, target):
    """Run a recorded history through the public API only, starting from `start`.

    The primary keys are the ones the database hands out, nothing is restored in
    between; the state reached has to be the one the search recorded.
    Returns None or a description of the difference.
    """
    ad = get_adapter(job.adapter)
    model = driver(job)
    if not ops:
        return build(ad, model, start, later=getattr(job, "drift", False))
    with Scratch(ad.alias):
        pks = ad.restore(start)
        for op in ops:
            outcome = O.run(ad, model, op, pks)
            if outcome[0] == "exc":
                return f"{op} raised {type(outcome[1]).__name__}: {outcome[1]}"
            rows = ad.read()
            f = ad.forest(rows)
            pks = ad.order(rows, f)
        rows = ad.read()
        got = ad.canon(rows)
    if got != target:
        return f"history leads to {got} without restoring states, {target} with"
    return None


def child_rows(ad, model, pks):
    """Give every restored row its part in the table of the multi-table child class `model`."""
    model = model._meta.concrete_model
    link = model._meta.pk  # the parent link, to the base or to another child class
    if link.remote_field.model._meta.concrete_model is not ad.base:
        child_rows(ad, link.remote_field.model, pks)
    extra = [f for f in model._meta.local_concrete_fields if f is not link]
    cols = [link.column] + [f.column for f in extra]
    sql = f"INSERT INTO {model._meta.db_table} ({', '.join(cols)}) VALUES ({', '.join(['%s'] * len(cols))})"
    with ad.conn.cursor() as c:
        for pk in pks:
            c.execute(f"SELECT 1 FROM {model._meta.db_table} WHERE {link.column} = %s", [ad.dbpk(pk)])
            if c.fetchone() is None:
                c.execute(sql, [ad.dbpk(pk)] + [f.get_db_prep_save(f.get_default(), ad.conn) for f in extra])


__all__ = ["Malformed", "driver", "expand", "expand_seed", "get_adapter", "replay"]
