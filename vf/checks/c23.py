"""C23: with a database router every operation stays on the routed database."""

import os

os.environ["VF_ROUTED"] = "1"  # read by vf.env in every worker of this check

from vf import forest as F  # noqa: E402
from vf import nav, treeops  # noqa: E402
from vf import ops as O  # noqa: E402
from vf.adapters import Scratch  # noqa: E402
from vf.checks import c11, c14, c17, c18  # noqa: E402
from vf.explore import Job, Out  # noqa: E402

ID = "C23"
TRACE_STRICT = False
ASSUMPTIONS = ["The router sends reads and writes of the tree models to the same database; a read replica is not modelled."]


def jobs(tier):
    big = tier == "thorough"
    n = (0, 1, 2, 3, 4) if big else (0, 1, 2, 3)
    std = [(F.shape_parents(s), None, None) for k in n for s in F.shapes(k)]
    mix = [([None, 0, 0, None, 3], None, None)]
    gaps = [(p, None, [1, 0, 2, 0, 1]) for p, _, _ in std if len(p) > 1]
    key = [
        ([None, None], [(1,), (3,)], None),
        ([None, 0, 0, None], [(1,), (1,), (3,), (3,)], None),
        ([None, 0, 0, 0], [(1,), (2,), (2,), (3,)], None),
    ]
    js = []
    for k in ("MP", "NS", "AL", "LT"):
        pg = {"engine": "pg"} if k == "LT" else {}
        js.append(Job(k + "Std", adapter=k + "Std", seeds=std + mix + (gaps if k == "MP" else []), chunk=1, **pg))
        js.append(Job(k + "Sort", adapter=k + "Sort", seeds=key, chunk=1, **pg))
        # the form and the admin
        few = [([None, 0, None], None, None), mix[0]] if big else mix
        js.append(Job(k + "Std-form", adapter=k + "Std", seeds=few, chunk=1, part="form", **pg))
        js.append(Job(k + "Std-admin", adapter=k + "Std", seeds=few, inline=True, chunk=1, part="admin", **pg))
        js.append(Job(k + "Sort-form", adapter=k + "Sort", seeds=key[1:2], chunk=1, part="form", **pg))
        js.append(Job(k + "Sort-admin", adapter=k + "Sort", seeds=key[1:2], chunk=1, part="admin", **pg))
        js.append(Job(k + "Rel", adapter=k + "Rel", seeds=mix, chunk=1, **pg))
        # failures: the rollback happens on the routed database
        fs = [([None], None, None), ([None, 0], None, None), ([None, 0, None], None, None)]
        js.append(Job(k + "Std-faults", adapter=k + "Std", seeds=fs + (mix if big else []), chunk=1, fault=True, **pg))
        js.append(Job(k + "Sort-faults", adapter=k + "Sort", seeds=key[: 3 if big else 1], chunk=1, fault=True, **pg))
    js.append(Job("MP-fix-faults", adapter="MPStd", seeds=gaps[:4], chunk=1, fault=True, ops=("fix",)))
    return js


def initial(job):
    return treeops.expand_seed(job)


class Touched(Exception):
    pass


class Guard:
    """Any use of the default database is recorded and refused."""

    names = ("ensure_connection", "connect", "cursor", "_cursor", "set_autocommit", "savepoint", "savepoint_commit",
             "savepoint_rollback", "commit", "rollback", "validate_no_atomic_block", "get_autocommit", "on_commit")  # fmt: skip

    def __init__(self):
        from django.db import connections

        self.conn = connections["default"]
        self.seen = []

    def __enter__(self):
        for n in self.names:
            if hasattr(self.conn, n):
                setattr(self.conn, n, self.refuse(n))
        return self

    def refuse(self, name):
        def stop(*a, **kw):
            self.seen.append(name)
            raise Touched(f"{name}() on the default database")

        return stop

    def __exit__(self, *exc):
        for n in self.names:
            self.conn.__dict__.pop(n, None)
        return False


_sig = {"on": False, "seen": None}


def listen():
    if _sig["on"]:
        return
    _sig["on"] = True
    from django.db.models import signals as ds

    from treebeard import mp_tree, ns_tree

    sigs = [mp_tree.path_updated, mp_tree.nodes_deleted, ns_tree.gap_altered, ns_tree.tree_ids_incremented,
            ns_tree.subtree_moved, ns_tree.nodes_deleted, ds.post_save, ds.post_delete]  # fmt: skip
    try:
        from treebeard import ltree

        sigs += [ltree.subtree_moved_right, ltree.subtree_moved, ltree.nodes_deleted]
    except ImportError:
        pass

    def handler(sender, using, **kw):
        if _sig["seen"] is not None:
            _sig["seen"].append((sender.__name__, using))

    _sig["handler"] = handler
    for s in sigs:
        s.connect(handler, weak=False)


def expand(job, state):
    listen()
    with Guard() as guard:
        if getattr(job, "fault", False):
            out = c14.expand(job, state)
        elif hasattr(job, "part"):
            out = (c17 if job.part == "form" else c18).expand(job, state)
        else:
            out = walk(job, state, guard)
        if guard.seen and not out.bad:
            out.violation(("any",), f"the default database was touched: {guard.seen[:5]}")
    return out


def walk(job, state, guard):
    ad = treeops.get_adapter(job.adapter)
    model = treeops.driver(job)
    out = Out()
    with Scratch(ad.alias) as sc:
        pks = ad.restore(state)
        rows = ad.read()
        f = ad.forest(rows)
        n = len(pks)

        def ask(op, what=None):
            """Signals and the default database after one operation."""
            out.n += 1
            out.notes.add((op[0], tuple(sorted({u for _, u in _sig["seen"]}))))
            out.stats["signals"] += len(_sig["seen"])
            if guard.seen:
                out.violation(op, f"the default database was touched: {guard.seen[:3]}" + (f"; {what}" if what else ""))
            elif what:
                out.violation(op, what)
            elif any(u != "tree" for _, u in _sig["seen"]):
                out.violation(op, f"signals were sent for {[s for s in _sig['seen'] if s[1] != 'tree']}")
            guard.seen.clear()

        classes = ("insert", "move", "delete", "qdelete") if n < 4 else ("insert1", "move", "delete", "qdelete")
        for op in treeops.enumerate_ops(ad, job, n, classes):
            with sc.probe():
                _sig["seen"] = []
                outcome = O.run(ad, model, op, pks)
                what = None
                try:
                    O.judge(ad, model, f, rows, op, pks, outcome)
                except O.Bad as e:
                    what = e.what
                if outcome[0] == "ok" and op[0] in ("root", "child", "sib") and outcome[1]._state.db != "tree":
                    what = f"the new node belongs to {outcome[1]._state.db!r}"
                ask(op, what)
        kw = dict.fromkeys(ad.keys, 2)
        data = [
            {"data": {"desc": "a", **kw}, "children": [{"data": {"desc": "b", **kw}, "children": []}, {"data": {"desc": "c", **kw}}]},
            {"data": {"desc": "d", **kw}},
        ]
        m = model.objects
        for parent in [None, *pks]:
            i = None if parent is None else pks.index(parent)
            get = lambda: None if parent is None else m.get(pk=parent)  # noqa: E731
            for bulk in (False, True) if ad.kind == "MP" else (False,):
                with sc.probe():
                    op = ("load", i, bulk)
                    _sig["seen"] = []
                    what = None
                    try:
                        res = m.load_bulk(data, get(), **({"bulk_create": True} if bulk else {}))
                        src = {x: c11.values(ad, model)[next(p for p, d in ad.read().items() if d["desc"] == x and p not in rows)] for x in "abcd"}
                        what = c11.judge_load(ad, model, f, rows, {}, data, src, parent, res, False, "", bulk)
                    except Exception as e:  # noqa: BLE001
                        what = f"raised {type(e).__name__}: {e}"
                    ask(op, what)
            for name, call in (
                ("dump", lambda: m.dump_bulk(get())),
                ("annotated", lambda: m.get_annotated_list(get())),
                ("find_problems", lambda: m.find_problems(get()) if hasattr(m, "find_problems") else None),
                ("fix_tree", lambda: m.fix_tree(parent=get()) if ad.kind == "MP" else None),
                ("fix_paths", lambda: m.fix_tree(fix_paths=True, parent=get()) if ad.kind == "MP" else None),
            ):
                with sc.probe():
                    _sig["seen"] = []
                    what = None
                    try:
                        r = call()
                        if name == "find_problems" and r is not None and any(r):
                            what = f"returned {r}"
                        if name == "dump" and len(r) != (len(f.roots) if parent is None else 1):
                            what = f"{len(r)} nodes at the top of the dump"
                        if name == "annotated" and [x.pk for x, _ in r] != f.dfs(parent):
                            what = f"returned {[x.pk for x, _ in r]}"
                    except Exception as e:  # noqa: BLE001
                        what = f"raised {type(e).__name__}: {e}"
                    ask((name, i), what)
        _sig["seen"] = []
        said = []
        out.n += nav.sweep(ad, model, f, rows, lambda what, msg: said.append(f"{what} {msg}"), pairs=n < 4)
        ask(("reads",), said[0] if said else None)
        for pk in pks:
            for parts in (True,):
                o = m.get(pk=pk)
                if o._state.db != "tree" or any(x._state.db != "tree" for x in m.get_descendants(o)):
                    out.violation(("reads",), "objects do not belong to the routed database")
    return out


def replay(job, start, ops, target):
    if treeops.get_adapter(job.adapter).order_by:
        return "skip"
    return treeops.replay(job, start, (), None)
