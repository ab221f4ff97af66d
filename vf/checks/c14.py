"""C14: a failing operation leaves no trace: a fault at every SQL statement and at the commit."""

from django.db import connections, transaction
from django.db.utils import OperationalError

from vf import forest as F
from vf import ops as O
from vf import treeops
from vf.explore import Job, Out

ID = "C14"
LEVEL = "fault_enumeration"
TRACE_STRICT = False
RULE = (
    "an execution counts as non-trivial when at least one INSERT, UPDATE or DELETE had already been executed when the fault "
    "was injected, so that something has to be rolled back; executions are distinct by (job, stored tree, operation, "
    "statement number, fault mode, transaction mode)"
)
ASSUMPTIONS = [
    "A failing statement is simulated by raising OperationalError in place of the statement, or right after it; a failing "
    "commit by raising in place of COMMIT. The database itself is trusted to roll back."
]


def jobs(tier):
    big = tier == "thorough"
    n = (1, 2, 3, 4) if big else (1, 2, 3)
    std = [(F.shape_parents(s), None, None) for k in n for s in F.shapes(k)]
    gaps = [(p, None, [1, 0, 2, 0, 1]) for p, _, _ in std if len(p) > 1]
    mix = [([None, 0, 0, None, 3], None, None), ([None, 0, 1, 0], None, [1, 1, 0, 1])]
    key = [
        ([None, None], [(1,), (3,)], None),
        ([None, 0, 0, None], [(1,), (1,), (3,), (3,)], None),
        ([None, 0, 0, 0], [(2,), (1,), (2,), (3,)], None),
        ([None, 0, 1, None, 3], [(1,), (2,), (1,), (2,), (1,)], None),
    ]
    broken = [(("0002", 2, 1), ("00020003", 1, 0)), (("0001", 1, 0), ("00010001", 2, 0), ("0003", 3, 4)), (("0001", 1, 3), ("0002", 2, 0))]
    js = []
    for k in ("MP", "NS", "AL", "LT"):
        pg = {"engine": "pg"} if k == "LT" else {}
        seeds = std + gaps + mix if k == "MP" else std + mix
        if k == "LT" and not big:
            seeds = [s for s in std if len(s[0]) < 3] + [std[4], std[6]] + mix[:1]
        js.append(Job(k + "Std", adapter=k + "Std", seeds=seeds, chunk=1, **pg))
        js.append(Job(k + "Sort", adapter=k + "Sort", seeds=key if big or k != "LT" else key[:2], chunk=1, **pg))
        js.append(Job(k + "StdChild", adapter=k + "Std", via=k + "StdChild", seeds=mix[:1] + std[:3], chunk=1, **pg))
        js.append(Job(k + "Rel", adapter=k + "Rel", seeds=mix[:1], chunk=1, ops=("load",), **pg))
        if big and k != "LT":
            js.append(Job(k + "Std-pg", engine="pg", adapter=k + "Std", seeds=std[:8] + mix, chunk=1))
    js.append(Job("MPTen", adapter="MPTen", seeds=[([None] * 3, None, [6, 0, 0]), ([None, 0, 0, 0, 0], None, [0, 4, 0, 0, 0])], chunk=1))
    few = [std[2], std[4], mix[0]] if big else [std[2], ([None, 0, None], None, None)]
    for k in ("MP", "NS", "AL", "LT"):
        pg = {"engine": "pg"} if k == "LT" else {}
        js.append(Job(k + "Std-form", adapter=k + "Std", seeds=few, chunk=1, ops=("form",), **pg))
        js.append(Job(k + "Sort-form", adapter=k + "Sort", seeds=key[1:2], chunk=1, ops=("form",), **pg))
    # wrong depths and child counts on top of gaps
    js.append(Job("MP-fix-broken", adapter="MPStd", seeds=[], raw=broken, chunk=1, ops=("fix",)))
    js.append(Job("MP-fix", adapter="MPStd", seeds=(gaps + mix), chunk=1, ops=("fix",)))
    js.append(Job("MPSort-fix", adapter="MPSort", chunk=1, ops=("fix",), seeds=[
        ([None, None, None], [(3,), (2,), (1,)], None), ([None, 0, 0, 0], [(2,), (3,), (1,), (2,)], None),
        ([None, 0, 0, None], [(3,), (3,), (1,), (1,)], [1, 1, 0, 0]),
    ]))  # fmt: skip
    return js


def initial(job):
    return treeops.expand_seed(job)


def more(ad, job, n):
    """Operations besides the single-node ones."""
    yield ("load", None, False)
    if n:
        yield ("load", n - 1, False)
        yield ("load", 0, False)
    if ad.kind == "MP" and not getattr(job, "via", None):
        yield ("load", None, True)
        if n:
            yield ("load", 0, True)


def enum(ad, job, n):
    ops = getattr(job, "ops", None)
    if ops == ("fix",):
        yield ("fix", None)
        for i in range(n):
            yield ("fix", i)
        return
    if ops == ("form",):
        for ref in [None, *range(n)]:
            for pos in ("sorted-child", "sorted-sibling") if ad.order_by else ("first-child", "left", "right"):
                for node in [None, *range(n)]:
                    yield ("form", node, ref, pos)
        for a in range(n):
            for t in range(n):
                for rel in ("child", "sibling"):
                    yield ("admin", a, t, rel)
        return
    if ops != ("load",):
        classes = ("insert1", "move", "delete", "qdelete") if n < 4 else ("insert1", "move", "delete")
        yield from treeops.enumerate_ops(ad, job, n, classes)
    yield from more(ad, job, n)


def run(ad, model, op, pks):
    if op[0] in ("form", "admin"):
        try:
            return (form if op[0] == "form" else admin)(ad, model, op, pks)
        except Exception as e:  # noqa: BLE001
            return ("exc", e)
    if op[0] not in ("fix", "load"):
        return O.run(ad, model, op, pks)
    base = model.objects.tree_model
    try:
        parent = None if op[1] is None else base.objects.get(pk=pks[op[1]])
        if op[0] == "fix":
            return ("ok", model.objects.fix_tree(fix_paths=True, parent=parent), {})
        kw = dict.fromkeys(ad.keys, 2)
        if hasattr(model, "tags"):
            from vf.app.models import Tag

            kw["tags"] = list(Tag.objects.values_list("pk", flat=True))
        data = [
            {"data": {"desc": "a", **kw}, "children": [{"data": {"desc": "b", **kw}}, {"data": {"desc": "c", **kw}}]},
            {"data": {"desc": "d", **kw}},
        ]
        o = {"bulk_create": True, "batch_size": 1} if op[2] else {}
        return ("ok", model.objects.load_bulk(data, parent, **o), {})
    except Exception as e:  # noqa: BLE001
        return ("exc", e)


def form(ad, model, op, pks):
    """A MoveNodeForm that also changes the other fields."""
    from treebeard.forms import movenodeform_factory

    _, node, ref, pos = op
    data = {"desc": "new", "treebeard_position": pos, "treebeard_ref_node": "" if ref is None else str(pks[ref]), **dict.fromkeys(ad.keys, "2")}
    kw = {} if node is None else {"instance": model.objects.get(pk=pks[node])}
    f = movenodeform_factory(model)(data, **kw)
    if not f.is_valid():
        raise ValueError(f.errors.as_json())
    return ("ok", f.save(), {})


def admin(ad, model, op, pks):
    """The admin's move view."""
    from vf.checks import c18

    cl = c18.clients()["super"]
    cl.cookies.pop("messages", None)
    r = cl.post(f"/admin/vf/{model._meta.model_name}/move/", {"node": str(pks[op[1]]), "target": str(pks[op[2]]), "relation": op[3]})
    if r.status_code != 200:
        raise ValueError(f"status {r.status_code}")
    return ("ok", None, {})


class Fault(OperationalError):
    pass


class Inject:
    """Counts the statements and fails at one of them."""

    def __init__(self, conn, at=None, after=False, commit=False):
        self.conn, self.at, self.after, self.at_commit = conn, at, after, commit
        self.n = self.writes = self.fired = self.commits = 0

    def __call__(self, execute, sql, params, many, context):
        self.n += 1
        word = sql.lstrip().split(None, 1)[0].upper()
        if word in ("ROLLBACK", "RELEASE") and self.fired:
            return execute(sql, params, many, context)
        control = word in ("BEGIN", "SAVEPOINT", "RELEASE", "ROLLBACK")
        if self.n == self.at and (word == "BEGIN" or control and self.after):
            self.at = None  # a transaction that never began: nothing of the operation has run
        if self.n == self.at and not self.after:
            self.fired = 1
            raise Fault(f"injected at statement {self.n}: {sql[:80]}")
        r = execute(sql, params, many, context)
        if word in ("INSERT", "UPDATE", "DELETE", "WITH"):
            self.writes += 1
        if self.n == self.at:
            self.fired = 1
            raise Fault(f"injected after statement {self.n}: {sql[:80]}")
        return r

    def commit(self):
        self.commits += 1
        if self.at_commit and self.commits == self.at_commit:
            self.fired = 1
            raise Fault("injected at commit")
        return self.real()

    def __enter__(self):
        self.real = self.conn._commit
        self.conn._commit = self.commit
        self.cm = self.conn.execute_wrapper(self)
        self.cm.__enter__()
        return self

    def __exit__(self, *exc):
        self.cm.__exit__(*exc)
        del self.conn._commit
        return False


class World:
    """Commits a state for real, and takes it away again."""

    def __init__(self, ad, model, job):
        self.ad, self.model, self.job = ad, model, job
        self.conn = connections[ad.alias]
        from vf.app import models as M

        self.dep = getattr(M, ad.kind + "Dep") if ad.base.__name__.endswith("Std") else None
        self.tag = M.Tag
        self.child = model if getattr(job, "via", None) else None

    def wipe(self):
        with transaction.atomic(using=self.ad.alias):
            with self.conn.cursor() as c:
                if self.dep:
                    c.execute(f"DELETE FROM {self.dep._meta.db_table}")
                if self.child:
                    c.execute(f"DELETE FROM {self.child._meta.db_table}")
                if hasattr(self.model, "tags"):
                    c.execute(f"DELETE FROM {self.model.tags.through._meta.db_table}")
                if self.ad.kind == "AL":
                    c.execute(f'UPDATE {self.ad.bmeta.db_table} SET "{self.ad.pcol}" = NULL')
                self.ad.clear()
                c.execute(f"DELETE FROM {self.tag._meta.db_table}")

    def put(self, state):
        with transaction.atomic(using=self.ad.alias):
            pks = self.ad.restore(state)
            with self.conn.cursor() as c:
                if self.dep:
                    for i, pk in enumerate(pks):
                        c.execute(f"INSERT INTO {self.dep._meta.db_table} (id, node_id) VALUES (%s, %s)", [7000 + i, self.ad.dbpk(pk)])
                if self.child:
                    col = self.child._meta.pk.column
                    for pk in pks:
                        c.execute(f'INSERT INTO {self.child._meta.db_table} ("{col}", extra) VALUES (%s, %s)', [self.ad.dbpk(pk), "x"])
                if hasattr(self.model, "tags"):
                    for k in (1, 2):
                        c.execute(f'INSERT INTO {self.tag._meta.db_table} (id, "desc") VALUES (%s, %s)', [k, "t"])
        return pks

    def snapshot(self):
        out = [self.ad.read()]
        with self.conn.cursor() as c:
            for m in (self.dep, self.child, self.model.tags.through if hasattr(self.model, "tags") else None):
                if m is not None:
                    c.execute(f"SELECT * FROM {m._meta.db_table}")
                    out.append(sorted(c.fetchall(), key=repr))
        return out


def expand(job, state):
    ad = treeops.get_adapter(job.adapter)
    model = treeops.driver(job)
    out = Out()
    w = World(ad, model, job)
    conn = w.conn
    if getattr(job, "ops", None) == ("form",):
        from vf.checks import c18

        c18.clients()
    w.wipe()
    pks = w.put(state)
    before = w.snapshot()
    try:
        for op in enum(ad, job, len(pks)):
            with Inject(conn) as free:
                o = run(ad, model, op, pks)
            if w.snapshot() != before:
                w.wipe()
                w.put(state)
            if o[0] == "exc":
                continue  # refused anyway: C07
            out.stats["statements"] += free.n
            modes = ((False, False), (True, False), (False, True)) if op[0] not in ("form", "admin") else ((True, False),)
            plans = [("stmt", k, a, outer) for k in range(1, free.n + 1) for a, outer in modes]
            plans += [("commit", k, False, False) for k in range(1, free.commits + 1)]
            for kind, k, after, outer in plans:
                out.n += 1
                inj = Inject(conn, k if kind == "stmt" else None, after, k if kind == "commit" else False)
                bad = attempt(w, ad, model, op, pks, inj, outer, before)
                if not bad and not inj.fired and w.snapshot() != before:
                    w.wipe()
                    w.put(state)
                if bad:
                    out.violation((op, kind, k, "after" if after else "instead", "in a transaction" if outer else "autocommit"), bad)
                    w.wipe()
                    w.put(state)
                    return out
                if inj.writes:
                    out.stats["nontrivial"] += 1
                out.notes.add((op[0], kind, outer, bool(inj.writes)))
    finally:
        w.wipe()
    return out


def attempt(w, ad, model, op, pks, inj, outer, before):
    conn = w.conn
    note = None
    snap = None
    if outer:
        try:
            with transaction.atomic(using=ad.alias):
                with inj:
                    o = run(ad, model, op, pks)
                if o[0] == "exc":
                    # the caller handles the error and goes on in its transaction
                    if conn.needs_rollback and ad.kind == "AL" and op[0] in ("del", "qdel"):
                        pass  # Django's own delete(), which needs a rollback of the caller
                    elif conn.needs_rollback:
                        note = "after the error, the transaction of the caller can't go on"
                    else:
                        snap = w.snapshot()
                transaction.set_rollback(True, using=ad.alias)
        except Exception as e:  # noqa: BLE001
            note = f"the transaction around the operation ended with {type(e).__name__}: {e}"
    else:
        with inj:
            o = run(ad, model, op, pks)
        if conn.in_atomic_block or not conn.get_autocommit():
            conn.close() if conn.vendor != "sqlite" else None
            return "the connection is left inside a transaction"
        snap = w.snapshot()
    if note:
        return note
    if not inj.fired:
        return None  # a statement fewer this time (not a promise)
    if o[0] != "exc":
        return "the failure did not reach the caller"
    if not isinstance(o[1], Fault):
        seen, e = set(), o[1]
        while e is not None and id(e) not in seen and not isinstance(e, Fault):
            seen.add(id(e))
            e = e.__cause__ or e.__context__
        if e is None:
            return f"the caller got {type(o[1]).__name__}: {o[1]}, which hides the failure"
    if snap is not None and snap != before:
        return f"{o[1]}: the stored tree is {diff(before, snap)}"
    return None


def diff(a, b):
    rows = {k: (a[0].get(k), b[0].get(k)) for k in {*a[0], *b[0]} if a[0].get(k) != b[0].get(k)}
    return f"changed: {list(rows.values())}" if rows else "the same but rows of other tables changed"


def replay(job, start, ops, target):
    if hasattr(job, "raw") or getattr(job, "via", None) or treeops.get_adapter(job.adapter).order_by:
        return "skip"
    return treeops.replay(job, start, (), None)
