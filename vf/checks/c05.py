"""C05: stored bookkeeping stays well-formed after any history, and find_problems stays silent."""

from vf import jobs as J
from vf import ops as O
from vf import treeops
from vf.adapters import Malformed
from vf.explore import Job

ID = "C05"

# structures given to load_bulk: nested child counts
LOADS = [((),), ((), ((),)), (((), ()), ())]


def jobs(tier):
    big = tier == "thorough"
    k = 1 if big else 0
    two = None if big else ((1,), (2,))
    js = [
        Job("MPStd", adapter="MPStd", bounds={"n": 3 + k, "pos": 4}),
        Job("MPTiny", adapter="MPTiny", bounds={"n": 4 + k}),
        Job("NSStd", adapter="NSStd", bounds={"n": 4 + k, "pos": 4}),
        Job("ALStd", adapter="ALStd", bounds={"n": 3 + k, "pos": 4}),
        Job("LTStd", engine="pg", adapter="LTStd", bounds={"n": 3, "lab": 2 + k, "chars": "0A"}),
        Job("MPSort", adapter="MPSort", bounds={"n": 3 + k, "pos": 3}, vals=two),
        Job("NSSort", adapter="NSSort", bounds={"n": 3 + k, "pos": 3}, vals=two),
        Job("LTSort", engine="pg", adapter="LTSort", bounds={"n": 2 + k, "lab": 2, "chars": "0A"}, vals=two),
    ]
    for name in ("MPStd", "NSStd", "ALStd", "LTStd"):
        pg = {"engine": "pg"} if name == "LTStd" else {}
        js.append(Job(name + "-seeds", adapter=name, seeds=J.SMALLSEEDS + [J.KIDS9], seeds_only=True, chunk=1, **pg))
    js += J.big_jobs(J.BIG_PICK[::2])
    js.append(Job("MPAscii", adapter="MPAscii", bounds={"n": 3, "pos": 3}))
    js.append(Job("MPTen-seeds", adapter="MPTen", seeds=[([None] * 9, None, None), J.KIDS9, J.TEN_END], seeds_only=True, chunk=1))
    return js


def initial(job):
    return treeops.expand_seed(job)


def structure(shape):
    return [{"data": {"desc": O.NEW}, **({"children": structure(c)} if c else {})} for c in shape]


def count(shape):
    return sum(1 + count(c) for c in shape)


_probed = set()


def job_key(ad):
    return ad.bmeta.db_table


def judge(ad, model, f, before, op, pks, outcome):
    rows = ad.read()
    if outcome[0] == "exc":
        name = type(outcome[1]).__name__
        if name not in ("PathOverflow", "InvalidMoveToDescendant"):
            raise O.Bad(f"raised {name}: {outcome[1]}")
    try:
        g = ad.forest(rows)
    except Malformed as e:
        raise O.Bad(f"stored tree is malformed afterwards: {e}")
    key = (job_key(ad), ad.canon(rows, g))
    if ad.kind in ("MP", "NS") and key not in _probed:
        _probed.add(key)  # find_problems reads the stored columns only: once per distinct stored tree
        got = model.objects.find_problems()
        if any(got):
            raise O.Bad(f"find_problems() on a well-formed tree: {got}")
        for r in g.roots:
            got = model.objects.find_problems(parent=model.objects.get(pk=r))
            if any(got):
                raise O.Bad(f"find_problems(parent) on a well-formed tree: {got}")
    return g, rows


def expand(job, state):
    ad = treeops.get_adapter(job.adapter)
    many = ("qdelete",) if len(state) <= 4 else ()
    out = treeops.expand(job, state, ("insert1", "move", "delete", *many), judge=judge)
    model = treeops.driver(job)
    from vf.adapters import Scratch

    if ad.order_by or hasattr(job, "pick"):
        return out
    with Scratch() as sc:
        pks = ad.restore(state)
        before = ad.read()
        f = ad.forest(before)
        for t in [None, *range(len(pks))]:
            for shape in LOADS:
                for bulk in (False, True) if ad.kind == "MP" else (False,):
                    op = ("load", t, shape, bulk)
                    with sc.probe():
                        out.n += 1
                        try:
                            parent = None if t is None else model.objects.get(pk=pks[t])
                            kw = {"bulk_create": True} if bulk else {}
                            r = model.objects.load_bulk(structure(shape), parent, **kw)
                            outcome = ("ok", r, {})
                        except Exception as e:  # noqa: BLE001
                            outcome = ("exc", e)
                        try:
                            g, rows = judge(ad, model, f, before, op, pks, outcome)
                        except O.Bad as e:
                            out.violation(op, e.what)
                            continue
                        if outcome[0] == "ok" and len(g.par) != len(f.par) + count(shape):
                            out.violation(op, f"{len(g.par) - len(f.par)} nodes added by load_bulk of {count(shape)}")
                        out.notes.add(("load", t is None, shape, bulk, outcome[0]))
    return out


replay = treeops.replay
