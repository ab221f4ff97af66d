"""C04: node_order_by is maintained by every insertion and move."""

import functools
import itertools

from vf import jobs as J
from vf import ops as O
from vf import treeops
from vf.explore import Job

ID = "C04"


def jobs(tier):
    js = J.sorted_(tier, three=True)
    # keys changed by save() after the nodes were inserted: the order is lost, the tree must not be
    big = tier == "thorough"
    for k in ("MP", "NS", "LT"):
        pg = {"engine": "pg"} if k == "LT" else {}
        js.append(Job(k + "Sort-drift", adapter=k + "Sort", seeds=drift(3 + big, big), seeds_only=True, drift=True, chunk=8, **pg))
        nulls = [(a, b) for a in (None, 1, 2) for b in (None, 1, 2)]
        js.append(Job(k + "SortN", adapter=k + "SortN", seeds=keyless(nulls, big), seeds_only=True, drift=True, chunk=8, vals=tuple(nulls), **pg))
    return js


def keyless(vals, big):
    """Lists of siblings some of which have no value for a key (which the documentation lets sorting ignore)."""
    out = []
    for i in (1, 2):
        for pay in itertools.product(vals, repeat=i):
            out.append(([None] * i, list(pay), None))
            if i == 2 and big:
                out.append(([None, 0, 0], [(None, 1), *pay], None))
    for pay in itertools.product([v for v in vals if 2 not in v], repeat=3) if big else ():
        out.append(([None] * 3, list(pay), None))
    return out


def drift(n, big):
    """Lists of up to n siblings, as roots and as children, whose keys do not ascend."""
    out = []
    for i in range(2, n + 1):
        for keys in itertools.product((1, 2, 3), repeat=i):
            if list(keys) == sorted(keys):
                continue
            pay = [(k,) for k in keys]
            out.append(([None] * i, pay, None))
            out.append(([None] + [0] * i, [(2,), *pay], None))
            out.append(([None] * i + [1], [*pay, (2,)], None))
    return out


def initial(job):
    return treeops.expand_seed(job)


def expand(job, state):
    if getattr(job, "drift", False):
        return treeops.expand(job, state, ("insert1", "move"), (), judge=functools.partial(O.judge, ordered=False))
    return treeops.expand(job, state, ("insert", "move"), ("delete",))


replay = treeops.replay
