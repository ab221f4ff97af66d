"""C10: find_problems reports exactly the broken nodes (materialized paths, nested sets)."""

import itertools

from vf import forest as F
from vf import treeops
from vf.adapters import Malformed, Scratch
from vf.explore import Job, Out

ID = "C10"
TRACE_STRICT = False


def jobs(tier):
    big = tier == "thorough"
    sh = lambda *ns: [s for n in ns for s in F.shapes(n)]  # noqa: E731
    J = [
        Job("MPStd-3", adapter="MPStd", shapes=sh(0, 1, 2, 3), most=2),
        Job("MPStd-4", adapter="MPStd", shapes=sh(4), most=2 if big else 1),
        Job("MPStd-5", adapter="MPStd", shapes=sh(5, 6) if big else sh(5), most=1 if big else 0),
        Job("MPTen-3", adapter="MPTen", shapes=sh(1, 2, 3), most=2 if big else 1),
        Job("MPAscii-3", adapter="MPAscii", shapes=sh(2, 3), most=1),
        Job("MPDef-3", adapter="MPDef", shapes=sh(2, 3), most=1),
        Job("MPSort-3", adapter="MPSort", shapes=sh(2, 3), most=1),
        Job("MPBin-3", adapter="MPBin", shapes=sh(2, 3), most=1),
        Job("MPTen-wide", adapter="MPTen", shapes=[((),) * 9, (((),) * 9,)], most=1),
        Job("MPStd-wide", adapter="MPStd", shapes=[(((),) * 37, ((),)), (((((((),),),),),),)], most=1 if big else 0, chunk=1),
        Job("NSStd-3", adapter="NSStd", shapes=sh(0, 1, 2, 3), most=2),
        Job("NSStd-4", adapter="NSStd", shapes=sh(4), most=2 if big else 1),
        Job("NSStd-5", adapter="NSStd", shapes=sh(5, 6) if big else sh(5), most=1 if big else 0),
        Job("NSSort-3", adapter="NSSort", shapes=sh(3), most=1),
    ]
    if big:
        J.append(Job("MPStd-pg", engine="pg", adapter="MPStd", shapes=sh(1, 2, 3), most=1))
        J.append(Job("NSStd-pg", engine="pg", adapter="NSStd", shapes=sh(1, 2, 3), most=1))
    return J


def bad_chars(alphabet):
    return [c for c in "!/:a~" if c not in alphabet] + ["\u00e9"]


def mp_rows(ad, row, good):
    """Every corruption of one row."""
    m = ad.base
    step, alpha = m.steplen, m.alphabet
    room = m._meta.get_field("path").max_length
    p, d, c, *rest = row
    for x in sorted({d + 1, d - 1, 0, d + step}):
        if x != d and x >= 0:
            yield (p, x, c, *rest)
    for y in sorted({c + 1, c - 1, 0}):
        if y != c and y >= 0:
            yield (p, d, y, *rest)
    # two fields of one row
    yield (p, d + 1, c + 1, *rest)
    # characters outside the alphabet, at each place of the last step and in the first
    for k in sorted({0, *range(len(p) - step, len(p))}):
        for ch in bad_chars(alpha)[: 2 if k else 9]:
            yield (p[:k] + ch + p[k + 1 :], d, c, *rest)
    # not a whole number of steps
    if step > 1:
        yield (p + alpha[0], d, c, *rest)
        yield (p + alpha[-1], d, c, *rest)
        yield (p[:-1], d, c, *rest)
        yield (p + "!", d, c, *rest)
    # another place, with a parent or without
    last = alpha[-1] * step
    for q in (last, last * 2, p + last, p[:-step] + last * 2, *(r[0] + last for r in good)):
        if q != p and len(q) <= room:
            yield (q, d, c, *rest)
            yield (q, len(q) // step, c, *rest)


def ns_rows(ad, row, good):
    t, l, r, d, *rest = row
    top = 2 * len(good) + 1
    for x in sorted({d + 1, d - 1, 0}):
        if x != d and x >= 0:
            yield (t, l, r, x, *rest)
    yield (t, r, l, d, *rest)
    for x in range(1, top + 1):
        if x != l:
            yield (t, x, r, d, *rest)
        if x != r:
            yield (t, l, x, d, *rest)
    for x in (t + 1, t - 1):
        if x > 0:
            yield (x, l, r, d, *rest)


def corruptions(ad, good, most):
    gen = mp_rows if ad.kind == "MP" else ns_rows
    opts = [sorted(set(gen(ad, r, good)) - {r}, key=repr) for r in good]
    cap = ad.base._meta.get_field("path").max_length if ad.kind == "MP" else 0
    out = [good]

    def add(st):
        if ad.kind == "MP":
            paths = [r[0] for r in st]
            if len(set(paths)) < len(paths) or any(not p or len(p) > cap for p in paths):
                return
        out.append(tuple(st))

    for k in range(1, most + 1):
        for idx in itertools.combinations(range(len(good)), k):
            lists = [opts[i] + [None] for i in idx]  # None: the row is gone
            for combo in itertools.product(*lists):
                st = list(good)
                for i, r in zip(idx, combo):
                    st[i] = r
                add([r for r in st if r is not None])
    return list(dict.fromkeys(out))


def initial(job):
    ad = treeops.get_adapter(job.adapter)
    out = []
    for s in job.shapes:
        p = F.shape_parents(s)
        pay = [(1,) for _ in p] if ad.keys else None
        for g in (None, [1, 0, 2, 0, 1] + [0] * len(p)) if ad.kind == "MP" and ad.base.steplen > 1 and len(p) < 9 else (None,):
            out += corruptions(ad, ad.build(p, pay, g), job.most)
    return list(dict.fromkeys(out))


# -------------------------------------------------------------- reference
def mp_expected(m, rows, scope):
    """(kind 1..4 per node, allowed child counts)"""
    step, alpha = m.steplen, set(m.alphabet)
    paths = {d["path"] for d in rows.values()}
    want = [set() for _ in range(5)]
    free = set()
    for pk in scope:
        d = rows[pk]
        p = d["path"]
        if set(p) - alpha:
            want[0].add(pk)
        elif len(p) % step:
            want[1].add(pk)
        elif len(p) > step and p[:-step] not in paths:
            want[2].add(pk)
        elif d["depth"] != len(p) // step:
            want[3].add(pk)
        else:
            kids = [q for q in paths if len(q) == len(p) + step and q.startswith(p) and not set(q) - alpha]
            if d["numchild"] != len(kids):
                want[4].add(pk)
            if any(
                q.startswith(p) and (set(q) - alpha or len(q) % step) and len(p) < len(q) < len(p) + 2 * step for q in paths
            ):
                free.add(pk)  # whether a malformed path counts as a child is nobody's promise
    return want, free


def ns_expected(rows, scope, depth0):
    rev = {pk for pk in scope if rows[pk]["rgt"] <= rows[pk]["lft"]}
    good = [pk for pk in scope if pk not in rev]
    over = set()
    par = {}
    for a in good:
        A = rows[a]
        for b in good:
            B = rows[b]
            if a == b or A["tree_id"] != B["tree_id"]:
                continue
            apart = A["rgt"] < B["lft"] or B["rgt"] < A["lft"]
            a_in_b = B["lft"] < A["lft"] and A["rgt"] < B["rgt"]
            b_in_a = A["lft"] < B["lft"] and B["rgt"] < A["rgt"]
            if not (apart or a_in_b or b_in_a):
                over.add(a)
            if a_in_b:
                par.setdefault(a, []).append(b)
    tops = {}
    for pk in good:
        if pk not in par:
            tops.setdefault(rows[pk]["tree_id"], []).append(pk)
    double = {pk for t in tops.values() if len(t) > 1 for pk in t}
    spare = sum(len(t) - 1 for t in tops.values())
    depth = {pk for pk in good if rows[pk]["depth"] != depth0 + 1 + len(par.get(pk, ()))}
    return rev, over, double, spare, depth


def expand(job, state):
    ad = treeops.get_adapter(job.adapter)
    model = treeops.driver(job)
    out = Out()
    with Scratch():
        pks = ad.restore(state)
        rows = ad.read()
        try:
            ad.forest(rows)
            healthy = True
        except Malformed:
            healthy = False
        for t in (None, *range(len(state))):
            op = ("find_problems", t)
            out.n += 1
            depth0 = 0
            if t is None:
                scope = set(rows)
            elif ad.kind == "MP":
                scope = {pk for pk in rows if rows[pk]["path"].startswith(state[t][0])}
            else:
                me = rows[pks[t]]
                if me["rgt"] <= me["lft"]:
                    continue
                inside = lambda x: x["tree_id"] == me["tree_id"] and me["lft"] <= x["lft"] and x["rgt"] <= me["rgt"]  # noqa: E731
                scope = {pk for pk in rows if inside(rows[pk])}
                depth0 = sum(
                    1 for x in rows.values()
                    if x["tree_id"] == me["tree_id"] and x["lft"] < me["lft"] and x["rgt"] > me["rgt"]
                )  # fmt: skip
                if not healthy and any(
                    x["tree_id"] == me["tree_id"] and pk not in scope and x["rgt"] >= me["lft"] and x["lft"] <= me["rgt"]
                    and not (x["lft"] < me["lft"] and x["rgt"] > me["rgt"]) for pk, x in rows.items()
                ):  # fmt: skip
                    continue  # the branch itself is not well defined
            try:
                parent = None if t is None else model.objects.get(pk=pks[t])
                res = model.objects.find_problems(parent) if t is not None else model.objects.find_problems()
                got = [list(x) for x in res]
            except Exception as e:  # noqa: BLE001
                out.violation(op, f"raised {type(e).__name__}: {e}")
                continue
            if ad.read() != rows:
                out.violation(op, "the tree was modified")
                continue
            bad = (mp_judge if ad.kind == "MP" else ns_judge)(ad, rows, scope, got, depth0, healthy)
            if bad:
                out.violation(op, f"{bad}; rows {state}")
            out.notes.add((t is None, *(bool(x) for x in got)))
        if healthy:
            out.stats["healthy"] += 1
        else:
            out.stats["nontrivial"] += 1
    return out


def mp_judge(ad, rows, scope, got, depth0, healthy):
    want, free = mp_expected(ad.base, rows, scope)
    if len(got) != 5:
        return f"{len(got)} lists"
    name = lambda s: sorted(rows[pk]["path"] for pk in s)  # noqa: E731
    for k in range(5):
        if len(set(got[k])) != len(got[k]) or set(got[k]) - set(rows):
            return f"list {k + 1} is {got[k]}"
        skip = free if k == 4 else set()
        if set(got[k]) - skip != want[k] - skip:
            return f"list {k + 1} names {name(got[k])}, expected {name(want[k])}"
    return None


def ns_judge(ad, rows, scope, got, depth0, healthy):
    if len(got) != 4:
        return f"{len(got)} lists"
    rev, over, double, spare, depth = ns_expected(rows, scope, depth0)
    name = lambda s: sorted(tuple(rows[pk][c] for c in ad.phys) for pk in s)  # noqa: E731
    for k in range(4):
        if len(set(got[k])) != len(got[k]) or set(got[k]) - scope:
            return f"list {k + 1} is {got[k]}"
    g = [set(x) for x in got]
    if healthy and any(g):
        return f"reports {got} for a healthy tree"
    if g[0] != rev:
        return f"list 1 names {name(g[0])}, expected {name(rev)}"
    if g[1] - over or bool(g[1]) != bool(over):
        return f"list 2 names {name(g[1])}, overlapping are {name(over)}"
    if over:
        return None
    if g[2] - double or len(g[2]) not in (spare, len(double)):
        return f"list 3 names {name(g[2])}, roots that share a tree_id are {name(double)}"
    if g[3] - g[2] != depth - g[2]:
        return f"list 4 names {name(g[3])}, expected {name(depth - g[2])}"
    return None


def replay(job, start, ops, target):
    """A corrupt state has no history of its own; healthy ones are rebuilt through the API."""
    ad = treeops.get_adapter(job.adapter)
    with Scratch():
        ad.restore(start)
        try:
            ad.forest(ad.read())
        except Malformed:
            return "skip"
    return treeops.replay(job, start, (), None)
