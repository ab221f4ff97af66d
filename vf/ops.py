"""Operations on trees: enumeration, execution on the real library, judgement against the model."""

from vf.adapters import Malformed
from vf.forest import POS_CHILD, POS_SIB, Rejected

NEW = "new"
STYLES = ("k", "i")


def insert_ops(ad, n, styles=STYLES, vals=((),)):
    for st in styles:
        for v in vals:
            yield ("root", st, v)
    for t in range(n):
        for st in styles:
            for v in vals:
                yield ("child", t, st, v)
    poss = ("sorted-sibling", None) if ad.order_by else POS_SIB + (None,)
    for t in range(n):
        for pos in poss:
            for st in styles[:1] if pos not in ("left", "sorted-sibling") else styles:
                for v in vals:
                    yield ("sib", t, pos, st, v)


def move_ops(ad, n):
    poss = ("sorted-sibling", "sorted-child", None) if ad.order_by else POS_SIB + POS_CHILD + (None,)
    for a in range(n):
        for t in range(n):
            for pos in poss:
                yield ("move", a, t, pos)


def delete_ops(n):
    for a in range(n):
        yield ("del", a)


def qdelete_ops(n):
    for mask in range(1 << n):
        yield ("qdel", tuple(i for i in range(n) if mask >> i & 1))


def kwargs_for(ad, vals, desc=NEW):
    kw = {"desc": desc}
    kw.update(zip(ad.keys, vals))
    return kw


def perform(ad, model, op, pks, fetch=None, h=None):
    """Run one operation on the real library.  Returns (result, handles)."""
    mgr = model.objects
    get = fetch or (lambda i: mgr.get(pk=pks[i]))
    kind = op[0]
    h = {} if h is None else h

    def create(vals, style):
        kw = kwargs_for(ad, vals)
        return {"create_kwargs": kw} if style == "k" else {"instance": model(**kw)}

    if kind == "root":
        r = mgr.add_root(**create(op[2], op[1]))
        h["new"] = r
    elif kind == "child":
        t = h["target"] = get(op[1])
        r = mgr.add_child(t, **create(op[3], op[2]))
        h["new"] = r
    elif kind == "sib":
        t = h["target"] = get(op[1])
        r = mgr.add_sibling(t, op[2], **create(op[4], op[3]))
        h["new"] = r
    elif kind == "move":
        a = h["node"] = get(op[1])
        t = h["target"] = get(op[2]) if op[2] != op[1] else a
        if op[2] == op[1] and len(op) > 4 and op[4] == "other":
            t = h["target"] = get(op[2])
        r = mgr.move(a, t, op[3]) if op[3] is not None else mgr.move(a, t)
    elif kind == "del":
        r = get(op[1]).delete()
    elif kind == "qdel":
        r = mgr.filter(pk__in=[pks[i] for i in op[1]]).delete()
    else:
        raise AssertionError(kind)
    return r, h


def default_pos(ad, pos):
    if pos is None:
        return "sorted-sibling" if ad.order_by else "last-sibling"
    return pos


class Bad(Exception):
    """What the library did is not what the model says."""

    def __init__(self, what):
        super().__init__(what)
        self.what = what


def expected_unsorted(f, op, pks, newpk, ad):
    g = f.copy()
    kind = op[0]
    if kind == "root":
        g.add_root(newpk)
    elif kind == "child":
        g.add_child(pks[op[1]], newpk)
    elif kind == "sib":
        g.add_sibling(pks[op[1]], default_pos(ad, op[2]), newpk)
    elif kind == "move":
        g.move(pks[op[1]], pks[op[2]], default_pos(ad, op[3]))
    elif kind == "del":
        g.remove([pks[op[1]]])
    elif kind == "qdel":
        g.remove([pks[i] for i in op[1]])
    return g


def height(f, i):
    return 1 + max((height(f, c) for c in f.ch[i]), default=0)


def room_for(ad, f, before, op, pks):
    """Materialized paths only: is there room for what `op` asks?

    yes   a free step exists after the last sibling and the depth fits: has to succeed
    maybe no free step after the last sibling: success or PathOverflow
    no    the resulting path is longer than path.max_length: PathOverflow has to be raised
    """
    if ad.kind != "MP" or op[0] not in ("root", "child", "sib", "move"):
        return "yes"
    m = ad.base
    who = None
    if op[0] == "root":
        parent = None
    elif op[0] == "child":
        parent = pks[op[1]]
    elif op[0] == "sib":
        parent = f.par[pks[op[1]]]
    else:
        who = pks[op[1]]
        parent = pks[op[2]] if (op[3] or "").endswith("child") else f.par[pks[op[2]]]
    depth = 0 if parent is None else f.depth(parent)
    if (depth + (height(f, who) if who else 1)) * m.steplen > m._meta.get_field("path").max_length:
        return "no"
    kids = f.kids(parent)
    if not kids:
        return "yes"
    base = {c: i for i, c in enumerate(m.alphabet)}
    v = 0
    for ch in before[kids[-1]]["path"][-m.steplen :]:
        v = v * len(base) + base[ch]
    return "yes" if v + 1 <= len(base) ** m.steplen - 1 else "maybe"


def check_sorted_place(ad, f, g, rows, who, parent, ordered=True):
    """g is f plus/with `who` under `parent`: others keep their relative order, keys ascend.

    For AL the order is made by the query, so ties between equal keys are free;
    `ad.forest` already reads AL siblings in key order.
    """
    if g.par.get(who, "gone") != parent:
        raise Bad(f"node is under {g.par.get(who, 'gone')}, expected under {parent}")
    for lst in (g.kids(parent),):
        keys = [ad.payload(rows[i]) for i in lst]
        for a, b in zip(keys, keys[1:]):
            if ordered and ad.key_less(b, a):
                raise Bad(f"siblings out of order: keys {keys}, node_order_by {ad.order_by}")
    # everything except `who` and its place is as before
    for p in set(f.ch) | {None}:
        a = [x for x in f.kids(p) if x != who]
        b = [x for x in g.kids(p) if x != who]
        if a != b:
            raise Bad(f"children of {p} changed: {a} -> {b}")
    if who in f.ch and f.ch[who] != g.ch[who]:
        raise Bad(f"children of the moved node changed: {f.ch[who]} -> {g.ch[who]}")
    if set(g.ch) != set(f.ch) | {who}:
        raise Bad("nodes appeared or disappeared")


def ordered_ok(ad, f, rows):
    """All sibling lists of f ascend by node_order_by."""
    for p in [None, *f.ch]:
        keys = [ad.payload(rows[i]) for i in f.kids(p)]
        for a, b in zip(keys, keys[1:]):
            if ad.key_less(b, a):
                return False
    return True


def payload_unchanged(before, after, fields, skip=()):
    for pk, d in before.items():
        if pk in after and pk not in skip:
            for k in fields:
                if after[pk][k] != d[k]:
                    raise Bad(f"field {k} of node {pk} changed from {d[k]!r} to {after[pk][k]!r}")


def judge(ad, model, f, before, op, pks, outcome, api=True, ordered=True):
    """Compare the database with the model after `op`.

    outcome: ("ok", result, handles) or ("exc", exception).
    Returns (forest, rows) of the new state.  Raises Bad.
    """
    rows = ad.read()
    kind = op[0]
    # what should have happened
    want_exc = None
    if kind == "move":
        try:
            if ad.order_by:
                f.copy().sorted_move(pks[op[1]], pks[op[2]], default_pos(ad, op[3]), lambda a, b: False)
            else:
                f.copy().move(pks[op[1]], pks[op[2]], default_pos(ad, op[3]))
        except Rejected as e:
            want_exc = e.name
    room = room_for(ad, f, before, op, pks) if want_exc is None else "yes"
    if outcome[0] == "exc":
        got = type(outcome[1]).__name__
        if want_exc is None and got == "PathOverflow" and room != "yes":
            if rows != before:
                raise Bad("raised PathOverflow but the stored tree changed")
            return f, rows
        if want_exc is None:
            raise Bad(f"raised {got}: {outcome[1]}")
        if got != want_exc:
            raise Bad(f"raised {got}: {outcome[1]}, expected {want_exc}")
        if rows != before:
            raise Bad(f"raised {got} but the stored tree changed")
        return f, rows
    if want_exc is not None:
        raise Bad(f"accepted, expected {want_exc}")
    if room == "no":
        raise Bad("accepted although the new path does not fit in path.max_length; PathOverflow expected")
    try:
        g = ad.forest(rows)
    except Malformed as e:
        raise Bad(f"stored tree is malformed afterwards: {e}")
    payload_unchanged(before, rows, ("desc", *ad.keys))
    newpk = None
    if kind in ("root", "child", "sib"):
        fresh = set(rows) - set(before)
        if len(fresh) != 1 or set(before) - set(rows):
            raise Bad(f"{len(fresh)} nodes appeared, {len(set(before) - set(rows))} disappeared")
        newpk = fresh.pop()
        r = outcome[1]
        if r is None or r.pk != newpk:
            raise Bad(f"returned object has pk {getattr(r, 'pk', None)}, stored node {newpk}")
        vals = op[-1]
        if rows[newpk]["desc"] != NEW or ad.payload(rows[newpk]) != tuple(vals[: len(ad.keys)]):
            raise Bad("the stored node does not carry the values it was created with")
    names = {pk: d["desc"] for pk, d in rows.items()}
    names.update({pk: d["desc"] for pk, d in before.items()})
    if ad.order_by and kind in ("root", "child", "sib", "move"):
        if kind == "move":
            who = pks[op[1]]
            t = pks[op[2]]
            pos = default_pos(ad, op[3])
            parent = t if pos.endswith("child") else f.par[t]
        else:
            who = newpk
            parent = None if kind == "root" else (pks[op[1]] if kind == "child" else f.par[pks[op[1]]])
        try:
            check_sorted_place(ad, f, g, rows, who, parent, ordered)
        except Bad as e:
            raise Bad(f"{e.what}; {f.show(names)} -> {g.show(names)}")
    else:
        want = expected_unsorted(f, op, pks, newpk, ad)
        if want != g:
            raise Bad(f"tree is {g.show(names)}, expected {want.show(names)} (was {f.show(names)})")
    if api:
        check_api_order(ad, model, g, rows)
    return g, rows


def check_api_order(ad, model, g, rows):
    if ad.kind == "AL":  # thousands of queries; C06 reads adjacency lists through the API
        return
    got = [x.pk for x in model.objects.get_tree()]
    want = g.dfs()
    if got != want:
        raise Bad(f"get_tree() returned {got}, expected {want}")


def run(ad, model, op, pks, fetch=None):
    h = {}
    try:
        r, h = perform(ad, model, op, pks, fetch, h)
        return ("ok", r, h)
    except Exception as e:  # noqa: BLE001 - any exception is an outcome to judge
        return ("exc", e, h)


def position_of(ad, obj):
    """The tree columns as the object in memory has them, without asking the database."""
    if ad.kind == "AL":
        d = {ad.pcol: obj.parent_id}
        if not ad.order_by:
            d["sib_order"] = obj.sib_order
        return d
    if ad.kind == "LT":
        return {"path": str(obj.path)}
    return {k: getattr(obj, k) for k in ad.phys}


def undisturbed(ad, before, h):
    """The objects handed to a call that was refused still say what is stored."""
    for role, obj in h.items():
        if obj.pk in before:
            want = {k: before[obj.pk][k] for k in ad.phys}
            got = position_of(ad, obj)
            if got != want:
                raise Bad(f"the call was refused, but the {role} object now says {got}, stored {want}")


def show_op(op):
    return repr(op)
