"""C19: step encoding is a bijection that preserves order, and paths are made of it."""

import itertools

from vf.explore import Job, Out

ID = "C19"
ASSUMPTIONS = [
    "Alphabets have at least two distinct characters; a materialized-path alphabet is in ascending code point order "
    "(the documented condition for path order to be tree order).",
    "The private path helpers are compared where a helper of that name exists; every statement about paths is also "
    "checked through add_root and add_child on stored trees.",
]

D36 = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"
B85 = D36 + "abcdefghijklmnopqrstuvwxyz!#$%&()*+-;<=>?@^_`{|}~"
SPECIAL = [
    D36, B85, D36 + "abcdefghijklmnopqrstuvwxyz", "0123456789", "01", "10", "012", "abc", "zyx", "é0ñA", "Aa", "0Oo",
    "".join(chr(c) for c in range(33, 127)), "".join(chr(0x4E00 + i) for i in range(40)), " .-", "%_\\",
]  # fmt: skip


def alphabets(tier):
    """Every ordered choice of 2 to 4 of a few telling characters, and the named ones."""
    chars = "0Z1aé" + ("-" if tier == "thorough" else "")
    out = list(SPECIAL)
    for k in range(2, (6 if tier == "thorough" else 5)):
        out += ["".join(p) for p in itertools.permutations(chars, k)]
    return sorted(set(out), key=lambda s: (len(s), s))


def jobs(tier):
    js = [Job("numconv", engine="none", items=alphabets(tier), chunk=4)]
    tables = []
    for a in ("01", "012", "0123", "02A", "0123456789", "ABCDE", D36, D36 + "abcdefghijklmnopqrstuvwxyz"):
        for s in (1, 2, 3, 4):
            if len(a) ** s <= (1100 if tier == "thorough" else 130):
                tables.append(("fill", a, s))
            tables.append(("carry", a, s))
    for n in ("", "x", "abstract", "proxy"):
        tables.append(("classes", n, 0))
    js.append(Job("paths", items=tables, chunk=1))
    return js


def initial(job):
    return list(job.items)


# ------------------------------------------------------------------- oracle
def encode(alpha, n):
    s = ""
    while True:
        s = alpha[n % len(alpha)] + s
        n //= len(alpha)
        if not n:
            return s


def numbers(r):
    ns = set(range(min(r**3, 3000)))
    for k in range(1, 9):
        for d in (-2, -1, 0, 1, 2):
            for m in (1, 2, r - 1):
                if m * r**k + d >= 0:
                    ns.add(m * r**k + d)
    return sorted(ns)


def expand(job, item):
    return codec(item) if job.name == "numconv" else paths(item)


def codec(alpha):
    from vf import env

    env.setup("none")
    from treebeard.numconv import NumConv

    out = Out()
    conv = NumConv(alpha)
    r = len(alpha)
    index = {c: i for i, c in enumerate(alpha)}
    bad = lambda what, msg: out.violation((what, alpha), msg)  # noqa: E731
    prev = None
    for n in numbers(r):
        out.n += 1
        try:
            s = conv.int2str(n)
        except Exception as e:  # noqa: BLE001
            bad("int2str", f"int2str({n}) raised {type(e).__name__}: {e}")
            return out
        if s != encode(alpha, n):
            bad("int2str", f"int2str({n}) is {s!r}, expected {encode(alpha, n)!r}")
            return out
        for z in range(3):
            if conv.str2int(alpha[0] * z + s) != n:
                bad("str2int", f"str2int({alpha[0] * z + s!r}) is {conv.str2int(alpha[0] * z + s)}, expected {n}")
                return out
        if prev is not None:
            p, q = prev.rjust(len(s), alpha[0]), s
            if not [index[c] for c in p] < [index[c] for c in q]:
                bad("order", f"{p!r} does not sort before {q!r}")
                return out
        prev = s
        out.notes.add((len(s), n % r == 0, n % r == r - 1))
    # decoding: every word up to a length, with a foreign character among the letters
    letters = list(alpha if r <= 4 else alpha[:2] + alpha[-2:]) + [next(c for c in "0Aa~?€" if c not in index)]
    for k in range(1, 5):
        for w in itertools.product(letters, repeat=k):
            out.n += 1
            w = "".join(w)
            want = None
            if all(c in index for c in w):
                want = 0
                for c in w:
                    want = want * r + index[c]
            try:
                got = conv.str2int(w)
            except ValueError:
                got = None
            except Exception as e:  # noqa: BLE001
                bad("str2int", f"str2int({w!r}) raised {type(e).__name__}: {e}")
                return out
            if got != want:
                bad("str2int", f"str2int({w!r}) is {got}, expected {'ValueError' if want is None else want}")
                return out
    for n in (-1, -r, -(r**3)):
        out.n += 1
        try:
            bad("int2str", f"int2str({n}) is {conv.int2str(n)!r}, expected ValueError")
        except ValueError:
            pass
    for k in range(r):  # a repeated letter anywhere is refused
        out.n += 1
        try:
            NumConv(alpha[: k + 1] + alpha[k] + alpha[k + 1 :])
            bad("NumConv", f"alphabet with {alpha[k]!r} twice accepted")
        except ValueError:
            pass
    return out


# ------------------------------------------------------------------ paths
_models = {}


def model_for(alpha, step, base=None, tag=""):
    """A tree model on the table of MPStd with another alphabet and step length."""
    from treebeard.mp_tree import MP_Node
    from vf.app import models as M
    from django.db import models

    key = (alpha, step, base, tag)
    if key not in _models:
        meta = type("Meta", (), {"app_label": "vf", "db_table": M.MPStd._meta.db_table, "managed": False})
        _models[key] = type(
            f"Dyn{len(_models)}", (base or MP_Node,),
            {"__module__": "vf.app.models", "Meta": meta, "alphabet": alpha, "steplen": step,
             "desc": models.CharField(max_length=255, default="")},
        )  # fmt: skip
    return _models[key]


def stored(m):
    return list(m._base_manager.order_by("pk").values_list("path", "depth", "numchild"))


def put(m, items):
    m._base_manager.bulk_create(
        [m(pk=900000 + i, path=p, depth=len(p) // m.steplen, numchild=k, desc=p) for i, (p, k) in enumerate(items)]
    )


def paths(item):
    from vf.adapters import Scratch

    out = Out()
    with Scratch() as sc:
        {"fill": fill, "carry": carry, "classes": classes}[item[0]](out, sc, item)
    return out


def fill(out, sc, item):
    """Append roots, then children of the last root, until there is no room."""
    _, alpha, step = item
    m = model_for(alpha, step)
    cap = len(alpha) ** step - 1
    for level in range(2):
        parent = m.objects.get_last_root_node() if level else None
        prefix = parent.path if parent else ""
        for k in range(1, cap + 2):
            out.n += 1
            what = None
            try:
                o = m.objects.add_child(m.objects.get(pk=parent.pk), {"desc": "x"}) if parent else m.objects.add_root({"desc": "x"})
            except Exception as e:  # noqa: BLE001
                if type(e).__name__ != "PathOverflow" or k <= cap:
                    what = f"node {k} of {cap}: raised {type(e).__name__}: {e}"
            else:
                want = prefix + encode(alpha, k).rjust(step, alpha[0])
                if k > cap:
                    what = f"node {k} of {cap} accepted, path {o.path!r}"
                elif o.path != want or o.depth != level + 1:
                    what = f"node {k} has path {o.path!r} and depth {o.depth}, expected {want!r}"
            if what:
                out.violation(item, what)
                return
    out.notes.add(("full", cap))
    helpers(out, m, item)


def carry(out, sc, item):
    """Around every carry: the step after, the step shifted right, the children interval."""
    _, alpha, step = item
    m = model_for(alpha, step)
    r = len(alpha)
    top = r**step - 1
    ks = {1, 2, top - 1, top}
    for j in range(1, step):
        for d in (-1, 0, 1):
            for f in (1, 2, r - 1):
                ks.add(f * r**j + d)
    enc = lambda k: encode(alpha, k).rjust(step, alpha[0])  # noqa: E731
    for k in sorted(x for x in ks if 1 <= x <= top):
        for prefix in ("", enc(1), enc(top)):
            out.n += 1
            what = None
            with sc.probe():
                put(m, ([(prefix, 1)] if prefix else []) + [(prefix + enc(k), 1), (prefix + enc(k) + enc(top), 0)])
                get = lambda p: m.objects.get(path=p)  # noqa: E731
                try:
                    if prefix:
                        o = m.objects.add_child(get(prefix), {"desc": "x"})
                    else:
                        o = m.objects.add_root({"desc": "x"})
                    if k >= top:
                        what = f"a node after {enc(k)!r} was accepted with path {o.path!r}"
                    elif o.path != prefix + enc(k + 1):
                        what = f"the node after {enc(k)!r} has path {o.path!r}, expected {prefix + enc(k + 1)!r}"
                except Exception as e:  # noqa: BLE001
                    if k < top or type(e).__name__ != "PathOverflow":
                        what = f"adding after {enc(k)!r} raised {type(e).__name__}: {e}"
            if not what and k < top:
                with sc.probe():
                    put(m, ([(prefix, 1)] if prefix else []) + [(prefix + enc(k), 1), (prefix + enc(k) + enc(top), 0)])
                    o = m.objects.add_sibling(get(prefix + enc(k)), "left", {"desc": "x"})
                    got = sorted(p for p, _, _ in stored(m) if len(p) > len(prefix))
                    paths_ = [p[len(prefix) :] for p in got]
                    if o.path != prefix + paths_[0] or len(set(p[:step] for p in paths_)) != 2 or paths_[2][step:] != enc(top):
                        what = f"a node left of {enc(k)!r} made paths {got}"
                    if prefix and [x.path for x in m.objects.get_children(get(prefix))] != [p for p in got if len(p) == len(prefix) + step]:
                        what = f"get_children of {prefix!r} is {[x.path for x in m.objects.get_children(get(prefix))]} of {got}"
            if what:
                out.violation(item, f"step {k}, prefix {prefix!r}: {what}")
                return
            out.notes.add((k % r == 0, k == top, bool(prefix)))
    helpers(out, m, item)


def helpers(out, m, item):
    """The path helpers, where they are called so: construction, parent, last step, interval of children."""
    alpha, step, r = m.alphabet, m.steplen, len(m.alphabet)
    enc = lambda k: encode(alpha, k).rjust(step, alpha[0])  # noqa: E731
    top = r**step - 1
    ks = sorted({1, 2, r - 1, r, r + 1, top - 1, top} & set(range(1, top + 1)))
    bases = [""] + [enc(a) for a in (1, top)] + [enc(a) + enc(b) for a in (1, top) for b in (1, top)]

    def same(name, args, want):
        f = getattr(m, name, None)
        if f is None:
            out.stats["helper_absent"] += 1
            return
        out.n += 1
        out.stats["helper_calls"] += 1
        try:
            got = f(*args)
        except TypeError:  # a private helper called differently now
            out.stats["helper_absent"] += 1
            return
        if got != want:
            out.violation(item, f"{name}{args} is {got!r}, expected {want!r}")

    for b in bases:
        d = len(b) // step
        for k in ks:
            p = b + enc(k)
            same("_get_path", (b, d + 1, k), p)
            same("_get_path", (p, d + 1, ks[0]), b + enc(ks[0]))
            same("_get_parent_path_from_path", (p,), b)
            for e in range(d + 1):
                same("_get_basepath", (p, e), p[: e * step])
            if k < top and hasattr(m, "_inc_path"):
                got = m(path=p)._inc_path()
                if got != b + enc(k + 1):
                    out.violation(item, f"_inc_path of {p!r} is {got!r}")
            if hasattr(m, "_get_lastpos_in_path") and m(path=p)._get_lastpos_in_path() != k:
                out.violation(item, f"_get_lastpos_in_path of {p!r} is {m(path=p)._get_lastpos_in_path()}")
        if hasattr(m, "_get_children_path_interval"):
            lo, hi = m._get_children_path_interval(b)
            for p in (b, *(x + enc(k) for x in bases for k in ks)):
                inside = len(p) == len(b) + step and p.startswith(b)
                if inside and not lo <= p <= hi:
                    out.violation(item, f"child path {p!r} of {b!r} is outside [{lo!r}, {hi!r}]")
                # the interval is used together with the depth
                if not inside and len(p) == len(b) + step and lo <= p <= hi:
                    out.violation(item, f"path {p!r} is not a child of {b!r} but inside [{lo!r}, {hi!r}]")


def classes(out, sc, item):
    """Classes with different alphabets do not get into one another's way, whichever is used first."""
    from django.db import models
    from treebeard.mp_tree import MP_Node

    _, how, _ = item
    fam = []
    if how == "abstract":
        meta = type("Meta", (), {"abstract": True, "app_label": "vf"})
        base = type("AbsDyn", (MP_Node,), {"__module__": "vf.app.models", "Meta": meta, "alphabet": "01", "steplen": 2})
        for a in ("01", "0123456789", "ABC"):
            fam.append(model_for(a, 2, base, "abs"))
    else:
        for i, a in enumerate(("0123456789", "01", "ABCDEF")):
            fam.append(model_for(a, 2, None, how + str(i)))
    del models
    for order in itertools.permutations(range(3)):
        for k in order:
            m = fam[k]
            with sc.probe():
                got = [m.objects.add_root({"desc": "x"}).path for _ in range(3)]
                want = [encode(m.alphabet, j).rjust(2, m.alphabet[0]) for j in (1, 2, 3)]
            out.n += 1
            if got != want:
                out.violation(item, f"alphabet {m.alphabet!r}: paths {got}, expected {want}")
                return
    out.notes.add(how)
